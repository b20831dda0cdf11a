N(HTML, "http://www.w3.org/1999/xhtml")
N(MathML, "http://www.w3.org/1998/Math/MathML")
N(SVG, "http://www.w3.org/2000/svg")
N(XLink, "http://www.w3.org/1999/xlink")
N(XML, "http://www.w3.org/XML/1998/namespace")
N(XMLNS, "http://www.w3.org/2000/xmlns/")
T(A, "a")
T(Abbr, "abbr")
T(Abs, "abs")
T(Address, "address")
T(AltGlyph, "altGlyph")
T(AltGlyphDef, "altGlyphDef")
T(AltGlyphItem, "altGlyphItem")
T(Altglyph, "altglyph")
T(Altglyphdef, "altglyphdef")
T(Altglyphitem, "altglyphitem")
T(And, "and")
T(Animate, "animate")
T(AnimateColor, "animateColor")
T(AnimateMotion, "animateMotion")
T(AnimateTransform, "animateTransform")
T(Animatecolor, "animatecolor")
T(Animatemotion, "animatemotion")
T(Animatetransform, "animatetransform")
T(Annotation, "annotation")
T(Annotation_xml, "annotation-xml")
T(Applet, "applet")
T(Apply, "apply")
T(Approx, "approx")
T(Arccos, "arccos")
T(Arccosh, "arccosh")
T(Arccot, "arccot")
T(Arccoth, "arccoth")
T(Arccsc, "arccsc")
T(Arccsch, "arccsch")
T(Arcsec, "arcsec")
T(Arcsech, "arcsech")
T(Arcsin, "arcsin")
T(Arcsinh, "arcsinh")
T(Arctan, "arctan")
T(Arctanh, "arctanh")
T(Area, "area")
T(Arg, "arg")
T(Article, "article")
T(Aside, "aside")
T(Audio, "audio")
T(B, "b")
T(Base, "base")
T(Basefont, "basefont")
T(Bdi, "bdi")
T(Bdo, "bdo")
T(Bgsound, "bgsound")
T(Big, "big")
T(Bind, "bind")
T(Blockquote, "blockquote")
T(Body, "body")
T(Br, "br")
T(Button, "button")
T(Bvar, "bvar")
T(Canvas, "canvas")
T(Caption, "caption")
T(Card, "card")
T(Cartesianproduct, "cartesianproduct")
T(Cbytes, "cbytes")
T(Ceiling, "ceiling")
T(Center, "center")
T(Cerror, "cerror")
T(Ci, "ci")
T(Circle, "circle")
T(Cite, "cite")
T(ClipPath, "clipPath")
T(Clippath, "clippath")
T(Cn, "cn")
T(Code, "code")
T(Codomain, "codomain")
T(Col, "col")
T(Colgroup, "colgroup")
T(Complexes, "complexes")
T(Compose, "compose")
T(Condition, "condition")
T(Conjugate, "conjugate")
T(Cos, "cos")
T(Cosh, "cosh")
T(Cot, "cot")
T(Coth, "coth")
T(Cs, "cs")
T(Csc, "csc")
T(Csch, "csch")
T(Csymbol, "csymbol")
T(Curl, "curl")
T(Data, "data")
T(Datalist, "datalist")
T(Dd, "dd")
T(Declare, "declare")
T(Defs, "defs")
T(Degree, "degree")
T(Del, "del")
T(Desc, "desc")
T(Details, "details")
T(Determinant, "determinant")
T(Dfn, "dfn")
T(Dialog, "dialog")
T(Diff, "diff")
T(Dir, "dir")
T(Discard, "discard")
T(Div, "div")
T(Divergence, "divergence")
T(Divide, "divide")
T(Dl, "dl")
T(Domain, "domain")
T(Domainofapplication, "domainofapplication")
T(Dt, "dt")
T(Ellipse, "ellipse")
T(Em, "em")
T(Embed, "embed")
T(Emptyset, "emptyset")
T(Eq, "eq")
T(Equivalent, "equivalent")
T(Eulergamma, "eulergamma")
T(Exists, "exists")
T(Exp, "exp")
T(Exponentiale, "exponentiale")
T(Factorial, "factorial")
T(Factorof, "factorof")
T(False, "false")
T(FeBlend, "feBlend")
T(FeColorMatrix, "feColorMatrix")
T(FeComponentTransfer, "feComponentTransfer")
T(FeComposite, "feComposite")
T(FeConvolveMatrix, "feConvolveMatrix")
T(FeDiffuseLighting, "feDiffuseLighting")
T(FeDisplacementMap, "feDisplacementMap")
T(FeDistantLight, "feDistantLight")
T(FeDropShadow, "feDropShadow")
T(FeFlood, "feFlood")
T(FeFuncA, "feFuncA")
T(FeFuncB, "feFuncB")
T(FeFuncG, "feFuncG")
T(FeFuncR, "feFuncR")
T(FeGaussianBlur, "feGaussianBlur")
T(FeImage, "feImage")
T(FeMerge, "feMerge")
T(FeMergeNode, "feMergeNode")
T(FeMorphology, "feMorphology")
T(FeOffset, "feOffset")
T(FePointLight, "fePointLight")
T(FeSpecularLighting, "feSpecularLighting")
T(FeSpotLight, "feSpotLight")
T(FeTile, "feTile")
T(FeTurbulence, "feTurbulence")
T(Feblend, "feblend")
T(Fecolormatrix, "fecolormatrix")
T(Fecomponenttransfer, "fecomponenttransfer")
T(Fecomposite, "fecomposite")
T(Feconvolvematrix, "feconvolvematrix")
T(Fediffuselighting, "fediffuselighting")
T(Fedisplacementmap, "fedisplacementmap")
T(Fedistantlight, "fedistantlight")
T(Fedropshadow, "fedropshadow")
T(Feflood, "feflood")
T(Fefunca, "fefunca")
T(Fefuncb, "fefuncb")
T(Fefuncg, "fefuncg")
T(Fefuncr, "fefuncr")
T(Fegaussianblur, "fegaussianblur")
T(Feimage, "feimage")
T(Femerge, "femerge")
T(Femergenode, "femergenode")
T(Femorphology, "femorphology")
T(Feoffset, "feoffset")
T(Fepointlight, "fepointlight")
T(Fespecularlighting, "fespecularlighting")
T(Fespotlight, "fespotlight")
T(Fetile, "fetile")
T(Feturbulence, "feturbulence")
T(Fieldset, "fieldset")
T(Figcaption, "figcaption")
T(Figure, "figure")
T(Filter, "filter")
T(Floor, "floor")
T(Fn, "fn")
T(Font, "font")
T(Footer, "footer")
T(Forall, "forall")
T(ForeignObject, "foreignObject")
T(Foreignobject, "foreignobject")
T(Form, "form")
T(Frame, "frame")
T(Frameset, "frameset")
T(G, "g")
T(Gcd, "gcd")
T(Geq, "geq")
T(GlyphRef, "glyphRef")
T(Glyphref, "glyphref")
T(Grad, "grad")
T(Gt, "gt")
T(H1, "h1")
T(H2, "h2")
T(H3, "h3")
T(H4, "h4")
T(H5, "h5")
T(H6, "h6")
T(Head, "head")
T(Header, "header")
T(Hgroup, "hgroup")
T(Hr, "hr")
T(Html, "html")
T(I, "i")
T(Ident, "ident")
T(Iframe, "iframe")
T(Image, "image")
T(Imaginary, "imaginary")
T(Imaginaryi, "imaginaryi")
T(Img, "img")
T(Implies, "implies")
T(In, "in")
T(Infinity, "infinity")
T(Input, "input")
T(Ins, "ins")
T(Int, "int")
T(Integers, "integers")
T(Intersect, "intersect")
T(Interval, "interval")
T(Inverse, "inverse")
T(Kbd, "kbd")
T(Keygen, "keygen")
T(Label, "label")
T(Lambda, "lambda")
T(Laplacian, "laplacian")
T(Lcm, "lcm")
T(Legend, "legend")
T(Leq, "leq")
T(Li, "li")
T(Limit, "limit")
T(Line, "line")
T(LinearGradient, "linearGradient")
T(Lineargradient, "lineargradient")
T(Link, "link")
T(List, "list")
T(Listing, "listing")
T(Ln, "ln")
T(Log, "log")
T(Logbase, "logbase")
T(Lowlimit, "lowlimit")
T(Lt, "lt")
T(Maction, "maction")
T(Main, "main")
T(Maligngroup, "maligngroup")
T(Malignmark, "malignmark")
T(Map, "map")
T(Mark, "mark")
T(Marker, "marker")
T(Marquee, "marquee")
T(Mask, "mask")
T(Math, "math")
T(Matrix, "matrix")
T(Matrixrow, "matrixrow")
T(Max, "max")
T(Mean, "mean")
T(Median, "median")
T(Menclose, "menclose")
T(Menu, "menu")
T(Merror, "merror")
T(Meta, "meta")
T(Metadata, "metadata")
T(Meter, "meter")
T(Mfenced, "mfenced")
T(Mfrac, "mfrac")
T(Mglyph, "mglyph")
T(Mi, "mi")
T(Min, "min")
T(Minus, "minus")
T(Mlabeledtr, "mlabeledtr")
T(Mlongdiv, "mlongdiv")
T(Mmultiscripts, "mmultiscripts")
T(Mn, "mn")
T(Mo, "mo")
T(Mode, "mode")
T(Moment, "moment")
T(Momentabout, "momentabout")
T(Mover, "mover")
T(Mpadded, "mpadded")
T(Mpath, "mpath")
T(Mphantom, "mphantom")
T(Mprescripts, "mprescripts")
T(Mroot, "mroot")
T(Mrow, "mrow")
T(Ms, "ms")
T(Mscarries, "mscarries")
T(Mscarry, "mscarry")
T(Msgroup, "msgroup")
T(Msline, "msline")
T(Mspace, "mspace")
T(Msqrt, "msqrt")
T(Msrow, "msrow")
T(Mstack, "mstack")
T(Mstyle, "mstyle")
T(Msub, "msub")
T(Msubsup, "msubsup")
T(Msup, "msup")
T(Mtable, "mtable")
T(Mtd, "mtd")
T(Mtext, "mtext")
T(Mtr, "mtr")
T(Munder, "munder")
T(Munderover, "munderover")
T(Naturalnumbers, "naturalnumbers")
T(Nav, "nav")
T(Neq, "neq")
T(Nobr, "nobr")
T(Noembed, "noembed")
T(Noframes, "noframes")
T(None, "none")
T(Noscript, "noscript")
T(Not, "not")
T(Notanumber, "notanumber")
T(Notin, "notin")
T(Notprsubset, "notprsubset")
T(Notsubset, "notsubset")
T(Object, "object")
T(Ol, "ol")
T(Optgroup, "optgroup")
T(Option, "option")
T(Or, "or")
T(Otherwise, "otherwise")
T(Outerproduct, "outerproduct")
T(Output, "output")
T(P, "p")
T(Param, "param")
T(Partialdiff, "partialdiff")
T(Path, "path")
T(Pattern, "pattern")
T(Pi, "pi")
T(Picture, "picture")
T(Piece, "piece")
T(Piecewise, "piecewise")
T(Plaintext, "plaintext")
T(Plus, "plus")
T(Polygon, "polygon")
T(Polyline, "polyline")
T(Power, "power")
T(Pre, "pre")
T(Primes, "primes")
T(Product, "product")
T(Progress, "progress")
T(Prsubset, "prsubset")
T(Q, "q")
T(Quotient, "quotient")
T(RadialGradient, "radialGradient")
T(Radialgradient, "radialgradient")
T(Rationals, "rationals")
T(Rb, "rb")
T(Real, "real")
T(Reals, "reals")
T(Rect, "rect")
T(Reln, "reln")
T(Rem, "rem")
T(Root, "root")
T(Rp, "rp")
T(Rt, "rt")
T(Rtc, "rtc")
T(Ruby, "ruby")
T(S, "s")
T(Samp, "samp")
T(Scalarproduct, "scalarproduct")
T(Script, "script")
T(Sdev, "sdev")
T(Sec, "sec")
T(Sech, "sech")
T(Section, "section")
T(Select, "select")
T(Selector, "selector")
T(Semantics, "semantics")
T(Sep, "sep")
T(Set, "set")
T(Setdiff, "setdiff")
T(Share, "share")
T(Sin, "sin")
T(Sinh, "sinh")
T(Slot, "slot")
T(Small, "small")
T(Source, "source")
T(Span, "span")
T(Stop, "stop")
T(Strike, "strike")
T(Strong, "strong")
T(Style, "style")
T(Sub, "sub")
T(Subset, "subset")
T(Sum, "sum")
T(Summary, "summary")
T(Sup, "sup")
T(Svg, "svg")
T(Switch, "switch")
T(Symbol, "symbol")
T(Table, "table")
T(Tan, "tan")
T(Tanh, "tanh")
T(Tbody, "tbody")
T(Td, "td")
T(Template, "template")
T(Tendsto, "tendsto")
T(Text, "text")
T(TextPath, "textPath")
T(Textarea, "textarea")
T(Textpath, "textpath")
T(Tfoot, "tfoot")
T(Th, "th")
T(Thead, "thead")
T(Time, "time")
T(Times, "times")
T(Title, "title")
T(Tr, "tr")
T(Track, "track")
T(Transpose, "transpose")
T(True, "true")
T(Tspan, "tspan")
T(Tt, "tt")
T(U, "u")
T(Ul, "ul")
T(Union, "union")
T(Uplimit, "uplimit")
T(Use, "use")
T(Var, "var")
T(Variance, "variance")
T(Vector, "vector")
T(Vectorproduct, "vectorproduct")
T(Video, "video")
T(View, "view")
T(Wbr, "wbr")
T(Xmp, "xmp")
T(Xor, "xor")
A(Abbr, "abbr")
A(Accent, "accent")
A(Accentunder, "accentunder")
A(Accept, "accept")
A(Accept_charset, "accept-charset")
A(Accesskey, "accesskey")
A(Accumulate, "accumulate")
A(Action, "action")
A(Actiontype, "actiontype")
A(Actuate, "actuate")
A(Additive, "additive")
A(Align, "align")
A(Alignment_baseline, "alignment-baseline")
A(Alignmentscope, "alignmentscope")
A(Allow, "allow")
A(Allowfullscreen, "allowfullscreen")
A(Allowpaymentrequest, "allowpaymentrequest")
A(Alt, "alt")
A(Altimg, "altimg")
A(Altimg_height, "altimg-height")
A(Altimg_valign, "altimg-valign")
A(Altimg_width, "altimg-width")
A(Alttext, "alttext")
A(Amplitude, "amplitude")
A(Annotation_xml, "annotation-xml")
A(Arcrole, "arcrole")
A(Aria_activedescendant, "aria-activedescendant")
A(Aria_atomic, "aria-atomic")
A(Aria_autocomplete, "aria-autocomplete")
A(Aria_busy, "aria-busy")
A(Aria_checked, "aria-checked")
A(Aria_colcount, "aria-colcount")
A(Aria_colindex, "aria-colindex")
A(Aria_colspan, "aria-colspan")
A(Aria_controls, "aria-controls")
A(Aria_current, "aria-current")
A(Aria_describedby, "aria-describedby")
A(Aria_details, "aria-details")
A(Aria_disabled, "aria-disabled")
A(Aria_dropeffect, "aria-dropeffect")
A(Aria_errormessage, "aria-errormessage")
A(Aria_expanded, "aria-expanded")
A(Aria_flowto, "aria-flowto")
A(Aria_grabbed, "aria-grabbed")
A(Aria_haspopup, "aria-haspopup")
A(Aria_hidden, "aria-hidden")
A(Aria_invalid, "aria-invalid")
A(Aria_keyshortcuts, "aria-keyshortcuts")
A(Aria_label, "aria-label")
A(Aria_labelledby, "aria-labelledby")
A(Aria_level, "aria-level")
A(Aria_live, "aria-live")
A(Aria_modal, "aria-modal")
A(Aria_multiline, "aria-multiline")
A(Aria_multiselectable, "aria-multiselectable")
A(Aria_orientation, "aria-orientation")
A(Aria_owns, "aria-owns")
A(Aria_placeholder, "aria-placeholder")
A(Aria_posinset, "aria-posinset")
A(Aria_pressed, "aria-pressed")
A(Aria_readonly, "aria-readonly")
A(Aria_relevant, "aria-relevant")
A(Aria_required, "aria-required")
A(Aria_roledescription, "aria-roledescription")
A(Aria_rowcount, "aria-rowcount")
A(Aria_rowindex, "aria-rowindex")
A(Aria_rowspan, "aria-rowspan")
A(Aria_selected, "aria-selected")
A(Aria_setsize, "aria-setsize")
A(Aria_sort, "aria-sort")
A(Aria_valuemax, "aria-valuemax")
A(Aria_valuemin, "aria-valuemin")
A(Aria_valuenow, "aria-valuenow")
A(Aria_valuetext, "aria-valuetext")
A(As, "as")
A(Async, "async")
A(AttributeName, "attributeName")
A(AttributeType, "attributeType")
A(Attributename, "attributename")
A(Attributetype, "attributetype")
A(Autocapitalize, "autocapitalize")
A(Autocomplete, "autocomplete")
A(Autofocus, "autofocus")
A(Autoplay, "autoplay")
A(Azimuth, "azimuth")
A(Background, "background")
A(Base, "base")
A(BaseFrequency, "baseFrequency")
A(BaseProfile, "baseProfile")
A(Basefrequency, "basefrequency")
A(Baseline, "baseline")
A(Baseline_shift, "baseline-shift")
A(Baseprofile, "baseprofile")
A(Begin, "begin")
A(Bevelled, "bevelled")
A(Bias, "bias")
A(By, "by")
A(CalcMode, "calcMode")
A(Calcmode, "calcmode")
A(Cd, "cd")
A(Cdgroup, "cdgroup")
A(Charalign, "charalign")
A(Charset, "charset")
A(Charspacing, "charspacing")
A(Checked, "checked")
A(Cite, "cite")
A(Class, "class")
A(Clip, "clip")
A(Clip_path, "clip-path")
A(Clip_rule, "clip-rule")
A(ClipPathUnits, "clipPathUnits")
A(Clippathunits, "clippathunits")
A(Close, "close")
A(Closure, "closure")
A(Color, "color")
A(Color_interpolation, "color-interpolation")
A(Color_interpolation_filters, "color-interpolation-filters")
A(Cols, "cols")
A(Colspan, "colspan")
A(Columnalign, "columnalign")
A(Columnalignment, "columnalignment")
A(Columnlines, "columnlines")
A(Columnspacing, "columnspacing")
A(Columnspan, "columnspan")
A(Columnwidth, "columnwidth")
A(Content, "content")
A(Contenteditable, "contenteditable")
A(Controls, "controls")
A(Coords, "coords")
A(Crossorigin, "crossorigin")
A(Crossout, "crossout")
A(Cursor, "cursor")
A(Cx, "cx")
A(Cy, "cy")
A(Data, "data")
A(Datetime, "datetime")
A(Decimalpoint, "decimalpoint")
A(Decoding, "decoding")
A(Default, "default")
A(Defer, "defer")
A(DefinitionURL, "definitionURL")
A(Definitionurl, "definitionurl")
A(Denomalign, "denomalign")
A(Depth, "depth")
A(DiffuseConstant, "diffuseConstant")
A(Diffuseconstant, "diffuseconstant")
A(Dir, "dir")
A(Direction, "direction")
A(Dirname, "dirname")
A(Disabled, "disabled")
A(Display, "display")
A(Displaystyle, "displaystyle")
A(Divisor, "divisor")
A(Dominant_baseline, "dominant-baseline")
A(Download, "download")
A(Draggable, "draggable")
A(Dur, "dur")
A(Dx, "dx")
A(Dy, "dy")
A(Edge, "edge")
A(EdgeMode, "edgeMode")
A(Edgemode, "edgemode")
A(Elevation, "elevation")
A(Encoding, "encoding")
A(Enctype, "enctype")
A(End, "end")
A(Enterkeyhint, "enterkeyhint")
A(Equalcolumns, "equalcolumns")
A(Equalrows, "equalrows")
A(Exponent, "exponent")
A(Fence, "fence")
A(Fill, "fill")
A(Fill_opacity, "fill-opacity")
A(Fill_rule, "fill-rule")
A(Filter, "filter")
A(FilterUnits, "filterUnits")
A(Filterunits, "filterunits")
A(Flood_color, "flood-color")
A(Flood_opacity, "flood-opacity")
A(Font_family, "font-family")
A(Font_size, "font-size")
A(Font_size_adjust, "font-size-adjust")
A(Font_stretch, "font-stretch")
A(Font_style, "font-style")
A(Font_variant, "font-variant")
A(Font_weight, "font-weight")
A(Fontfamily, "fontfamily")
A(Fontsize, "fontsize")
A(Fontstyle, "fontstyle")
A(Fontweight, "fontweight")
A(For, "for")
A(Form, "form")
A(Formaction, "formaction")
A(Formenctype, "formenctype")
A(Formmethod, "formmethod")
A(Formnovalidate, "formnovalidate")
A(Formtarget, "formtarget")
A(Fr, "fr")
A(Frame, "frame")
A(Framespacing, "framespacing")
A(From, "from")
A(Fx, "fx")
A(Fy, "fy")
A(Glyph_orientation_horizontal, "glyph-orientation-horizontal")
A(Glyph_orientation_vertical, "glyph-orientation-vertical")
A(GlyphRef, "glyphRef")
A(Glyphref, "glyphref")
A(GradientTransform, "gradientTransform")
A(GradientUnits, "gradientUnits")
A(Gradienttransform, "gradienttransform")
A(Gradientunits, "gradientunits")
A(Groupalign, "groupalign")
A(Headers, "headers")
A(Height, "height")
A(Hidden, "hidden")
A(High, "high")
A(Href, "href")
A(Hreflang, "hreflang")
A(Http_equiv, "http-equiv")
A(Id, "id")
A(Image_rendering, "image-rendering")
A(Imagesizes, "imagesizes")
A(Imagesrcset, "imagesrcset")
A(In, "in")
A(In2, "in2")
A(Indentalign, "indentalign")
A(Indentalignfirst, "indentalignfirst")
A(Indentalignlast, "indentalignlast")
A(Indentshift, "indentshift")
A(Indentshiftfirst, "indentshiftfirst")
A(Indentshiftlast, "indentshiftlast")
A(Indenttarget, "indenttarget")
A(Index, "index")
A(Infixlinebreakstyle, "infixlinebreakstyle")
A(Inputmode, "inputmode")
A(Integer, "integer")
A(Integrity, "integrity")
A(Intercept, "intercept")
A(Is, "is")
A(Ismap, "ismap")
A(Itemid, "itemid")
A(Itemprop, "itemprop")
A(Itemref, "itemref")
A(Itemscope, "itemscope")
A(Itemtype, "itemtype")
A(K1, "k1")
A(K2, "k2")
A(K3, "k3")
A(K4, "k4")
A(KernelMatrix, "kernelMatrix")
A(KernelUnitLength, "kernelUnitLength")
A(Kernelmatrix, "kernelmatrix")
A(Kernelunitlength, "kernelunitlength")
A(KeyPoints, "keyPoints")
A(KeySplines, "keySplines")
A(KeyTimes, "keyTimes")
A(Keypoints, "keypoints")
A(Keysplines, "keysplines")
A(Keytimes, "keytimes")
A(Kind, "kind")
A(Label, "label")
A(Lang, "lang")
A(Largeop, "largeop")
A(Leftoverhang, "leftoverhang")
A(Length, "length")
A(LengthAdjust, "lengthAdjust")
A(Lengthadjust, "lengthadjust")
A(Letter_spacing, "letter-spacing")
A(Lighting_color, "lighting-color")
A(LimitingConeAngle, "limitingConeAngle")
A(Limitingconeangle, "limitingconeangle")
A(Linebreak, "linebreak")
A(Linebreakmultchar, "linebreakmultchar")
A(Linebreakstyle, "linebreakstyle")
A(Lineleading, "lineleading")
A(Linethickness, "linethickness")
A(List, "list")
A(Loading, "loading")
A(Location, "location")
A(Longdivstyle, "longdivstyle")
A(Loop, "loop")
A(Low, "low")
A(Lquote, "lquote")
A(Lspace, "lspace")
A(Ltr, "ltr")
A(Macros, "macros")
A(Manifest, "manifest")
A(Marker_end, "marker-end")
A(Marker_mid, "marker-mid")
A(Marker_start, "marker-start")
A(MarkerHeight, "markerHeight")
A(MarkerUnits, "markerUnits")
A(MarkerWidth, "markerWidth")
A(Markerheight, "markerheight")
A(Markerunits, "markerunits")
A(Markerwidth, "markerwidth")
A(Mask, "mask")
A(Mask_type, "mask-type")
A(MaskContentUnits, "maskContentUnits")
A(MaskUnits, "maskUnits")
A(Maskcontentunits, "maskcontentunits")
A(Maskunits, "maskunits")
A(Math, "math")
A(Mathbackground, "mathbackground")
A(Mathcolor, "mathcolor")
A(Mathsize, "mathsize")
A(Mathvariant, "mathvariant")
A(Max, "max")
A(Maxlength, "maxlength")
A(Maxsize, "maxsize")
A(Maxwidth, "maxwidth")
A(Media, "media")
A(Mediummathspace, "mediummathspace")
A(Menclose, "menclose")
A(Method, "method")
A(Min, "min")
A(Minlabelspacing, "minlabelspacing")
A(Minlength, "minlength")
A(Minsize, "minsize")
A(Mode, "mode")
A(Movablelimits, "movablelimits")
A(Msgroup, "msgroup")
A(Mslinethickness, "mslinethickness")
A(Multiple, "multiple")
A(Muted, "muted")
A(Name, "name")
A(Nargs, "nargs")
A(Newline, "newline")
A(Nomodule, "nomodule")
A(Nonce, "nonce")
A(Notation, "notation")
A(Novalidate, "novalidate")
A(NumOctaves, "numOctaves")
A(Numalign, "numalign")
A(Number, "number")
A(Numoctaves, "numoctaves")
A(Occurrence, "occurrence")
A(Offset, "offset")
A(Onabort, "onabort")
A(Onafterprint, "onafterprint")
A(Onauxclick, "onauxclick")
A(Onbeforeprint, "onbeforeprint")
A(Onbeforeunload, "onbeforeunload")
A(Onbegin, "onbegin")
A(Onblur, "onblur")
A(Oncancel, "oncancel")
A(Oncanplay, "oncanplay")
A(Oncanplaythrough, "oncanplaythrough")
A(Onchange, "onchange")
A(Onclick, "onclick")
A(Onclose, "onclose")
A(Oncontextmenu, "oncontextmenu")
A(Oncopy, "oncopy")
A(Oncuechange, "oncuechange")
A(Oncut, "oncut")
A(Ondblclick, "ondblclick")
A(Ondrag, "ondrag")
A(Ondragend, "ondragend")
A(Ondragenter, "ondragenter")
A(Ondragexit, "ondragexit")
A(Ondragleave, "ondragleave")
A(Ondragover, "ondragover")
A(Ondragstart, "ondragstart")
A(Ondrop, "ondrop")
A(Ondurationchange, "ondurationchange")
A(Onemptied, "onemptied")
A(Onend, "onend")
A(Onended, "onended")
A(Onerror, "onerror")
A(Onfocus, "onfocus")
A(Onformdata, "onformdata")
A(Onhashchange, "onhashchange")
A(Oninput, "oninput")
A(Oninvalid, "oninvalid")
A(Onkeydown, "onkeydown")
A(Onkeypress, "onkeypress")
A(Onkeyup, "onkeyup")
A(Onlanguagechange, "onlanguagechange")
A(Onload, "onload")
A(Onloadeddata, "onloadeddata")
A(Onloadedmetadata, "onloadedmetadata")
A(Onloadstart, "onloadstart")
A(Onmessage, "onmessage")
A(Onmessageerror, "onmessageerror")
A(Onmousedown, "onmousedown")
A(Onmouseenter, "onmouseenter")
A(Onmouseleave, "onmouseleave")
A(Onmousemove, "onmousemove")
A(Onmouseout, "onmouseout")
A(Onmouseover, "onmouseover")
A(Onmouseup, "onmouseup")
A(Onoffline, "onoffline")
A(Ononline, "ononline")
A(Onpagehide, "onpagehide")
A(Onpageshow, "onpageshow")
A(Onpaste, "onpaste")
A(Onpause, "onpause")
A(Onplay, "onplay")
A(Onplaying, "onplaying")
A(Onpopstate, "onpopstate")
A(Onprogress, "onprogress")
A(Onratechange, "onratechange")
A(Onrejectionhandled, "onrejectionhandled")
A(Onrepeat, "onrepeat")
A(Onreset, "onreset")
A(Onresize, "onresize")
A(Onscroll, "onscroll")
A(Onsecuritypolicyviolation, "onsecuritypolicyviolation")
A(Onseeked, "onseeked")
A(Onseeking, "onseeking")
A(Onselect, "onselect")
A(Onshow, "onshow")
A(Onslotchange, "onslotchange")
A(Onstalled, "onstalled")
A(Onstorage, "onstorage")
A(Onsubmit, "onsubmit")
A(Onsuspend, "onsuspend")
A(Ontimeupdate, "ontimeupdate")
A(Ontoggle, "ontoggle")
A(Onunhandledrejection, "onunhandledrejection")
A(Onunload, "onunload")
A(Onvolumechange, "onvolumechange")
A(Onwaiting, "onwaiting")
A(Onwheel, "onwheel")
A(Opacity, "opacity")
A(Open, "open")
A(Operator, "operator")
A(Optimum, "optimum")
A(Order, "order")
A(Orient, "orient")
A(Origin, "origin")
A(Other, "other")
A(Overflow, "overflow")
A(Paint_order, "paint-order")
A(Path, "path")
A(PathLength, "pathLength")
A(Pathlength, "pathlength")
A(Pattern, "pattern")
A(PatternContentUnits, "patternContentUnits")
A(PatternTransform, "patternTransform")
A(PatternUnits, "patternUnits")
A(Patterncontentunits, "patterncontentunits")
A(Patterntransform, "patterntransform")
A(Patternunits, "patternunits")
A(Ping, "ping")
A(Placeholder, "placeholder")
A(Playbackorder, "playbackorder")
A(Playsinline, "playsinline")
A(Pointer_events, "pointer-events")
A(Points, "points")
A(PointsAtX, "pointsAtX")
A(PointsAtY, "pointsAtY")
A(PointsAtZ, "pointsAtZ")
A(Pointsatx, "pointsatx")
A(Pointsaty, "pointsaty")
A(Pointsatz, "pointsatz")
A(Position, "position")
A(Poster, "poster")
A(Preload, "preload")
A(PreserveAlpha, "preserveAlpha")
A(PreserveAspectRatio, "preserveAspectRatio")
A(Preservealpha, "preservealpha")
A(Preserveaspectratio, "preserveaspectratio")
A(PrimitiveUnits, "primitiveUnits")
A(Primitiveunits, "primitiveunits")
A(R, "r")
A(Radius, "radius")
A(Readonly, "readonly")
A(RefX, "refX")
A(RefY, "refY")
A(Referrerpolicy, "referrerpolicy")
A(Refx, "refx")
A(Refy, "refy")
A(Rel, "rel")
A(RepeatCount, "repeatCount")
A(RepeatDur, "repeatDur")
A(Repeatcount, "repeatcount")
A(Repeatdur, "repeatdur")
A(Required, "required")
A(RequiredExtensions, "requiredExtensions")
A(RequiredFeatures, "requiredFeatures")
A(Requiredextensions, "requiredextensions")
A(Requiredfeatures, "requiredfeatures")
A(Restart, "restart")
A(Result, "result")
A(Reversed, "reversed")
A(Rightoverhang, "rightoverhang")
A(Role, "role")
A(Rotate, "rotate")
A(Rowalign, "rowalign")
A(Rowlines, "rowlines")
A(Rows, "rows")
A(Rowspacing, "rowspacing")
A(Rowspan, "rowspan")
A(Rquote, "rquote")
A(Rspace, "rspace")
A(Sandbox, "sandbox")
A(Scale, "scale")
A(SchemaLocation, "schemaLocation")
A(Schemalocation, "schemalocation")
A(Scope, "scope")
A(Scriptlevel, "scriptlevel")
A(Scriptminsize, "scriptminsize")
A(Scriptsize, "scriptsize")
A(Scriptsizemultiplier, "scriptsizemultiplier")
A(Seed, "seed")
A(Selected, "selected")
A(Selection, "selection")
A(Separator, "separator")
A(Separators, "separators")
A(Shape, "shape")
A(Shape_rendering, "shape-rendering")
A(Shift, "shift")
A(Show, "show")
A(Side, "side")
A(Size, "size")
A(Sizes, "sizes")
A(Slope, "slope")
A(Slot, "slot")
A(Space, "space")
A(Spacing, "spacing")
A(Span, "span")
A(SpecularConstant, "specularConstant")
A(SpecularExponent, "specularExponent")
A(Specularconstant, "specularconstant")
A(Specularexponent, "specularexponent")
A(Spellcheck, "spellcheck")
A(SpreadMethod, "spreadMethod")
A(Spreadmethod, "spreadmethod")
A(Src, "src")
A(Srcdoc, "srcdoc")
A(Srclang, "srclang")
A(Srcset, "srcset")
A(Stackalign, "stackalign")
A(Start, "start")
A(StartOffset, "startOffset")
A(Startoffset, "startoffset")
A(StdDeviation, "stdDeviation")
A(Stddeviation, "stddeviation")
A(Step, "step")
A(StitchTiles, "stitchTiles")
A(Stitchtiles, "stitchtiles")
A(Stop_color, "stop-color")
A(Stop_opacity, "stop-opacity")
A(Stretchy, "stretchy")
A(Stroke, "stroke")
A(Stroke_dasharray, "stroke-dasharray")
A(Stroke_dashoffset, "stroke-dashoffset")
A(Stroke_linecap, "stroke-linecap")
A(Stroke_linejoin, "stroke-linejoin")
A(Stroke_miterlimit, "stroke-miterlimit")
A(Stroke_opacity, "stroke-opacity")
A(Stroke_width, "stroke-width")
A(Style, "style")
A(Subscriptshift, "subscriptshift")
A(Superscriptshift, "superscriptshift")
A(SurfaceScale, "surfaceScale")
A(Surfacescale, "surfacescale")
A(Symmetric, "symmetric")
A(SystemLanguage, "systemLanguage")
A(Systemlanguage, "systemlanguage")
A(Tabindex, "tabindex")
A(TableValues, "tableValues")
A(Tablevalues, "tablevalues")
A(Target, "target")
A(TargetX, "targetX")
A(TargetY, "targetY")
A(Targetx, "targetx")
A(Targety, "targety")
A(Text_anchor, "text-anchor")
A(Text_decoration, "text-decoration")
A(Text_rendering, "text-rendering")
A(TextLength, "textLength")
A(Textlength, "textlength")
A(Thickmathspace, "thickmathspace")
A(Thinmathspace, "thinmathspace")
A(Timelinebegin, "timelinebegin")
A(Title, "title")
A(To, "to")
A(Transform, "transform")
A(Transform_origin, "transform-origin")
A(Translate, "translate")
A(Type, "type")
A(Unicode_bidi, "unicode-bidi")
A(Usemap, "usemap")
A(Valign, "valign")
A(Value, "value")
A(Values, "values")
A(Vector_effect, "vector-effect")
A(Verythickmathspace, "verythickmathspace")
A(Verythinmathspace, "verythinmathspace")
A(Veryverythickmathspace, "veryverythickmathspace")
A(Veryverythinmathspace, "veryverythinmathspace")
A(ViewBox, "viewBox")
A(ViewTarget, "viewTarget")
A(Viewbox, "viewbox")
A(Viewtarget, "viewtarget")
A(Visibility, "visibility")
A(Voffset, "voffset")
A(Width, "width")
A(Word_spacing, "word-spacing")
A(Wrap, "wrap")
A(Writing_mode, "writing-mode")
A(X, "x")
A(X1, "x1")
A(X2, "x2")
A(XChannelSelector, "xChannelSelector")
A(Xchannelselector, "xchannelselector")
A(Xlink, "xlink")
A(Xlink_actuate, "xlink:actuate")
A(Xlink_arcrole, "xlink:arcrole")
A(Xlink_href, "xlink:href")
A(Xlink_role, "xlink:role")
A(Xlink_show, "xlink:show")
A(Xlink_title, "xlink:title")
A(Xlink_type, "xlink:type")
A(Xml, "xml")
A(Xml_lang, "xml:lang")
A(Xml_space, "xml:space")
A(Xmlns, "xmlns")
A(Xmlns_xlink, "xmlns:xlink")
A(Xref, "xref")
A(Xsi_schemaLocation, "xsi:schemaLocation")
A(Xsi_schemalocation, "xsi:schemalocation")
A(Y, "y")
A(Y1, "y1")
A(Y2, "y2")
A(YChannelSelector, "yChannelSelector")
A(Ychannelselector, "ychannelselector")
A(Z, "z")
A(ZoomAndPan, "zoomAndPan")
A(Zoomandpan, "zoomandpan")
