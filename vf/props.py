"""The property list: the single source of properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, state=list(state)))


prop("T01", "The tree container is an ordered forest under any history of edits",
     "After any sequence of inserting, copying, moving and erasing nodes and subtrees, copying, moving, swapping, assigning and clearing whole trees, the container holds exactly the ordered forest those edits describe: same values, parents, sibling order forwards and backwards, and sizes, for any number of roots. "
     "Every operation returns the position it documents, positions of nodes that were not erased or moved keep denoting them, storage of erased nodes is reused, and moving a node below itself is refused with an exception that leaves the tree unchanged.",
     ["histories"], "every finite history of container operations, including reuse of erased slots, arbitrary depth and several roots",
     "The tests run a few hand-written edits on small trees with one root; link and free-list corruption only shows after particular sequences of edits.",
     ["include/wordring/tree/tree.hpp"],
     [("sibling/parent/child links and the ordered free list of slots", "tree.hpp: link(), unlink(), allocate(), free()"), ("cycle refusal", "tree.hpp: move()")],
     ["iterators handed out by insert, move, erase", "begin(), end(), parent(), ++, --, rbegin()", "size(), empty(), front()"],
     "ASan+UBSan run of random edit histories, compared after every step with an ordered-forest model",
     "Random histories (up to 160 edits, about 120 nodes) against a pointer-based model, structure, order, sizes and every held position re-checked after each edit; also that elements constructed and destroyed balance. Copying a subtree into itself and using a moved-from tree without clearing it are outside the contract.",
     [{"name": "node array", "meaning": "slots with parent/prev/next/child indexes; slot 0 heads the free list and the roots", "where": "tree.hpp: m_c"}])

prop("T02", "Pre-order and level-order traversal visit every node once, in order",
     "Starting from any node of any tree, the pre-order adapter visits exactly the nodes of that subtree in document order and the level-order adapter visits exactly the same nodes by increasing depth and document order within a depth. "
     "Each node is visited once, the position reported is the node's own position, and a copied traversal is independent of the original, and two traversals compare equal exactly when both have ended or both stand at the same node.",
     ["inputs", "histories"], "every tree shape and every start node",
     "The tests traverse a couple of fixed trees of one shape.",
     ["include/wordring/tree/tree_iterator.hpp"],
     [("pending-node stack / queue", "tree_iterator.hpp: tree_iterator_stack, tree_iterator_queue"), ("advance", "basic_tree_iterator::operator++")],
     ["tree_iterator and level_order_tree_iterator: *, ->, base(), ++, comparison with the end"],
     "ASan+UBSan traversal of randomly built trees from every node, compared with a recursive model",
     "After every edit of a random history both adapters are run from every root over both mutable and constant positions and compared node by node with a model traversal.")

prop("V01", "The fixed-capacity vector behaves as a sequence within its capacity",
     "Within its capacity the fixed-capacity vector behaves exactly as a sequence container: after any history of construction, insertion, erasure, resizing, assignment, swapping and copying, its elements, size, positions, comparisons and iteration in both directions are those of the sequence described. "
     "Returned positions are those of the first affected element, inserting a copy of one of its own elements works, an empty range may be erased anywhere, and checked access at or beyond the size throws.",
     ["histories", "configurations"], "every history that stays within the capacity, for any capacity and element type",
     "The tests call each member once on a vector of a few integers; shifting errors depend on position, fill level and aliasing.",
     ["include/wordring/static_vector/static_vector.hpp"],
     [("element shifting", "static_vector.hpp: insert(), erase(), resize()"), ("random-access iterator", "detail::static_vector_iterator")],
     ["element access, iterators, comparison operators, exceptions of checked access"],
     "ASan+UBSan run of random histories compared with std::vector after every step",
     "Six element-type/capacity combinations, histories of up to 40 operations biased to the full and empty ends; every observer is compared after each operation.",
     [{"name": "elements and size", "meaning": "backing array and number of live elements", "where": "static_vector.hpp: m_container, m_size"}])


TRIE = ["include/wordring/trie/trie.hpp", "include/wordring/trie/trie_base.hpp", "include/wordring/trie/stable_trie_base.hpp", "include/wordring/trie/trie_heap.hpp", "include/wordring/trie/trie_iterator.hpp"]
TRIESTATE = [{"name": "double array", "meaning": "BASE/CHECK pairs; slot 0 counts keys and heads the free list, negative BASE holds a leaf value", "where": "trie_heap.hpp: m_c"}]
prop("R01", "A trie is a dictionary from label strings to values under any history",
     "After any history of inserting, erasing, assigning values, bulk assignment, clearing, copying and swapping, a trie or stable trie over any integer label type holds exactly the keys that were stored and not removed, each with the value last given to it, and its size is their number. "
     "Exact, prefix and partial searches answer according to that set, inserting a stored key keeps its value, the empty string is never stored, value access for an absent key throws, and bulk assignment replaces the previous contents whatever the order or repetition of the list.",
     ["histories", "inputs"], "every history over every key set and label type, including keys that are prefixes of one another, dense alphabets and extreme label values",
     "The tests use a handful of short keys; double-array collisions, relocation and slot reuse depend on the whole history.",
     TRIE + ["include/wordring/trie/list_trie_iterator.hpp", "include/wordring/trie/trie_construct_iterator.hpp"],
     [("double-array allocation, relocation and free list", "trie_heap.hpp: add(), relocate(), locate(), allocate(), free()"), ("key end and value placement", "trie_base.hpp, stable_trie_base.hpp: insert(), erase(), at()"), ("sorted bulk construction", "trie_base.hpp: assign()")],
     ["size(), contains(), find(), search(), lookup(), at(), operator[]"],
     "ASan+UBSan run of random histories compared with std::map after every step",
     "Ten label types and both trie kinds; after each operation all stored keys and values plus random probes are compared with an ordered map. Histories of up to 200 operations and a few hundred keys.", TRIESTATE)

prop("R02", "Walking a trie shows exactly the prefix tree of the stored keys",
     "At any time, navigating a trie from its root enumerates exactly the prefixes of the stored keys: the children of each node are the possible next labels, each once, in increasing unsigned order; selecting a child by label finds it exactly if it exists; parent leads back; the spelled string of a node is its prefix; and a node reports a key end exactly if its prefix is a key. "
     "Enumerating below a prefix search with the traversal adapter yields exactly the stored keys having that prefix.",
     ["histories", "inputs"], "every key set, every node and every label, for every label width",
     "The tests walk one or two small tries; wrong transitions only show for labels that fall outside the array or on a foreign slot.",
     TRIE + ["include/wordring/trie/trie_heap_iterator.hpp", "include/wordring/trie/trie_base_iterator.hpp", "include/wordring/trie/stable_trie_base_iterator.hpp"],
     [("byte-wise transitions joined into wide labels", "trie_iterator.hpp: operator[], operator++, begin(), parent(), operator*"), ("sibling scan", "trie_heap_iterator.hpp: find(), advance()")],
     ["iterator *, [], ++, begin(), end(), parent(), string(), bool"],
     "ASan+UBSan navigation of every node of randomly built tries compared with the prefix tree of a model",
     "Whole-structure comparison at a third of all history steps and at the end of each history, with absent labels probed at every node.", TRIESTATE)

prop("R03", "A trie survives being written and read back, and stays usable",
     "A trie restored from its serialized integers, from its byte form, or through a stream holds exactly the same keys and values as the original, in whatever integer width the data is presented, replaces whatever the target held, reads no further than its own data, and accepts later insertions and erasures like the original. Copies and swapped containers do likewise.",
     ["histories", "inputs"], "every history of the original container, followed by any of the persistence routes and further edits",
     "The tests round-trip one small trie and compare sizes or raw arrays.",
     TRIE + ["include/wordring/serialize/serialize_iterator.hpp", "include/wordring/serialize/serialize.hpp"],
     [("node array serialization", "trie_heap.hpp: ibegin(), iend(), assign(), operator<<, operator>>")],
     ["ibegin()/iend(), serialize_iterator, assign(), constructors, stream operators"],
     "ASan+UBSan round trips of randomly built tries compared with the model, followed by further edits",
     "32-, 16- and 8-bit integer routes, byte iterators, streams with two containers, copies and swaps; free list exercised by later edits.", TRIESTATE)

prop("A01", "Atom ids and strings correspond one to one and ids stay valid",
     "In an atom set every stored string has one non-zero id, distinct strings have distinct ids, the id leads back to exactly that string and the string to that id. "
     "Inserting a stored string again, inserting strings that do not extend it, erasing other strings, copying and persisting the set never change the id of a stored string; absent strings have id 0 and unknown ids yield the empty atom.",
     ["histories"], "every history of insertions, erasures, assignment and persistence",
     "The tests look up five fixed strings.",
     ["include/wordring/string/atom.hpp", "include/wordring/trie/stable_trie_base.hpp"],
     [("value slot index as id", "atom.hpp: basic_atom::operator uint32_t, basic_atom_set::at(id)")],
     ["insert(), operator[], at(string), at(id), erase(), contains(), conversion of atoms"],
     "ASan+UBSan run of random histories compared with a bidirectional map after every step",
     "Narrow and wide strings; ids recorded at insertion are compared after every later operation. Ids of strings that a newly inserted string extends can change: that is a known finding, pinned to one history.", TRIESTATE)

prop("G01", "The document tree is an ordered forest under any history of edits",
     "After any history of inserting, moving and erasing nodes and of copying, moving, swapping and clearing documents, the document tree holds exactly the ordered forest described, with each node's own content. "
     "Child iteration in both directions, parents, the serial view with matching start and end tags, and the character views over all text (narrow and wide, both directions) agree with that forest; positions of untouched nodes stay valid, and moving a node to where it already is changes nothing.",
     ["histories"], "every finite history of edits over all node kinds, including empty text and reused slots",
     "The tests edit a document of a few nodes; broken links appear only for particular neighbour relations or after slot reuse.",
     ["include/wordring/tag_tree/tag_tree.hpp", "include/wordring/tag_tree/tag_tree_iterator.hpp", "include/wordring/tag_tree/serial_iterator.hpp", "include/wordring/tag_tree/character_iterator.hpp", "include/wordring/tag_tree/cast_iterator.hpp"],
     [("serial prev/next links with paired start and end slots", "tag_tree.hpp: link(), unlink(), move(), erase()"), ("free list", "tag_tree.hpp: allocate(), free()")],
     ["iterators, serial iterators, character and wide character iterators, size(), empty()"],
     "ASan+UBSan run of random edit histories compared with an ordered-forest model after every step",
     "Histories of up to 120 edits over six node kinds; all four views are compared with the model after each edit. Moving a node below itself and using a moved-from tree are outside the contract.",
     [{"name": "tag slots", "meaning": "start and end slots linked serially; head/tail pair them", "where": "tag_tree.hpp: m_c"}])

prop("S01", "Integers serialize to big-endian bytes and read back unchanged",
     "For every integer type and value sequence, serialization yields the big-endian bytes of each value in order, through the functions and through the byte iterator alike, and deserialization through the functions, the integer iterator and consecutive reads from one stream gives back exactly the values and consumes exactly their bytes.",
     ["inputs"], "every integer width, signedness and value sequence, over random-access, list and stream iterators",
     "The tests serialize two or three constants.",
     ["include/wordring/serialize/serialize.hpp", "include/wordring/serialize/serialize_iterator.hpp"],
     [("byte extraction", "serialize(), serialize_iterator::operator*"), ("byte joining", "deserialize(), deserialize_iterator::operator*")],
     ["returned arrays, bytes, integers, iterator positions"],
     "UBSan run over random and boundary values compared with an independent byte split",
     "All eight standard integer types, boundary patterns and random values.")

prop("S02", "The push matcher reports the first full match, partial match or failure",
     "Fed one character at a time, the string matcher reports success exactly when the characters since the last reset equal one of its words, failure exactly when no word can still match, and a partial match otherwise; after a reset it behaves as new, and it records exactly the characters fed.",
     ["inputs", "histories"], "every word list and every input, including words that are prefixes of one another and repeated resets",
     "The tests push one word through one matcher.",
     ["include/wordring/string/matcher.hpp"],
     [("per-word failure flags", "matcher.hpp: push_back(), clear()")],
     ["push_back() verdicts, data(), size()"],
     "ASan+UBSan run over random word lists and inputs compared with a prefix-set model",
     "One to four words over a two-letter alphabet plus a foreign letter, four inputs per matcher.")

prop("E01", "Every decoder produces the standard's text for every byte sequence",
     "For each of the forty encodings and every byte sequence, well-formed or not, decoding gives exactly the code points the Encoding Standard prescribes: in replacement mode one U+FFFD per malformed sequence with the standard's resynchronisation (an ASCII byte after a bad lead byte survives), and in fatal mode the text before the first error and then an error. Decoding always ends and reads no memory outside its tables and queues.",
     ["inputs"], "every byte sequence in every encoding, both error modes, including truncated and interleaved malformed sequences",
     "The tests decode one short string per encoding; the tables hold 90,000 entries and the error paths depend on byte combinations.",
     ["include/wordring/whatwg/encoding/coder.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "lib/whatwg/encoding/indexes_code_point.cpp"],
     [("decoder state machines", "coder.hpp: *_decoder::run()"), ("index lookups", "coder.hpp: get_index_code_point(), get_index_gb18030_ranges_code_point()"), ("error handling", "encoding.hpp: process_queue(), process_item()")],
     ["decoded code points, result kind"],
     "ASan+UBSan run recording decoder output, checked offline against a reference written from the standard with independently obtained index tables",
     "Every single byte of all encodings, every byte pair of the multi-byte encodings, all JIS X 0208 and 0212 rows, gb18030 four-byte ranges, and random hostile sequences of up to about 40 bytes.")

prop("E02", "Every encoder produces the standard's bytes for every text",
     "For each encoding that has an encoder and every sequence of scalar values, encoding gives exactly the bytes the Encoding Standard prescribes: the standard's choice among doubly mapped code points, numeric character references for unmappable ones in HTML mode, an error naming the code point in fatal mode, and for ISO-2022-JP the escape sequences that return to ASCII. Encoding always ends, and what an encoder can represent decodes back to itself wherever the standard's tables allow.",
     ["inputs"], "every scalar value in every encoding and every sequence of them, both error modes",
     "The tests encode a few characters; a wrong table entry or state transition shows only for particular characters or orders.",
     ["include/wordring/whatwg/encoding/coder.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "lib/whatwg/encoding/indexes_pointer.cpp"],
     [("encoder state machines", "coder.hpp: *_encoder::run()"), ("reverse index lookups", "coder.hpp: get_index_pointer(), get_index_gb18030_ranges_pointer()"), ("unmappable code points", "encoding.hpp: process_item(), encode(), encode_or_fail()")],
     ["encoded bytes, result kind and code point of the error"],
     "ASan+UBSan run recording encoder output, checked offline against a reference written from the standard with independently obtained index tables",
     "All BMP scalar values in all encodings, sampled supplementary planes (all of them in the thorough run), and random sequences mixing repertoires.")

prop("E03", "Labels, byte order marks and chunking never change what a stream decodes to",
     "Every label resolves, ignoring ASCII case and surrounding ASCII whitespace only, to the encoding the standard names, and any other string to none. A byte order mark overrides the given encoding in the decode hook and is removed exactly once there and in text decoders that do not ignore it. Feeding a text decoder its bytes in any pieces gives the same text, or the same fatal error, as feeding them at once, and after a flush the decoder starts afresh. The I/O queue delivers what was pushed and prepended in order, and its end mark last.",
     ["inputs", "histories"], "every label spelling, byte sequence and way of cutting it into chunks, over reused decoders; every history of queue operations",
     "The tests decode whole strings in one call with one label.",
     ["include/wordring/whatwg/encoding/api.hpp", "include/wordring/whatwg/encoding/encoding.hpp", "include/wordring/whatwg/encoding/terminology.hpp", "lib/whatwg/encoding/encoding.cpp"],
     [("label table", "lib/whatwg/encoding/encoding.cpp: encoding_label_map"), ("BOM sniffing", "encoding.hpp: bom_sniff(), decode(), utf8_decode()"), ("do-not-flush state", "api.hpp: text_decoder::decode()"), ("queue end handling", "terminology.hpp: io_queue")],
     ["encoding names, labels, decoded text, thrown errors, queue reads"],
     "ASan+UBSan run recording resolved labels and streamed text, checked offline against the reference on the unsplit input; queue histories against a deque model",
     "All 228 labels with case, whitespace and look-alike variations; streams of up to three flushed groups cut at random points.")

prop("U01", "Parsing a URL gives the standard's components and serialization",
     "For every input string, with or without a base URL, parsing either fails or gives a URL exactly as the URL Standard (in the edition of 2020 that the library implements) prescribes: same accept/refuse decision, scheme, credentials, host, port, path, query, fragment and serialization. That covers stripped spaces, tabs and newlines, backslashes in special schemes, dot segments, Windows drive letters, default ports, percent-encoding per component, international domain names, and resolution against any base. The result does not depend on the string type the URL was given in; serializing and parsing again gives the same URL.",
     ["inputs"], "every pair of input string and base URL, in UTF-8, UTF-16 and UTF-32 strings",
     "The tests parse a few dozen well-formed URLs; the parser has 21 states whose transitions meet only in unusual strings.",
     ["lib/whatwg/url/url.cpp", "include/wordring/whatwg/url/url.hpp", "include/wordring/whatwg/url/api.hpp", "include/wordring/whatwg/url/infra.hpp", "lib/whatwg/url/host.cpp"],
     [("state machine", "url.cpp: basic_url_parser::on_*_state()"), ("percent-encode sets", "url/infra.hpp"), ("serializer", "url.cpp: serialize_url()"), ("host parser", "host.cpp: parse_host(), domain_to_ascii(), parse_opaque_host()")],
     ["basic_url: href(), protocol(), username(), password(), host(), hostname(), port(), pathname(), search(), hash(), to_string(); thrown error codes"],
     "ASan+UBSan run recording the components of parsed URLs, checked offline against a reference parser written from the standard",
     "Random strings from a URL grammar plus mutations, with and without base. Where editions of the standard from 2020 to today differ, the reference gives no verdict and only the sanitizers judge.")

prop("U02", "Assigning a URL component changes what the standard says and nothing else",
     "Assigning any string to any component of a parsed URL, in any order and any number of times, gives the URL the standard's setters give: an assignment that is not allowed (credentials or port without a host or on a file URL, changing between special and other schemes, host of an opaque URL, invalid host or port) leaves the URL as it was, and the others change that component, normalised, and no other. The URL stays serializable at every point and a copy is never affected.",
     ["histories", "inputs"], "every sequence of assignments to every component of every URL",
     "The tests assign each component once on one ordinary URL.",
     ["include/wordring/whatwg/url/api.hpp", "lib/whatwg/url/url.cpp", "include/wordring/whatwg/url/host.hpp"],
     [("setters", "api.hpp: basic_url::*"), ("state override", "url.cpp: basic_url_parser, m_override"), ("admissibility", "url.cpp: cannot_have_username_or_password_or_port()")],
     ["every component after every assignment"],
     "ASan+UBSan run recording all components after each assignment, checked offline against the reference's setters",
     "Sequences of one to eight assignments on URLs of every kind; all components are compared after each.")

prop("U03", "IP address hosts are recognised, bounded and canonically written",
     "A host that is an IPv4 or IPv6 address in any notation the standard admits (decimal, octal, hexadecimal and shortened IPv4; compressed and IPv4-suffixed IPv6) is parsed to that address and serialized in the canonical form: dotted decimal, or lower-case IPv6 with the first longest run of two or more zero pieces compressed. Numbers that do not fit and malformed literals are refused, never wrapped or truncated.",
     ["inputs"], "every address text, valid or not, of any length",
     "The tests parse about twenty literals.",
     ["lib/whatwg/url/host.cpp", "include/wordring/whatwg/url/host.hpp"],
     [("IPv4", "host.cpp: parse_ipv4(), parse_ipv4_number(), serialize_ipv4()"), ("IPv6", "host.cpp: parse_ipv6(), serialize_ipv6()")],
     ["host() and href() of URLs with address hosts"],
     "ASan+UBSan run recording parsed address hosts, checked offline against the reference",
     "Random literals in every notation, valid and corrupted, as hosts of special and other schemes and as assigned hosts.")

prop("C01", "CSS tokenization follows the CSS Syntax standard for every text",
     "Every text is cut into exactly the tokens CSS Syntax Level 3 prescribes, whatever it contains: newlines normalised and NUL and surrogates replaced first, comments dropped even when unterminated, escapes resolved, numbers of any length and exponent given their value and type, strings and URLs closed or marked bad as prescribed, and look-alikes (signs, points, dashes, `<!--`, `-->`, `url(`) told apart by the code points that follow. Tokenizing always advances, ends at the end of the input and reads nothing beyond it.",
     ["inputs"], "every sequence of code points",
     "The tests feed one token at a time, with text following it; the boundary between tokens and the end of input decide.",
     ["include/wordring/wwwc/css_syntax/tokenization.hpp", "include/wordring/wwwc/css_syntax/input_stream.hpp"],
     [("token scanner", "tokenization.hpp: consume_token() and the consume_* functions"), ("look-ahead tests", "tokenization.hpp: starts_with_*()"), ("number value", "tokenization.hpp: convert_string_to_number()"), ("preprocessing", "input_stream.hpp: filter_code_points()")],
     ["token kinds and values, consumed length"],
     "ASan+UBSan run recording token streams, checked offline against a reference tokenizer written from the standard; progress and bounds monitored per token",
     "All pairs of some 150 boundary fragments (a sample in the quick run), random fragment strings, numbers, style sheets and raw code points. Each text is tokenized from a string and from an exactly sized heap buffer.")

prop("C02", "CSS parsing recovers from any input exactly as the standard prescribes",
     "Each parser entry point (style sheet, list of rules, rule, declaration, list of declarations, component value, lists of component values) turns any input into the rules, declarations and values CSS Syntax Level 3 prescribes, or the error it prescribes: brackets match only their own kind, invalid declarations are dropped up to the next semicolon, `!important` is recognised and removed, unclosed constructs end with the input. Parsing a string, its tokens or its component values gives the same result; byte input is decoded by byte order mark, then `@charset`, then as UTF-8. Results can be copied and assigned freely.",
     ["inputs"], "every token sequence at every entry point, and every byte sequence as a style sheet",
     "The tests parse one or two well-formed rules per entry point; error recovery is what the standard is about.",
     ["include/wordring/wwwc/css_syntax/parsing.hpp", "include/wordring/wwwc/css_syntax/token.hpp", "lib/wwwc/css_syntax/token.cpp", "include/wordring/wwwc/css_syntax/input_stream.hpp"],
     [("recursive descent", "parsing.hpp: consume_*()"), ("entry points", "parsing.hpp: parse_*()"), ("value conversions", "token.cpp: component_value, syntax_primitive"), ("encoding", "input_stream.hpp: determine_fallback_encoding()")],
     ["syntax trees returned by the entry points"],
     "ASan+UBSan run recording syntax trees, checked offline against a reference parser written from the standard",
     "Random style sheets, rules, declarations and values with unbalanced brackets, stray tokens and truncation, at every entry point.")
prop("Q01", "A selector finds exactly the elements it matches, in document order",
     "For any document and any selector text, query_selector_all returns exactly the elements among the descendants of the given node that the selector matches, in document order, and query_selector returns the first of them or a null pointer. Type, universal, ID, class, attribute and :root selectors, namespace prefixes (declared, default, absent and wildcard), all combinators and selector lists follow Selectors Level 4, with the ASCII case rules of HTML documents and the ID and class rules of quirks mode. A selector that is not valid in whole, and a pseudo-class or pseudo-element the library does not implement, match nothing; escapes in names and values are honoured. ([attr|=value] requires the hyphen, as the repository's tests do.)",
     ["inputs"], "every document tree, start node, namespace map and selector text",
     "The tests match single selectors on one or two elements; combinations of combinators, namespaces and document modes are not sampled.",
     ["include/wordring/wwwc/selectors/grammar.hpp", "lib/wwwc/selectors/grammar.cpp", "include/wordring/wwwc/selectors/api.hpp"],
     [("grammar matching", "grammar.hpp: parse_grammar(), the selector classes"), ("combinators", "grammar.hpp: complex_selector"), ("pseudo-classes", "tree_structural_pseudo_classes.hpp"), ("query", "api.hpp: query_selector(), query_selector_all()")],
     ["lists of nodes returned by queries"],
     "ASan+UBSan run recording query results, checked offline against a reference selector parser and matcher written from the standard",
     "Random trees with several namespaces, node kinds and document modes, with random valid and near-valid selectors and escapes.")

prop("Q02", "Text is read as a selector production exactly when it is one, keeping its parts",
     "Read as any production of the selector grammar, from a combinator or qualified name up to a complex selector list or relative selector list, text succeeds exactly when the whole of it, apart from surrounding white space, is of that production; otherwise the answer is no match, whatever the text. On success the parts are exactly those written, in order: namespace prefix (declared, empty or any) and local name, attribute matcher, value and modifier, ID, class, pseudo-class and pseudo-element names with functional arguments, compounds and combinators. The same holds for text parsed as a string, given as component values, or as one item of a comma-separated list, where a faulty item does not affect its neighbours.",
     ["inputs"], "every text, for each production and each way of feeding it",
     "The tests read one well-formed example per production; near-misses, white space between parts and text that ends early are not sampled.",
     ["include/wordring/wwwc/selectors/grammar.hpp", "lib/wwwc/selectors/grammar.cpp", "include/wordring/wwwc/css_syntax/parsing.hpp"],
     [("productions", "grammar.cpp: the consume() functions"), ("grammar entry points", "css_syntax/parsing.hpp: parse_grammar(), parse_comma_list()")],
     ["success or failure", "accessors of the objects read"],
     "ASan+UBSan run recording what each production read, checked offline against a reference recogniser written from Selectors Level 4",
     "Random texts generated from the grammar and mutated, for every production; texts of up to a few dozen tokens.")

HTML = ["include/wordring/whatwg/html/parsing/tokenization.hpp", "include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp", "include/wordring/whatwg/html/parsing/input_stream.hpp", "include/wordring/whatwg/html/parsing/token.hpp", "include/wordring/whatwg/html/parsing/atom_tbl.hpp", "include/wordring/html/simple_parser.hpp"]
prop("H01", "Parsing HTML gives the standard's document tree for every input",
     "For every sequence of code points, however malformed, the HTML parser builds exactly the document the HTML Standard prescribes (edition of 2020, scripting disabled): the same nodes, names, namespaces, attributes, text, comments, document type and quirks mode. That covers character references, raw text, script data escapes and comments; implied and misnested tags, the adoption agency and the list of active formatting elements; tables with foster parenting, templates, select, framesets, and SVG and MathML content with their adjustments. Parsing always ends, and cutting the input into pieces does not change the document.",
     ["inputs"], "every sequence of code points and every way of feeding it piecewise",
     "The tests parse some well-formed snippets per insertion mode; the algorithm is 80 tokenizer states times 23 insertion modes and the outcome depends on the whole history of open elements.",
     HTML,
     [("tokenizer state machine", "tokenization.hpp: on_*_state()"), ("insertion modes", "tree_construction_dispatcher.hpp: on_*_insertion_mode()"), ("adoption agency, foster parenting, active formatting elements", "tree_construction_dispatcher.hpp"), ("newline normalisation and look-ahead", "input_stream.hpp"), ("character reference table, name tables", "atom_tbl.hpp, lib/whatwg/html")],
     ["the document tree after the end of the input"],
     "ASan+UBSan run recording the parsed trees, checked offline against a reference parser written from the HTML Standard",
     "Several hundred thousand generated inputs: mutated and recombined html5lib inputs, tag soup from weighted pools (tables, formatting, foreign, template, select, frameset), adoption-agency patterns, tokenizer-level soup, all fed whole or piecewise. CDATA sections are recognised in the reverse of the standard, pinned by repository tests; this is a known finding and modelled elsewhere.",
     [{"name": "parser state", "meaning": "stack of open elements, active formatting elements, insertion modes, pending table characters", "where": "tree_construction_dispatcher.hpp"}])

prop("H02", "Serializing a node writes exactly the markup the standard prescribes",
     "Serializing any element, document or document fragment writes, in document order, exactly the markup of the HTML fragment serialization algorithm for its descendants: tags with qualified names and attributes, `&`, no-break space, quotation marks and angle brackets escaped where and only where the standard says, raw text of script, style and the like left alone, comments, processing instructions and document types written, void elements without content or end tag. It holds for parsed documents and for trees built by hand with any mix of node kinds, and leaves the tree as it was.",
     ["inputs", "histories"], "every tree of nodes, parsed or built, and every start node",
     "The tests serialize a few parsed snippets; escaping depends on the parent element, the node kind and the position.",
     ["include/wordring/whatwg/html/parsing/serializing.hpp", "include/wordring/html/simple_node.hpp"],
     [("serial walk with start and end tags", "serializing.hpp: to_string()"), ("escaping", "serializing.hpp: escape_to(), escape_attribute_to()")],
     ["the written string", "the tree before and after"],
     "ASan+UBSan run recording serializations, checked offline against a reference serializer over the reference tree",
     "Parsed random inputs and hand-built random trees of all node kinds, from every kind of start node.")

prop("H04", "Documents from strings and bytes are read in the encoding they declare",
     "make_document gives the same document for the same text whether it is given as UTF-16, as UTF-32 or as UTF-8 bytes, and for bytes decodes them as the standard prescribes: a byte order mark wins, then an encoding given with confidence, then one declared by a meta element where the parser meets it (charset, or http-equiv with content), reading again from the start when that changes the text, and otherwise the default. UTF-16 declared in meta means UTF-8 and x-user-defined means windows-1252. Malformed bytes become U+FFFD; any byte sequence gives a document.",
     ["inputs"], "every byte sequence, declared or transmitted encoding, and text in UTF-16 or UTF-32",
     "The tests decode one document per path; the interplay of byte order mark, confidence and late declarations is not sampled.",
     ["include/wordring/html/simple_html.hpp", "include/wordring/html/simple_parser.hpp", "include/wordring/whatwg/html/parsing/input_stream.hpp", "include/wordring/whatwg/html/parsing/tree_construction_dispatcher.hpp"],
     [("encoding sniffing and confidence", "simple_parser.hpp, input_stream.hpp"), ("declared encoding", "tree_construction_dispatcher.hpp: meta in the in-head mode; extracting an encoding from content")],
     ["the document returned by make_document"],
     "ASan+UBSan run recording documents from encoded inputs, checked offline against the reference decoders and parser",
     "Random documents encoded in all encodings with and without byte order marks, right and wrong labels, meta declarations of every spelling, and raw random bytes.")

prop("U04", "Percent-encoding and document encodings follow the URL standard",
     "Each percent-encode set contains exactly the code points the standard lists, over all of Unicode; percent-encoding any string in any encoding yields the standard's bytes (unmappable characters as numeric references, stateful encodings left consistent) and percent-decoding any string or byte sequence recovers exactly the bytes encoded. Parsing with a document encoding encodes only the query, and only of special URLs that are not web sockets. Two URLs are equal exactly when their serializations are (with or without fragment), and the drive-letter, dot-segment, special-scheme, default-port and valid-IPv4-string tests answer as defined.",
     ["inputs"], "every code point, string, byte sequence, encoding and pair of URLs",
     "The tests encode a word or two per set in UTF-8 and Shift_JIS; stateful and unmappable cases and set boundaries are not sampled.",
     ["include/wordring/whatwg/url/infra.hpp", "include/wordring/whatwg/url/url.hpp", "include/wordring/whatwg/url/host.hpp", "include/wordring/whatwg/encoding/api.hpp"],
     [("percent-encode sets", "infra.hpp: is_*_percent_encode_set()"), ("percent-encode after encoding", "infra.hpp, encoding/api.hpp: encode_or_fail()"), ("query state", "url.hpp: basic URL parser"), ("equality", "url.hpp: equals()")],
     ["strings returned by the encoding and decoding functions", "href of URLs parsed with an encoding"],
     "ASan+UBSan run recording results, checked offline against a reference written from the URL and Encoding standards; sets exhaustive over all code points",
     "Sets exhaustive over 0-10FFFF; random strings in all 39 encodings. Dotted decimals with leading zeros get no verdict (editions differ). URL-string validity predicates that the library leaves unimplemented are not covered.")

prop("U05", "Domain names convert to ASCII and back, and hosts compare by what they denote",
     "A domain converts to ASCII as the URL standard says (letters mapped to lower case and composed, ideographic and full-width full stops taken as dots, non-ASCII labels written in Punycode, without transitional processing, so that sharp s and final sigma stay themselves), with hyphens and lengths checked only where asked for strictly; it converts back to the Unicode text it denotes, and a valid domain string is one that converts strictly. Two hosts parsed alike are equal exactly when they denote the same domain, address or opaque text, however written: letter case, percent-encoding, number base or zero compression do not matter. Equality is reflexive and symmetric, and a copy equals its original.",
     ["inputs"], "every domain of assigned letters, every pair of hosts",
     "The tests convert two or three domains; mapping, composition and the error flags of the IDNA library depend on every label.",
     ["lib/whatwg/url/host.cpp", "include/wordring/whatwg/url/host.hpp"],
     [("IDNA", "host.cpp: domain_to_ascii(), domain_to_unicode(), is_valid_domain_string()"), ("equality", "host.hpp: operator=="), ("copying", "host.hpp: host_base")],
     ["strings and verdicts returned", "serialized hosts"],
     "ASan+UBSan run recording results, checked offline against a reference written from the URL standard, UTS 46 and RFC 3492",
     "Random domains over ASCII, Latin, Greek, Cyrillic, kana and ideographs, mixed with Punycode and its mutations. Labels outside these scripts, malformed Punycode, and hyphens or a final dot in strict mode get no verdict (editions of UTS 46 differ).")

prop("I01", "Infra string operations and Unicode conversions are exact for every string",
     "The string operations of the Infra standard (ASCII case folding and matching, stripping and collapsing whitespace, newline removal and normalisation, collecting, strict splitting, splitting on whitespace and commas, isomorphic decoding) return exactly what the standard defines for any string, in UTF-8, UTF-16 or UTF-32, into any of these, reading nothing outside it. Each code point class contains exactly the code points defined, over all of Unicode, and conversion between the encoding forms preserves every scalar value.",
     ["inputs"], "every well-formed string in each encoding form and every code point",
     "The tests run each operation on one ASCII word; multi-unit code points and strings that are empty or all delimiters are not sampled.",
     ["include/wordring/whatwg/infra/infra.hpp", "include/wordring/whatwg/infra/unicode.hpp"],
     [("string operations", "infra.hpp"), ("encoding form iterators", "unicode.hpp: encoding_cast() and the conversion iterators")],
     ["strings and positions returned"],
     "ASan+UBSan run recording results, checked offline against a reference written from the Infra standard; code point classes and conversions exhaustive over Unicode",
     "Classes exhaustive; conversions of every scalar value in every pair of forms; random strings of up to 14 code points from boundary pools.")

prop("D01", "HTML names, attributes, elements and nodes compare by what they spell",
     "A namespace, tag or attribute name made from its enumerator and one made from its string are interchangeable: every enumerator spells exactly its string, every such string leads back to its enumerator, unknown strings keep their spelling, and names compare equal exactly when their strings do, in every encoding form. An attribute is found by namespace, prefix and local name whatever its value; elements are equal exactly when namespace, local name and the set of attributes with their values are, whatever the order; nodes report the kind and the data they were given, and copies change independently.",
     ["inputs", "histories"], "every name known and unknown, every element without repeated attributes, every node kind, in UTF-8, UTF-16 and UTF-32",
     "The tests compare one or two names; a thousand table entries and the mixed enumerator/string comparisons are not sampled.",
     ["include/wordring/whatwg/html/html_atom.hpp", "include/wordring/html/simple_node.hpp", "include/wordring/whatwg/html/parsing/atom_defs.hpp", "lib/whatwg/html/parsing/atom_tbl.cpp"],
     [("name tables", "atom_tbl.cpp"), ("comparison of enumerator and string", "html_atom.hpp: operator=="), ("attribute search", "simple_node.hpp: find(), contains()"), ("element signature", "simple_node.hpp: operator==")],
     ["names, strings, comparisons, search results and accessors"],
     "ASan+UBSan run over the whole name tables and random elements and nodes, compared with a plain-string model",
     "All 1,064 names in four string types; random pairs, elements of up to five attributes and all node kinds. Comparing two nodes of one kind other than elements is unimplemented in the library (it asserts) and not covered, nor is an element's prefix in comparisons.")

prop("X01", "Independent calls never disturb each other; shared objects can be read together",
     "The library keeps no hidden mutable state. Operations on distinct objects may run in any number of threads at once, in any order, and each has the outcome it has when it runs alone: parsing and serializing HTML, URLs, CSS and selectors, decoding and encoding, and every operation of the containers. The result of a call depends on its arguments and its object only, never on what was called before or is being called elsewhere. Several threads may also read one object at the same time through its const operations, iterators and free functions (traversing a tree, searching a trie or an atom set, matching a parsed selector, reading or serializing a URL or a document), and each observes what a single reader does. No two such calls touch the same memory without synchronisation.",
     ["schedules", "histories"], "every set of operations on distinct objects and of const operations on shared objects, every interleaving and every order of them",
     "The tests run in one thread, each test on objects of its own, so shared scratch state never shows.",
     ["include/wordring", "lib/whatwg", "lib/wwwc"],
     [("label lookup", "lib/whatwg/encoding/encoding.cpp: get_encoding_name()"), ("hosts", "lib/whatwg/url/host.cpp: domain_to_ascii(), serialize_ipv4(), serialize_ipv6()"), ("tree construction", "include/wordring/whatwg/html/parsing/"), ("readers", "trie_iterator.hpp, tree_iterator.hpp, selectors/api.hpp: match_selector()")],
     ["outcomes of calls", "absence of data races"],
     "ThreadSanitizer over the drivers of all the other properties run in four threads at once and over shared objects read by four threads, with every outcome compared with the outcome alone",
     "28 drivers; each case in four threads (in order, twice; backwards; shuffled) cold, then alone. Schedules are those the machine produced; the race detector also reports conflicting accesses that did not collide. ICU is not instrumented. Writing to an object that another thread uses is the caller's to synchronise and not covered.")
