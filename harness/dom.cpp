// D01: names <-> strings, attributes, elements and nodes against a plain model.
#include "common.hpp"

#include <wordring/html/simple_html.hpp>
#include <wordring/encoding/encoding.hpp>

#include <type_traits>

using namespace vf;
namespace html = wordring::html;
using html::ns_name; using html::tag_name; using html::attribute_name;

static std::pair<ns_name, char const*> const NS[] = {
#define N(i, s) { ns_name::i, s },
#define T(i, s)
#define A(i, s)
#include "names.inc"
#undef N
#undef T
#undef A
};
static std::pair<tag_name, char const*> const TAG[] = {
#define N(i, s)
#define T(i, s) { tag_name::i, s },
#define A(i, s)
#include "names.inc"
#undef N
#undef T
#undef A
};
static std::pair<attribute_name, char const*> const ATTR[] = {
#define N(i, s)
#define T(i, s)
#define A(i, s) { attribute_name::i, s },
#include "names.inc"
#undef N
#undef T
#undef A
};

template <typename S> static S to(std::string const& s) { S o; if constexpr (sizeof(typename S::value_type) == 1) for (char c : s) o.push_back(static_cast<typename S::value_type>(c)); else o = wordring::encoding_cast<S>(u32(s)); return o; }
template <typename S> static std::string from(S const& s) { std::string o; if constexpr (sizeof(typename S::value_type) == 1) for (auto c : s) o.push_back(static_cast<char>(c)); else o = u8(wordring::encoding_cast<std::u32string>(s)); return o; }

static char const* const OTHER[] = { "", "x", "data-x", "b-c", "Div", "DIV", "urn:x", "http://www.w3.org/1999/XHTML", "\xE3\x81\x82", "\xF0\x9F\x98\x80", "xml:lang", "iD", "p ", "xor2" };

template <typename E, std::size_t K>
static E name_of(std::pair<E, char const*> const (&t)[K], std::string const& s)
{
	for (auto& [i, x] : t) if (s == x) return i;
	return static_cast<E>(0);
}

// one name: how it is made and what it spells
template <typename S, typename E, std::size_t K>
struct named { std::string s; bool by_name; E e; S str; };
template <typename S, typename E, std::size_t K>
static named<S, E, K> any_name(rng& r, std::pair<E, char const*> const (&t)[K], bool small)
{
	named<S, E, K> n;
	if (r.chance(1, 4)) n.s = OTHER[r.below(std::size(OTHER))];
	else n.s = t[small ? r.below(4) : r.below(K)].second;
	n.e = name_of(t, n.s);
	n.by_name = (n.e != static_cast<E>(0) || n.s.empty()) && r.chance(1, 2);
	n.str = to<S>(n.s);
	return n;
}

template <typename S, typename E, std::size_t K>
static void atoms(rng& r, std::pair<E, char const*> const (&t)[K])
{
	using atom = html::basic_html_atom<S, E>;
	auto x = any_name<S>(r, t, false), y = r.chance(1, 3) ? x : any_name<S>(r, t, false);
	if (r.chance(1, 2)) y.by_name = y.by_name ? false : y.e != static_cast<E>(0);
	ev("atom " + x.s + " / " + y.s);
	atom a = x.by_name ? atom(x.e) : atom(x.str), b = y.by_name ? atom(y.e) : atom(y.str);
	auto spell = [](atom const& p) { return from<S>(static_cast<S>(p)); };
	VF_CHECK(spell(a) == x.s && spell(b) == y.s, "a name spells another string");
	VF_CHECK(static_cast<E>(a) == x.e && static_cast<E>(b) == y.e, "a string has another name");
	bool same = x.s == y.s;
	VF_CHECK((a == b) == same && (b == a) == same && (a != b) == !same && (b != a) == !same, "names compare otherwise than their strings");
	VF_CHECK((a == y.str) == same && (y.str == a) == same && (a != y.str) == !same && (y.str != a) == !same, "a name compares with a string otherwise than its string");
	if (y.e != static_cast<E>(0)) VF_CHECK((a == y.e) == same && (y.e == a) == same && (a != y.e) == !same && (y.e != a) == !same, "a name compares with an enumerator otherwise than its string");
	atom c = a; c = b;
	VF_CHECK(spell(c) == y.s && static_cast<E>(c) == y.e && spell(a) == x.s, "assigning a name");
	atom z; VF_CHECK(spell(z).empty() && static_cast<E>(z) == static_cast<E>(0), "an empty name");
}

struct mattr { std::string ns, prefix, name, value; bool key(mattr const& o) const { return ns == o.ns && prefix == o.prefix && name == o.name; } };

template <typename S> static html::simple_attr<S> make_attr(rng& r, mattr& m, bool fresh = true)
{
	using attr = html::simple_attr<S>;
	static char const* const PRE[] = { "", "", "xlink", "xml", "p" };
	if (fresh)
	{
		m = {};
		if (r.chance(1, 3)) { m.ns = r.chance(1, 5) ? "urn:x" : NS[r.below(std::size(NS))].second; m.prefix = PRE[r.below(5)]; }
		m.name = any_name<S>(r, ATTR, r.chance(2, 3)).s;
		for (auto n = r.below(4); n; --n) m.value += OTHER[r.below(std::size(OTHER))];
	}
	ns_name ns = name_of(NS, m.ns); attribute_name nm = name_of(ATTR, m.name);
	S p = to<S>(m.prefix), n = to<S>(m.name), v = to<S>(m.value);
	bool byname = (nm != static_cast<attribute_name>(0) || m.name.empty()) && r.chance(1, 2);
	if (m.ns.empty() && m.prefix.empty() && r.chance(1, 2)) return byname ? attr(nm, v) : attr(n, v);
	if ((ns != static_cast<ns_name>(0) || m.ns.empty()) && r.chance(2, 3)) return byname ? attr(ns, p, nm, v) : attr(ns, p, n, v);
	attr a;
	if (byname) a.local_name_name(nm); else a.local_name(n);
	a.prefix(p); a.value(v);
	if (ns != static_cast<ns_name>(0) && r.chance(1, 2)) a.namespace_uri_name(ns); else a.namespace_uri(to<S>(m.ns));
	return a;
}

template <typename S> static void check_attr(html::simple_attr<S> const& a, mattr const& m)
{
	VF_CHECK(from(a.namespace_uri()) == m.ns && a.namespace_uri_name() == name_of(NS, m.ns), "namespace of an attribute");
	VF_CHECK(from(a.local_name()) == m.name && a.local_name_name() == name_of(ATTR, m.name), "local name of an attribute");
	VF_CHECK(from(a.prefix()) == m.prefix && from(a.value()) == m.value, "prefix or value of an attribute");
	VF_CHECK(from(a.qualified_name()) == (m.prefix.empty() ? m.name : m.prefix + ":" + m.name), "qualified name of an attribute");
}

// a string close to s, but never s itself: same length, same letters in another case, a prefix, an extension
static std::string near(rng& r, std::string const& s)
{
	std::string o = s;
	std::size_t k = s.empty() ? 0 : r.below(s.size());
	bool plain = !s.empty() && !(s[k] & 0x80);
	switch (r.below(5))
	{
	case 0: if (plain) { o[k] = s[k] == 'q' ? 'w' : 'q'; return o; } break;
	case 1: if (plain && ((s[k] | 32) >= 'a') && ((s[k] | 32) <= 'z')) { o[k] ^= 32; return o; } break;
	case 2: if (!s.empty() && !(s.back() & 0x80)) { o.pop_back(); return o; } break;
	case 3: if (s.size() > 1 && plain && k && !(s[k - 1] & 0x80) && s[k] != s[k - 1]) { std::swap(o[k], o[k - 1]); return o; } break;
	default: break;
	}
	return r.chance(1, 2) ? o + "y" : "y" + o;
}

struct melem
{
	std::string ns, prefix, name; std::vector<mattr> attrs;
	bool signature(melem const& o) const
	{
		if (ns != o.ns || name != o.name || attrs.size() != o.attrs.size()) return false;
		for (auto& a : attrs) { bool f = false; for (auto& b : o.attrs) f = f || (a.key(b) && a.value == b.value); if (!f) return false; }
		return true;
	}
};

template <typename S> static html::simple_element<S> make_elem(rng& r, melem const& m)
{
	using elem = html::simple_element<S>;
	ns_name ns = name_of(NS, m.ns); tag_name t = name_of(TAG, m.name);
	S p = to<S>(m.prefix), n = to<S>(m.name);
	bool byname = (t != static_cast<tag_name>(0) || m.name.empty()) && r.chance(1, 2);
	if (ns == ns_name::HTML && m.prefix.empty() && r.chance(1, 3)) return byname ? elem(t) : elem(n);
	if ((ns != static_cast<ns_name>(0) || m.ns.empty()) && r.chance(1, 2)) return byname ? elem(ns, p, t) : elem(ns, p, n);
	if (r.chance(1, 2)) return elem(to<S>(m.ns), p, n);
	elem e;
	if (byname) e.local_name_name(t); else e.local_name(n);
	e.namespace_prefix(p);
	if (ns != static_cast<ns_name>(0) && r.chance(1, 2)) e.namespace_uri_name(ns); else e.namespace_uri(to<S>(m.ns));
	return e;
}

template <typename S, typename X> static void check_attrs(rng& r, X const& x, melem const& m)
{
	std::size_t k = 0;
	for (auto it = x.begin(); it != x.end(); ++it, ++k) { VF_CHECK(k < m.attrs.size(), "more attributes than were added"); check_attr<S>(*it, m.attrs[k]); }
	VF_CHECK(k == m.attrs.size(), "attributes are missing");
	for (int i = 0; i < 4; ++i)
	{
		mattr q; make_attr<S>(r, q);
		if (!m.attrs.empty() && r.chance(2, 3)) { q = r.pick(m.attrs); switch (r.below(6)) { case 0: q.ns = q.ns.empty() ? NS[3].second : ""; break; case 1: q.prefix = q.prefix.empty() ? "p" : ""; break; case 2: q.name += "x"; break; default: break; } q.value = "other"; }
		std::ptrdiff_t want = -1;
		for (std::size_t j = 0; j < m.attrs.size() && want < 0; ++j) if (m.attrs[j].key(q)) want = static_cast<std::ptrdiff_t>(j);
		auto at = [&](auto it) { return it == x.end() ? std::ptrdiff_t(-1) : static_cast<std::ptrdiff_t>(it - x.begin()); };
		ns_name ns = name_of(NS, q.ns); attribute_name nm = name_of(ATTR, q.name);
		bool known = ns != static_cast<ns_name>(0) || q.ns.empty();
		char const* sig = "finding an attribute gives another attribute";
		if (known) VF_CHECK(at(x.find(ns, to<S>(q.prefix), to<S>(q.name))) == want, sig);
		if (q.ns.empty() && q.prefix.empty())
		{
			VF_CHECK(at(x.find(to<S>(q.name))) == want, sig);
			if (nm != static_cast<attribute_name>(0)) VF_CHECK(at(x.find(nm)) == want, sig);
		}
		if constexpr (std::is_same_v<X, html::simple_element<S>>)
		{
			if (known && nm != static_cast<attribute_name>(0)) VF_CHECK(at(x.find(ns, to<S>(q.prefix), nm)) == want, sig);
			VF_CHECK(at(x.find(make_attr<S>(r, q, false))) == want, sig);
		}
		else if (known) { X c = x; VF_CHECK(c.contains(ns, to<S>(q.prefix), to<S>(q.name)) == (want >= 0), "contains() of an attribute"); }
		count(want >= 0 ? "attribute searches that find" : "attribute searches that fail");
	}
}

template <typename S, typename X> static void check_name(X const& x, melem const& m)
{
	VF_CHECK(from(x.namespace_uri()) == m.ns && x.namespace_uri_name() == name_of(NS, m.ns), "namespace of an element");
	VF_CHECK(from(x.local_name()) == m.name && x.local_name_name() == name_of(TAG, m.name), "local name of an element");
	VF_CHECK(from(x.qualified_name()) == (m.prefix.empty() ? m.name : m.prefix + ":" + m.name), "qualified name of an element");
}

template <typename S> static void elements(rng& r)
{
	using elem = html::simple_element<S>; using node = html::simple_node<S>;
	melem m;
	m.ns = r.chance(1, 2) ? NS[0].second : r.chance(1, 6) ? "urn:x" : r.chance(1, 6) ? "" : NS[r.below(std::size(NS))].second;
	m.prefix = r.chance(1, 4) ? "svg" : "";
	m.name = any_name<S>(r, TAG, r.chance(1, 2)).s;
	elem e = make_elem<S>(r, m);
	for (auto n = r.below(6); n; --n)
	{
		mattr a; auto x = make_attr<S>(r, a);
		bool dup = false; for (auto& b : m.attrs) dup = dup || b.key(a);
		if (dup) continue;
		e.push_back(x); m.attrs.push_back(a);
	}
	ev("element " + m.prefix + ":" + m.name + " " + m.ns); for (auto& a : m.attrs) ev("attribute " + a.prefix + ":" + a.name + " {" + a.ns + "} = " + a.value);
	check_name<S>(e, m); check_attrs<S>(r, e, m);
	VF_CHECK(from(e.namespace_prefix()) == m.prefix, "prefix of an element");
	node nd(e); node const& cn = nd;
	VF_CHECK(cn.is_element() && !cn.is_text() && !cn.is_comment() && !cn.is_document() && !cn.is_document_type() && !cn.is_processing_instruction() && cn.type() == node::type_name::Element, "kind of a node");
	check_name<S>(cn, m); check_attrs<S>(r, cn, m);
	// another element: the same with a few changes
	melem o = m;
	if (!o.attrs.empty() && r.chance(1, 3)) std::swap(o.attrs.front(), o.attrs.back());
	switch (r.below(8))
	{
	case 0: o.name = near(r, o.name); break;
	case 1: o.ns = o.ns.empty() ? NS[0].second : ""; break;
	case 2: if (!o.attrs.empty()) { auto& a = r.pick(o.attrs); a.value = near(r, a.value); } break;
	case 3: if (!o.attrs.empty()) o.attrs.pop_back(); break;
	case 4: if (!o.attrs.empty()) { auto& a = r.pick(o.attrs); a.name = near(r, a.name); } break;
	case 5: if (!o.attrs.empty()) { auto& a = r.pick(o.attrs); a.ns = r.chance(1, 3) ? near(r, a.ns) : a.ns.empty() ? NS[3].second : ""; } break;
	case 6: if (r.chance(1, 2)) o.ns = near(r, o.ns); break;
	default: break;
	}
	for (std::size_t i = 0; i < o.attrs.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (o.attrs[i].key(o.attrs[j])) { o = m; break; }   // no element has an attribute twice
	elem f = make_elem<S>(r, o);
	for (auto& a : o.attrs) f.push_back(make_attr<S>(r, a, false));
	check_name<S>(f, o); check_attrs<S>(r, f, o);
	bool same = m.signature(o);
	count(same ? "equal elements" : "unequal elements");
	VF_CHECK((e == f) == same && (f == e) == same && (e != f) == !same && (f != e) == !same, "elements compare otherwise than their names and attributes");
	node nf(f);
	VF_CHECK((nd == nf) == same && (nf == nd) == same && (nd != nf) == !same, "nodes compare otherwise than their elements");
	for (std::size_t i = 0; i < m.attrs.size() && i < o.attrs.size(); ++i)
	{
		bool k = m.attrs[i].key(o.attrs[i]);
		auto& x = *(e.begin() + static_cast<std::ptrdiff_t>(i)); auto& y = *(f.begin() + static_cast<std::ptrdiff_t>(i));
		VF_CHECK((x == y) == k && (x != y) == !k, "attributes compare otherwise than their names");
		bool plain = m.attrs[i].ns.empty() && m.attrs[i].prefix.empty();
		auto const& nm = o.attrs[i].name; bool w = plain && m.attrs[i].name == nm;
		S s = to<S>(nm);
		VF_CHECK((x == s) == w && (s == x) == w && (x != s) == !w && (s != x) == !w, "an attribute compares with a string otherwise than its name");
		attribute_name en = name_of(ATTR, nm);
		if (en != static_cast<attribute_name>(0)) VF_CHECK((x == en) == w && (en == x) == w && (x != en) == !w && (en != x) == !w, "an attribute compares with a name otherwise than its name");
	}
	// copies are independent
	node cp = nd, as(html::simple_text<S>(to<S>("t"))); as = nd;
	mattr a; auto x = make_attr<S>(r, a); bool dup = false; for (auto& b : m.attrs) dup = dup || b.key(a);
	melem m2 = m;
	if (!dup) { nd.push_back(std::move(x)); m2.attrs.push_back(a); }
	if (!m2.attrs.empty()) { auto k = r.below(m2.attrs.size()); (nd.begin() + static_cast<std::ptrdiff_t>(k))->value(to<S>("changed")); m2.attrs[k].value = "changed"; }
	check_attrs<S>(r, nd, m2); check_attrs<S>(r, cp, m); check_attrs<S>(r, as, m); check_attrs<S>(r, e, m);
	node mv = std::move(nd); check_name<S>(mv, m2); check_attrs<S>(r, mv, m2);
	state(fnv(m.name + "|" + m.ns + "|" + std::to_string(m.attrs.size())));
}

template <typename S> static void nodes(rng& r)
{
	using node = html::simple_node<S>; using tn = typename node::type_name;
	std::string d; for (auto n = r.below(5); n; --n) d += OTHER[r.below(std::size(OTHER))];
	std::string t = OTHER[r.below(std::size(OTHER))];
	auto k = r.below(6);
	ev("node kind " + std::to_string(k)); ev("data " + d);
	node n; tn want = tn::Element;
	switch (k)
	{
	case 0: n = node(html::simple_text<S>(to<S>(d))); want = tn::Text; break;
	case 1: n = node(html::simple_comment<S>(to<S>(d))); want = tn::Comment; break;
	case 2: { html::simple_processing_instruction<S> p; p.data(to<S>(d)); p.target(to<S>(t)); VF_CHECK(from(p.data()) == d && from(p.target()) == t, "processing instruction"); n = node(p); want = tn::ProcessingInstruction; break; }
	case 3: n = node(html::simple_document<S>()); want = tn::Document; break;
	case 4: { html::simple_document_type<S> p(to<S>(t), to<S>(d), to<S>(d + "s")); VF_CHECK(from(p.name()) == t && from(p.public_id()) == d && from(p.system_id()) == d + "s", "document type"); p.public_id(to<S>(t)); p.system_id(to<S>(d)); VF_CHECK(from(p.name()) == t && from(p.public_id()) == t && from(p.system_id()) == d, "document type"); n = node(p); want = tn::DocumentType; break; }
	default: n = node(html::simple_document_fragment<S>()); want = tn::DocumentFragment; break;
	}
	node c = n;
	node const& cc = c;
	VF_CHECK(cc.type() == want, "kind of a node");
	VF_CHECK(cc.is_element() == (want == tn::Element) && cc.is_text() == (want == tn::Text) && cc.is_comment() == (want == tn::Comment) && cc.is_processing_instruction() == (want == tn::ProcessingInstruction)
		&& cc.is_document() == (want == tn::Document) && cc.is_document_type() == (want == tn::DocumentType), "kind of a node");
	VF_CHECK(!(cc == node(html::simple_element<S>(to<S>("p")))) , "nodes of different kinds are equal");
	if (k < 3)
	{
		VF_CHECK(from(cc.data()) == d && from(c.data()) == d, "data of a node");
		c.data().append(to<S>("!"));
		VF_CHECK(from(cc.data()) == d + "!" && from(n.data()) == d, "changing the data of a copy");
		if (k == 2) VF_CHECK(from(cc.target()) == t, "target of a processing instruction");
	}
	if (k == 4) VF_CHECK(from(cc.name()) == t, "name of a document type");
	if (k == 3)
	{
		VF_CHECK(cc.document_type_name() == html::document_type_name::Html && cc.document_mode_name() == html::document_mode_name::NoQuirks, "a new document");
		html::document_mode_name M[] = { html::document_mode_name::NoQuirks, html::document_mode_name::Quirks, html::document_mode_name::LimitedQuirks };
		html::document_type_name Y[] = { html::document_type_name::Html, html::document_type_name::Xml };
		auto y = Y[r.below(2)]; auto q = M[r.below(3)];
		c.document_type_name(y); c.document_mode_name(q);
		VF_CHECK(cc.document_type_name() == y && cc.document_mode_name() == q, "type and mode of a document");
		VF_CHECK(n.document_type_name() == html::document_type_name::Html && n.document_mode_name() == html::document_mode_name::NoQuirks, "changing a copy of a document");
	}
	state(fnv(std::to_string(k) + d));
}

template <typename S> static void tables(std::uint64_t i)
{
	auto each = [&](auto& t) {
		using E = std::remove_const_t<decltype(t[0].first)>; using atom = html::basic_html_atom<S, E>;
		auto& [e, s] = t[i % std::size(t)];
		VF_CHECK(from(static_cast<S>(atom(e))) == s, "a name spells another string");
		VF_CHECK(static_cast<E>(atom(to<S>(s))) == e, "a string has another name");
		VF_CHECK(atom(e) == atom(to<S>(s)) && atom(e) == to<S>(s) && atom(to<S>(s)) == e, "a name differs from its string");
	};
	each(NS); each(TAG); each(ATTR);
}

template <typename S> static void all(rng& r, std::uint64_t i)
{
	tables<S>(i / 4);
	switch (r.below(6))
	{
	case 0: atoms<S>(r, NS); break;
	case 1: atoms<S>(r, TAG); break;
	case 2: atoms<S>(r, ATTR); break;
	case 3: nodes<S>(r); break;
	default: elements<S>(r);
	}
	ev("end"); count("cases with " + std::to_string(sizeof(typename S::value_type)) + "-byte units");
}

int main(int argc, char** argv)
{
	return drive(argc, argv, [](rng& r, std::uint64_t i, std::vector<std::string> const&) {
		switch (i % 4) { case 0: all<std::string>(r, i); break; case 1: all<std::u8string>(r, i); break; case 2: all<std::u16string>(r, i); break; default: all<std::u32string>(r, i); }
	});
}
