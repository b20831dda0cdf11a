// G01: histories on wordring::tag_tree (the document tree) against an ordered-forest model.
#include <limits>
#include <common.hpp>
#include <wordring/tag_tree/tag_tree.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/html/simple_traits.hpp>
#include <memory>

using namespace vf;
using namespace wordring::html;

using N = simple_node<std::u32string>;
using T = wordring::tag_tree<N>;
using It = T::iterator;
using CIt = T::const_iterator;
using Tr = node_traits<It>;

static std::string u8(std::u32string const& s) { std::string o; for (char32_t c : s) o += static_cast<char>(c); return o; }

struct node
{
	int kind = 0; // 0 element 1 text 2 comment 3 doctype 4 processing instruction 5 document fragment
	std::u32string v;
	node* parent = nullptr;
	std::vector<std::unique_ptr<node>> ch;
	It it;
	bool single() const { return kind == 1 || kind == 2 || kind == 3; }
	std::size_t index() const { for (std::size_t i = 0; i < parent->ch.size(); ++i) if (parent->ch[i].get() == this) return i; std::abort(); }
	std::size_t size() const { std::size_t n = 1; for (auto const& c : ch) n += c->size(); return n; }
	bool inside(node const* a) const { for (node const* n = this; n; n = n->parent) if (n == a) return true; return false; }
};

static N make(node const& n)
{
	switch (n.kind)
	{
	case 0: return N(N::element_type(n.v));
	case 1: return N(N::text_type(n.v));
	case 2: return N(N::comment_type(n.v));
	case 3: return N(N::document_type_type(n.v, U"p", U"s"));
	case 4: { N::processing_instruction_type p; p.data(n.v); return N(p); }
	default: return N(N::document_fragment_type());
	}
}
static bool same(N const& x, node const& n)
{
	switch (n.kind)
	{
	case 0: return x.is_element() && x.local_name() == n.v;
	case 1: return x.is_text() && x.data() == n.v;
	case 2: return x.is_comment() && x.data() == n.v;
	case 3: return x.is_document_type() && x.name() == n.v;
	case 4: return x.is_processing_instruction() && x.data() == n.v;
	default: return x.type() == N::type_name::DocumentFragment;
	}
}

struct world
{
	T t;
	node root;
	void all(node* n, std::vector<node*>& o) { for (auto& c : n->ch) { o.push_back(c.get()); all(c.get(), o); } }
	std::vector<node*> all() { std::vector<node*> o; all(&root, o); return o; }
	It last(node* p) { return p == &root ? t.end() : p->it.end(); }
	It first(node* p) { return p == &root ? t.begin() : p->it.begin(); }

	void walk(node* p, bool derive)
	{
		It i = first(p), e = last(p);
		std::size_t k = 0;
		for (; i != e; ++i, ++k)
		{
			VF_CHECK(k < p->ch.size(), "surplus child");
			node& c = *p->ch[k];
			if (derive) c.it = i; else VF_CHECK(i == c.it, "held position no longer denotes its node");
			VF_CHECK(same(*i, c), "node content or order differs");
			VF_CHECK((i.parent() == It()) == (p == &root), "parent of a node");
			if (p != &root) VF_CHECK(i.parent() == p->it, "parent of a node");
		}
		VF_CHECK(k == p->ch.size(), "missing child");
		// backwards
		It b = last(p);
		for (std::size_t n = p->ch.size(); n; --n) { if (p->ch[n - 1]->single() || true) { It o = b; It old = b--; VF_CHECK(old == o, "postfix decrement"); VF_CHECK(b == p->ch[n - 1]->it, "backward order differs"); } }
		VF_CHECK(b == first(p), "backward order does not reach the first child");
		for (auto& c : p->ch) walk(c.get(), derive);
	}
	void serial_model(node* p, std::vector<std::pair<node*, bool>>& o)
	{
		for (auto& c : p->ch) { o.push_back({ c.get(), false }); if (!c->single()) { serial_model(c.get(), o); o.push_back({ c.get(), true }); } }
	}
	void check()
	{
		walk(&root, false);
		VF_CHECK(t.size() == root.size() - 1, "size differs");
		VF_CHECK(t.empty() == root.ch.empty(), "empty() differs");
		T const& ct = t;
		VF_CHECK((ct.begin() == ct.end()) == root.ch.empty(), "constant begin/end");
		// serial order with end tags
		std::vector<std::pair<node*, bool>> m;
		serial_model(&root, m);
		std::size_t k = 0;
		for (auto i = t.sbegin(); i != t.send(); ++i, ++k)
		{
			VF_CHECK(k < m.size(), "serial traversal too long");
			auto [n, end] = m[k];
			VF_CHECK(i.is_end_tag() == end, "end tag flag");
			VF_CHECK(i.is_start_tag() == (!end && !n->single()), "start tag flag");
			if (!end) { It x = i; VF_CHECK(x == n->it, "serial traversal order"); }
			if (!n->single())
			{
				It s = i.start_tag(); VF_CHECK(s == n->it, "start tag of a node");
				auto e = i.end_tag(); VF_CHECK(e.is_end_tag() && static_cast<It>(e.start_tag()) == n->it, "end tag of a node");
				VF_CHECK(static_cast<It>(e) == n->it.end(), "end tag is the end of the children");
			}
			else { VF_CHECK(i.start_tag() == t.send(), "start tag of a childless node"); VF_CHECK(i.end_tag() == t.send(), "end tag of a childless node"); }
		}
		VF_CHECK(k == m.size(), "serial traversal too short");
		k = 0;
		for (auto ci = ct.sbegin(); ci != ct.send(); ++ci, ++k) { VF_CHECK(k < m.size() && ci.is_end_tag() == m[k].second, "constant serial traversal"); }
		VF_CHECK(k == m.size(), "constant serial traversal too short");
		auto i = t.send();
		for (std::size_t n = m.size(); n; --n) { --i; VF_CHECK(i.is_end_tag() == m[n - 1].second, "backward serial traversal"); if (!m[n - 1].second) VF_CHECK(static_cast<It>(i) == m[n - 1].first->it, "backward serial traversal"); }
		// postfix forms
		{
			auto f = t.sbegin(); auto cf = ct.sbegin(); auto b = t.send(); auto cb = ct.send();
			for (std::size_t n = 0; n < m.size(); ++n)
			{
				auto o = f++; VF_CHECK(o.is_end_tag() == m[n].second && o != f, "postfix increment of a serial position");
				if (!m[n].second) VF_CHECK(static_cast<It>(o) == m[n].first->it, "postfix increment of a serial position");
				auto co = cf++; VF_CHECK(co == static_cast<decltype(co)>(o) && co != cf, "postfix increment of a constant serial position");
				auto u = b--; auto cu = cb--; std::size_t q = m.size() - 1 - n;
				VF_CHECK(u != b && b.is_end_tag() == m[q].second && cu != cb && cb == static_cast<decltype(cb)>(b), "postfix decrement of a serial position");
				if (!m[q].second) VF_CHECK(static_cast<It>(b) == m[q].first->it, "postfix decrement of a serial position");
			}
			VF_CHECK(f == t.send() && cf == ct.send() && b == t.sbegin() && cb == ct.sbegin(), "serial positions after a walk");
			It i1 = t.begin(); CIt c1 = ct.begin();
			for (std::size_t n = 0; n < root.ch.size(); ++n)
			{
				It o = i1++; VF_CHECK(o == root.ch[n]->it, "postfix increment of a position");
				CIt co = c1++; VF_CHECK(co == static_cast<CIt>(o), "postfix increment of a constant position");
			}
			VF_CHECK(i1 == t.end() && c1 == ct.end(), "positions after a walk");
			for (std::size_t n = root.ch.size(); n; --n)
			{
				It o = i1--; CIt co = c1; --c1;
				VF_CHECK(i1 == root.ch[n - 1]->it && o != i1 && c1 == static_cast<CIt>(i1) && co == static_cast<CIt>(o), "postfix decrement of a position");
			}
		}
		// characters
		std::u32string want;
		for (auto& [n, end] : m) if (n->kind == 1) want += n->v;
		if (!root.ch.empty())
		{
			std::u32string got, back;
			T::character_iterator c(t.begin());
			std::size_t guard = 0;
			for (; c != c.end(); ++c) { got += *c; VF_CHECK(guard++ <= want.size(), "character traversal too long"); }
			VF_CHECK(got == want, "character traversal differs");
			T::character_iterator d = T::character_iterator(t.begin()).end();
			for (std::size_t n = want.size(); n; --n) { --d; back += *d; }
			std::reverse(back.begin(), back.end());
			VF_CHECK(back == want, "backward character traversal differs");
			T::character_iterator f(t.begin()), g = T::character_iterator(t.begin()).end();
			for (std::size_t n = 0; n < want.size(); ++n)
			{
				auto o = f++; VF_CHECK(*o == want[n] && o != f, "postfix increment of a character position");
				auto u = g--; VF_CHECK(*g == want[want.size() - 1 - n] && u != g, "postfix decrement of a character position");
			}
			std::wstring w;
			T::wchar_iterator wi(t.begin()), we(t.end());
			for (; wi != we; ++wi) w += *wi;
			VF_CHECK(std::equal(w.begin(), w.end(), want.begin(), want.end(), [](wchar_t a, char32_t b) { return static_cast<char32_t>(a) == b; }), "wide character traversal differs");
			T::wchar_iterator wf(t.begin()), wb(t.end());
			for (std::size_t n = 0; n < want.size(); ++n)
			{
				auto o = wf++; VF_CHECK(static_cast<char32_t>(*o) == want[n] && o != wf, "postfix increment of a wide character position");
				auto u = wb--; VF_CHECK(static_cast<char32_t>(*wb) == want[want.size() - 1 - n] && u != wb, "postfix decrement of a wide character position");
			}
			T::const_character_iterator kf(t.begin()), kb = kf.end();
			for (std::size_t n = 0; n < want.size(); ++n)
			{
				auto o = kf++; VF_CHECK(*o == want[n] && *o.operator->() == want[n] && o != kf, "postfix increment of a constant character position");
				auto u = kb--; VF_CHECK(*kb == want[want.size() - 1 - n] && u != kb, "postfix decrement of a constant character position");
			}
		}
	}
};

static void body(rng& r, std::uint64_t, std::vector<std::string> const&)
{
	world w;
	int ops = static_cast<int>(r.range(2, r.chance(1, 4) ? 120 : 35));
	int serial = 0;
	for (int k = 0; k < ops; ++k)
	{
		auto nodes = w.all();
		unsigned op = static_cast<unsigned>(r.below(100));
		if (nodes.size() > 90 && op < 45) op = 70;
		if (op < 45 || nodes.empty())
		{
			std::vector<node*> parents{ &w.root };
			for (auto* n : nodes) if (!n->single()) parents.push_back(n);
			node* p = r.pick(parents);
			std::size_t at = r.below(p->ch.size() + 1);
			auto n = std::make_unique<node>();
			n->kind = r.chance(1, 2) ? 0 : static_cast<int>(r.below(6));
			std::string s = (n->kind == 0 ? "e" : "t") + std::to_string(serial++);
			n->v = std::u32string(s.begin(), s.end());
			if (n->kind == 1 && r.chance(1, 8)) n->v.clear();
			else if (n->kind == 1 && r.chance(1, 4)) n->v = std::u32string(1, static_cast<char32_t>(U'a' + r.below(26)));
			else if (n->kind == 1 && r.chance(1, 600)) { n->v.assign(r.chance(1, 2) ? 65536 : 70000, U'z'); n->v.back() = U'y'; count("long texts"); }
			n->parent = p;
			It pos = at == p->ch.size() ? w.last(p) : p->ch[at]->it;
			ev("insert kind " + std::to_string(n->kind) + " " + u8(n->v.substr(0, 20)) + " under " + (p == &w.root ? "root" : u8(p->v)) + " at " + std::to_string(at));
			if (r.chance(1, 2)) n->it = w.t.insert(pos, make(*n)); else { N v = make(*n); n->it = w.t.insert(pos, v); }
			p->ch.insert(p->ch.begin() + static_cast<std::ptrdiff_t>(at), std::move(n));
			count("op.insert");
		}
		else if (op < 65)
		{
			node* s = r.pick(nodes);
			std::vector<node*> parents{ &w.root };
			for (auto* n : nodes) if (!n->single() && !n->inside(s)) parents.push_back(n);
			node* p = r.chance(1, 3) ? s->parent : r.pick(parents);
			std::size_t at = r.below(p->ch.size() + 1);
			It pos = at == p->ch.size() ? w.last(p) : p->ch[at]->it;
			ev("move " + u8(s->v) + " under " + (p == &w.root ? "root" : u8(p->v)) + " at " + std::to_string(at));
			It got = w.t.move(pos, s->it);
			VF_CHECK(got == s->it, "move returned another position");
			node* before = at == p->ch.size() ? nullptr : p->ch[at].get();
			if (before != s)
			{
				node* q = s->parent;
				auto own = std::move(q->ch[s->index()]);
				for (std::size_t i = 0; i < q->ch.size(); ++i) if (!q->ch[i]) { q->ch.erase(q->ch.begin() + static_cast<std::ptrdiff_t>(i)); break; }
				std::size_t to = p->ch.size();
				for (std::size_t i = 0; i < p->ch.size(); ++i) if (p->ch[i].get() == before) to = i;
				own->parent = p;
				p->ch.insert(p->ch.begin() + static_cast<std::ptrdiff_t>(to), std::move(own));
			}
			count("op.move");
		}
		else if (op < 85)
		{
			node* s = r.pick(nodes);
			node* p = s->parent;
			std::size_t at = s->index();
			ev("erase " + u8(s->v));
			It got = w.t.erase(s->it);
			p->ch.erase(p->ch.begin() + static_cast<std::ptrdiff_t>(at));
			It want = at == p->ch.size() ? w.last(p) : p->ch[at]->it;
			VF_CHECK(got == want, "erase returned another position");
			count("op.erase");
		}
		else if (op < 88) { ev("clear"); w.t.clear(); w.root.ch.clear(); count("op.clear"); }
		else if (op < 94)
		{
			ev("copy");
			T o(w.t);
			if (r.chance(1, 2)) { o.insert(o.end(), N(N::text_type(U"x"))); if (!o.empty()) o.erase(o.begin()); w.check(); o = w.t; w.t.swap(o); w.walk(&w.root, true); }
			else { w.t = o; w.walk(&w.root, true); }
			count("op.copy");
		}
		else
		{
			ev("move/swap whole");
			T o(std::move(w.t)); T z; z.swap(o); w.t = std::move(z); w.walk(&w.root, true);
			count("op.swap");
		}
		w.check();
		std::uint64_t h = 7; for (auto* n : w.all()) { std::uint64_t d = 0; for (node* q = n; q; q = q->parent) ++d; h = h * 1099511628211ull + d * 8 + static_cast<std::uint64_t>(n->kind); }
		state(h);
	}
}
int main(int argc, char** argv) { return drive(argc, argv, body); }
