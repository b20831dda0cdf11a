// T01/T02: histories of operations on wordring::tree against an ordered-forest model.
#include <common.hpp>
#include <wordring/tree/tree.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <memory>
#include <list>

using namespace vf;

struct tracked
{
	static inline VF_TLS std::int64_t live = 0;
	std::string v;
	tracked() { ++live; }
	tracked(std::string s) : v(std::move(s)) { ++live; }
	tracked(char const* p, int n) : v(std::string(p) + std::to_string(n)) { ++live; }
	tracked(tracked const& o) : v(o.v) { ++live; }
	tracked(tracked&& o) : v(std::move(o.v)) { o.v = "<moved>"; ++live; }
	tracked& operator=(tracked const&) = default;
	tracked& operator=(tracked&& o) { if (this != &o) { v = std::move(o.v); o.v = "<moved>"; } return *this; }
	~tracked() { --live; }
};

using T = wordring::tree<tracked>;
using It = T::iterator;
using CIt = T::const_iterator;

struct node
{
	std::string v;
	node* parent = nullptr;
	std::vector<std::unique_ptr<node>> ch;
	It it;           // the iterator the library handed out for this node
	node* clone() const
	{
		node* n = new node; n->v = v;
		for (auto const& c : ch) { n->ch.emplace_back(c->clone()); n->ch.back()->parent = n; }
		return n;
	}
	std::size_t index() const { for (std::size_t i = 0; i < parent->ch.size(); ++i) if (parent->ch[i].get() == this) return i; std::abort(); }
	std::size_t size() const { std::size_t n = 1; for (auto const& c : ch) n += c->size(); return n; }
};

static bool g_traverse = false;
struct world
{
	T t;
	node root; // virtual
	std::size_t peak = 0;
	std::int64_t live0 = 0;
	bool check_live = false;
	world() = default;

	void all(node* n, std::vector<node*>& o) { for (auto& c : n->ch) { o.push_back(c.get()); all(c.get(), o); } }
	std::vector<node*> all() { std::vector<node*> o; all(&root, o); return o; }

	It first(node* p) { return p == &root ? t.begin() : p->it.begin(); }
	It last(node* p) { return p == &root ? t.end() : p->it.end(); }

	// re-derive every stored iterator by navigation from begin()
	void rederive() { walk(&root); }
	void walk(node* p)
	{
		It i = first(p), e = last(p);
		for (auto& c : p->ch)
		{
			if (i == e) VF_FAIL("tree lost children", "fewer children than the model");
			c->it = i;
			walk(c.get());
			++i;
		}
		if (!(i == e)) VF_FAIL("tree has extra children", "more children than the model");
	}

	void verify(node* p, bool stored)
	{
		It i = first(p), e = last(p);
		std::size_t k = 0;
		for (auto& c : p->ch)
		{
			VF_CHECK(i != e, "child missing");
			VF_CHECK(i->v == c->v, "wrong value or order among siblings");
			{ It j = i; It o = j++; VF_CHECK(o == i && (k + 1 == p->ch.size() ? j == e : j->v == p->ch[k + 1]->v), "postfix increment"); It o2 = j--; VF_CHECK(j == i && (k + 1 == p->ch.size() ? o2 == e : o2->v == p->ch[k + 1]->v), "postfix decrement"); }
			VF_CHECK((*i).v == c->v, "wrong value or order among siblings");
			if (stored) { VF_CHECK(c->it == i, "a held iterator no longer denotes its node"); VF_CHECK(c->it->v == c->v, "a held iterator reads another value"); }
			if (p != &root) { VF_CHECK(i.parent() == p->it, "parent() of a child is not its parent"); VF_CHECK(i.parent()->v == p->v, "parent() of a child is not its parent"); }
			else VF_CHECK(i.parent() == It(), "a root has a parent");
			++i; ++k;
		}
		VF_CHECK(i == e, "surplus child");
		if (p != &root) VF_CHECK(e.parent() == p->it, "parent() of a child end position is not the node");
		if (p != &root) VF_CHECK(e != t.end() && t.end() != e && CIt(e) != t.cend(), "the end of a node's children is the end of the tree");
		// backwards
		It b = last(p);
		for (std::size_t j = p->ch.size(); j > 0; --j)
		{
			--b;
			VF_CHECK(b->v == p->ch[j - 1]->v, "backward traversal disagrees with forward traversal");
		}
		VF_CHECK(b == first(p), "backward traversal does not reach the first sibling");
		if (p != &root)
		{
			std::size_t j = p->ch.size();
			for (auto r = p->it.rbegin(); r != p->it.rend(); ++r) { VF_CHECK(j > 0, "reverse range too long"); --j; VF_CHECK(r->v == p->ch[j]->v, "reverse range disagrees"); }
			VF_CHECK(j == 0, "reverse range too short");
			VF_CHECK(t.size(p->it) == p->size(), "subtree size");
		}
		for (auto& c : p->ch) { c->it = stored ? c->it : c->it; verify(c.get(), stored); }
	}
	// the same through constant positions, with the postfix operators
	void verify_const(CIt i, CIt e, node* p)
	{
		CIt b = e;
		for (auto& c : p->ch)
		{
			VF_CHECK(i != e, "child missing (constant)");
			CIt old = i++;
			VF_CHECK(old->v == c->v && old == CIt(c->it), "wrong value or order among siblings (constant)");
			if (p != &root) VF_CHECK(old.parent() == CIt(p->it), "parent() of a child is not its parent (constant)");
			if (!c->ch.empty()) verify_const(old.begin(), old.end(), c.get());
			else VF_CHECK(old.begin() == old.end(), "a leaf has children (constant)");
		}
		VF_CHECK(i == e, "surplus child (constant)");
		for (std::size_t j = p->ch.size(); j > 0; --j)
		{
			CIt old = b--;
			VF_CHECK((j == p->ch.size()) ? old == e : old->v == p->ch[j]->v, "postfix decrement (constant)");
			VF_CHECK(b->v == p->ch[j - 1]->v, "backward traversal disagrees (constant)");
		}
	}
	void verify()
	{
		verify(&root, true);
		VF_CHECK(t.size() == root.size() - 1, "size() is not the number of nodes");
		VF_CHECK(t.empty() == root.ch.empty(), "empty() disagrees with size");
		if (!root.ch.empty()) { VF_CHECK(t.front().v == root.ch[0]->v, "front() is not the first root"); VF_CHECK(static_cast<T const&>(t).front().v == root.ch[0]->v, "front() is not the first root"); }
		// const view
		T const& c = t;
		std::size_t k = 0;
		for (CIt i = c.begin(); i != c.end(); ++i, ++k) VF_CHECK(k < root.ch.size() && i->v == root.ch[k]->v, "const root range disagrees");
		VF_CHECK(k == root.ch.size(), "const root range too short");
		VF_CHECK(c.cbegin() == c.begin() && c.cend() == c.end() && CIt(t.begin()) == c.begin(), "constant and mutable ranges disagree");
		if (root.ch.size() == 1) VF_CHECK(t.back().v == root.ch[0]->v && c.back().v == root.ch[0]->v, "back() is not the only root");
		verify_const(c.begin(), c.end(), &root);
		peak = std::max(peak, root.size());
		if (check_live) VF_CHECK(tracked::live - live0 <= static_cast<std::int64_t>(2 * peak + 40), "erased slots are not reused: storage grows without bound");
		if (g_traverse) traverse();
	}

	// T02: pre-order and level-order adapters
	void pre(node* n, std::vector<node*>& o) { o.push_back(n); for (auto& c : n->ch) pre(c.get(), o); }
	void traverse_from(node* n)
	{
		std::vector<node*> a, b;
		pre(n, a);
		b.push_back(n);
		for (std::size_t i = 0; i < b.size(); ++i) for (auto& c : b[i]->ch) b.push_back(c.get());
		{
			wordring::tree_iterator<It> i(n->it), e;
			for (node* x : a) { VF_CHECK(i != e, "pre-order ends early"); VF_CHECK(i.base() == x->it, "pre-order position"); VF_CHECK((*i).v == x->v, "pre-order value"); VF_CHECK(i->v == x->v, "pre-order value"); ++i; }
			VF_CHECK(i == e, "pre-order visits too many nodes");
		}
		{
			wordring::tree_iterator<CIt> i(CIt(n->it)), e;
			for (node* x : a) { VF_CHECK(i != e, "pre-order ends early"); auto q = i; CIt old = i++; VF_CHECK(old == CIt(x->it), "pre-order post-increment"); VF_CHECK(q.base() == CIt(x->it), "copied pre-order iterator moved"); }
			VF_CHECK(i == e, "pre-order visits too many nodes");
		}
		{
			wordring::level_order_tree_iterator<It> i(n->it), e;
			for (node* x : b) { VF_CHECK(i != e, "level-order ends early"); VF_CHECK(i.base() == x->it, "level-order position"); VF_CHECK((*i).v == x->v, "level-order value"); ++i; }
			VF_CHECK(i == e, "level-order visits too many nodes");
		}
		{
			wordring::level_order_tree_iterator<CIt> i(CIt(n->it)), e;
			for (node* x : b) { VF_CHECK(i != e, "level-order ends early"); CIt old = i++; VF_CHECK(old == CIt(x->it), "level-order post-increment"); }
			VF_CHECK(i == e, "level-order visits too many nodes");
		}
	}
	// equality of traversals, assignment, and traversals of a range of siblings
	template <typename TI> void compare(node* n, std::vector<node*> const& order)
	{
		TI a(n->it), b(n->it), e;
		VF_CHECK(a == b && !(a != b), "two traversals at the same node differ");
		VF_CHECK(e == TI() && !(e != TI()), "two ended traversals differ");
		std::size_t k = order.size() / 2;
		for (std::size_t i = 0; i < k; ++i) { ++a; VF_CHECK(a != b && !(a == b), "traversals at different nodes compare equal"); }
		for (std::size_t i = 0; i < k; ++i) ++b;
		VF_CHECK(a == b, "two traversals at the same node differ");
		TI c; c = a; TI d(e); d = std::move(b);
		VF_CHECK(c == a && d == a, "an assigned traversal differs");
		for (std::size_t i = k; i < order.size(); ++i) { VF_CHECK(c != e && c.base() == order[i]->it, "an assigned traversal goes elsewhere"); ++c; }
		VF_CHECK(c == e && d != e && d.base() == order[k]->it, "an assigned traversal is not independent");
	}
	template <typename TI> void range(node* p, bool level)
	{
		std::vector<node*> o;
		if (!level) for (auto& c : p->ch) pre(c.get(), o);
		else { for (auto& c : p->ch) o.push_back(c.get()); for (std::size_t i = 0; i < o.size(); ++i) for (auto& c : o[i]->ch) o.push_back(c.get()); }
		TI i(first(p), last(p)), e;
		for (node* x : o) { VF_CHECK(i != e && i.base() == x->it && i->v == x->v, "traversal of a range of siblings"); ++i; }
		VF_CHECK(i == e, "traversal of a range of siblings visits too many nodes");
	}
	void traverse_more(node* n)
	{
		std::vector<node*> a, b;
		pre(n, a);
		b.push_back(n);
		for (std::size_t i = 0; i < b.size(); ++i) for (auto& c : b[i]->ch) b.push_back(c.get());
		compare<wordring::tree_iterator<It>>(n, a);
		compare<wordring::level_order_tree_iterator<It>>(n, b);
		range<wordring::tree_iterator<It>>(n, false);
		range<wordring::level_order_tree_iterator<It>>(n, true);
	}
	void traverse() { for (auto& c : root.ch) traverse_from(c.get()); range<wordring::tree_iterator<It>>(&root, false); range<wordring::level_order_tree_iterator<It>>(&root, true); }

	std::string shape(node* n) { std::string s; for (auto& c : n->ch) { s += '('; s += shape(c.get()); s += ')'; } return s; }
};

static int g_mode = 0; // 1 = T01, 2 = T02 (traversal adapters)

static node* graft(node* p, std::size_t at, node* n) { n->parent = p; p->ch.insert(p->ch.begin() + static_cast<std::ptrdiff_t>(at), std::unique_ptr<node>(n)); return n; }

static void assign_iters(world& w, node* n, It it)
{
	n->it = it;
	It i = it.begin(), e = it.end();
	for (auto& c : n->ch) { if (i == e) VF_FAIL("copied subtree lost children", "copy has fewer children than the source"); assign_iters(w, c.get(), i); ++i; }
	if (!(i == e)) VF_FAIL("copied subtree has extra children", "copy has more children than the source");
}

// the position of n in another tree of the same shape
static CIt twin(world& w, node* n, T const& c)
{
	std::vector<std::size_t> path;
	for (node* q = n; q != &w.root; q = q->parent) path.push_back(q->index());
	CIt i = c.begin();
	for (std::size_t k = path.size(); k > 0; --k)
	{
		if (k != path.size()) i = i.begin();
		for (std::size_t j = 0; j < path[k - 1]; ++j) ++i;
	}
	return i;
}

static void body(rng& r, std::uint64_t, std::vector<std::string> const&)
{
	std::int64_t live0 = tracked::live;
	{
		world w;
		int fresh = 0;
		int shape_bias = static_cast<int>(r.below(6)); // 0 bushy, 1 deep, 2 mixed, 3 many roots, 4 a hub with many children, 5 few hubs
		int ops = static_cast<int>(r.range(4, r.chance(1, 6) ? 160 : 50));
		std::size_t cap = 120;
		if (r.chance(1, 25)) { ops = static_cast<int>(r.range(150, 420)); cap = 320; }
		bool grow = r.chance(1, 3);
		if (r.chance(1, 12)) { cap = r.range(1, 16); ops = static_cast<int>(r.range(120, 420)); grow = true; }  // churn: slots are reused again and again
		w.live0 = live0; w.check_live = true;
		auto mk = [&]() { return "value-that-is-long-enough-to-live-on-the-heap-" + std::to_string(fresh++); };
		auto pick_parent = [&](std::vector<node*> const& a) -> node* {
			if (a.empty()) return &w.root;
			if (shape_bias == 1 && r.chance(2, 3)) return a.back();
			if (shape_bias == 3 && r.chance(1, 2)) return &w.root;
			if (shape_bias == 4 && r.chance(5, 6)) return a.front();
			if (shape_bias == 5 && r.chance(5, 6)) return a[std::min<std::size_t>(a.size() - 1, r.below(3))];
			if (r.chance(1, 12)) return &w.root;
			return a[r.below(a.size())];
		};
		auto pos_of = [&](node* p, std::size_t at) -> It { return at == p->ch.size() ? w.last(p) : p->ch[at]->it; };
		for (int k = 0; k < ops; ++k)
		{
			auto a = w.all();
			int op = static_cast<int>(r.below(100));
			if (grow && a.size() < cap / 2 && r.chance(2, 3)) op = 0;
			if (a.size() > cap) op = 60;
			if (op < 45 || a.empty())
			{
				node* p = pick_parent(a);
				std::size_t at = r.chance(1, 2) ? p->ch.size() : r.below(p->ch.size() + 1);
				std::string v = mk();
				node* n = new node; n->v = v; graft(p, at, n);
				It pos = (at + 1 == p->ch.size()) ? w.last(p) : p->ch[at + 1]->it;
				It got;
				switch (r.below(3))
				{
				case 0: { tracked x(v); got = w.t.insert(pos, x); VF_CHECK(x.v == v, "insert by const reference changed its argument"); break; }
				case 1: got = w.t.insert(pos, tracked(v)); break;
				default: got = w.t.emplace(pos, v); break;
				}
				n->it = got;
				VF_CHECK(got->v == v, "insert returned another node");
				ev("insert at " + std::to_string(at) + " of " + (p == &w.root ? std::string("root") : p->v.substr(46)) + " -> " + v.substr(46));
				count("op.insert");
			}
			else if (op < 50) // insert aliasing an element of the same tree
			{
				node* src = r.pick(a);
				node* p = pick_parent(a);
				std::size_t at = r.below(p->ch.size() + 1);
				It pos = pos_of(p, at);
				ev("insert copy of " + src->v.substr(46));
				It got = w.t.insert(pos, static_cast<tracked const&>(*src->it));
				node* n = new node; n->v = src->v; graft(p, at, n); n->it = got;
				count("op.insert_alias");
			}
			else if (op < 62) // erase
			{
				node* n = r.pick(a);
				if (n->size() > 25 && r.chance(3, 4)) n = a.back();
				node* p = n->parent;
				std::size_t at = n->index();
				ev("erase " + n->v.substr(46));
				It got = w.t.erase(n->it);
				p->ch.erase(p->ch.begin() + static_cast<std::ptrdiff_t>(at));
				VF_CHECK(got == pos_of(p, at), "erase did not return the following sibling");
				count("op.erase");
			}
			else if (op < 76) // copy a subtree
			{
				node* src = r.pick(a);
				if (src->size() > 30) continue;
				node* p = pick_parent(a);
				bool inside = false;
				for (node* q = p; q != nullptr; q = q->parent) if (q == src) inside = true;
				if (inside) continue; // copying a subtree into itself is not part of the contract
				std::size_t at = r.below(p->ch.size() + 1);
				It pos = pos_of(p, at);
				ev("copy subtree " + src->v.substr(46) + " size " + std::to_string(src->size()));
				It got;
				if (r.chance(1, 4)) { T c(w.t); CIt s2 = twin(w, src, c); got = w.t.insert(pos, s2); count("op.copy_from_other_tree"); }
				else got = w.t.insert(pos, src->it);
				node* n = graft(p, at, src->clone());
				assign_iters(w, n, got);
				count("op.copy_subtree");
			}
			else if (op < 92) // move a subtree
			{
				node* src = r.pick(a);
				node* p = pick_parent(a);
				std::size_t at = r.below(p->ch.size() + 1);
				bool inside = false;
				for (node* q = p; q != nullptr; q = q->parent) if (q == src) inside = true;
				bool self = (at < p->ch.size() && p->ch[at].get() == src);
				It pos = pos_of(p, at);
				if (inside)
				{
					ev("move " + src->v.substr(46) + " under itself");
					bool threw = false;
					try { w.t.move(pos, src->it); } catch (std::invalid_argument const&) { threw = true; }
					VF_CHECK(threw, "moving a node below itself was not refused");
					count("op.move_refused");
				}
				else if (self)
				{
					// destination immediately before itself: either refused or nothing changes
					ev("move " + src->v.substr(46) + " before itself");
					try { It g = w.t.move(pos, src->it); src->it = g; } catch (std::invalid_argument const&) {}
					count("op.move_self");
				}
				else
				{
					ev("move " + src->v.substr(46) + " to " + std::to_string(at) + " of " + (p == &w.root ? std::string("root") : p->v.substr(46)));
					std::size_t from = src->index();
					node* op_ = src->parent;
					It g = w.t.move(pos, src->it);
					std::unique_ptr<node> keep = std::move(op_->ch[from]);
					op_->ch.erase(op_->ch.begin() + static_cast<std::ptrdiff_t>(from));
					if (op_ == p && from < at) --at;
					graft(p, at, keep.release());
					src->it = g;
					count("op.move");
				}
			}
			else if (op < 94) // copy the whole tree, drop or adopt the original
			{
				ev("copy tree");
				T c(w.t);
				T d; d = c;
				w.t.swap(d);
				w.rederive();
				d.clear();
				VF_CHECK(d.empty() && d.size() == 0 && d.begin() == d.end(), "clear() leaves something behind");
				VF_CHECK(c.size() == w.root.size() - 1, "copy has another size");
				count("op.copy_tree");
			}
			else if (op < 96)
			{
				ev("move tree");
				T c(std::move(w.t));
				w.t.clear();
				w.t = std::move(c);
				w.rederive();
				count("op.move_tree");
			}
			else if (op < 97)
			{
				ev("assign");
				std::string v = mk();
				switch (r.below(5))
				{
				case 0: w.t.assign(tracked(v)); break;
				case 1: { tracked x(v); w.t.assign(x); VF_CHECK(x.v == v, "assign by const reference changed its argument"); break; }
				case 2: { tracked x(v); T c(x); VF_CHECK(x.v == v, "construction by const reference changed its argument"); w.t = c; break; }
				case 3: { T c{ tracked(v) }; w.t.swap(c); break; }
				default: { T c(w.t.get_allocator()); VF_CHECK(c.empty() && c.begin() == c.end(), "a new tree is not empty"); c.insert(c.end(), tracked(v)); w.t = std::move(c); break; }
				}
				w.root.ch.clear();
				node* n = new node; n->v = v; graft(&w.root, 0, n); n->it = w.t.begin();
				count("op.assign");
			}
			else if (op < 98)
			{
				ev("clear");
				w.t.clear(); w.root.ch.clear();
				count("op.clear");
			}
			else
			{
				node* n = r.pick(a);
				ev("write through " + n->v.substr(46));
				std::string v = mk();
				(*n->it).v = v; n->v = v;
				count("op.write");
			}
			if (g_mode == 2) { w.traverse(); auto b = w.all(); if (!b.empty()) { w.traverse_from(r.pick(b)); w.traverse_more(r.pick(b)); } } else w.verify();
			state(fnv(w.shape(&w.root)));
		}
		count("final_nodes", w.root.size());
	}
	if (tracked::live != live0) VF_FAIL("element lifetime", "elements constructed and destroyed do not balance: " + std::to_string(tracked::live - live0));
}

int main(int argc, char** argv)
{
	if (argc > 7) g_mode = std::atoi(argv[7]);
	return drive(argc, argv, body);
}
