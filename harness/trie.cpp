// R01/R02/R03: histories on wordring::trie and wordring::stable_trie against a dictionary model.
#include <limits>
#include <common.hpp>
#include <wordring/trie/trie.hpp>
#include <wordring/tree/tree_iterator.hpp>
#include <map>
#include <sstream>

using namespace vf;

static VF_TLS std::uint64_t g_index;
static int g_mode = 1;

template <typename L> struct key_of { using type = std::vector<L>; };
template <> struct key_of<char> { using type = std::string; };
template <> struct key_of<char16_t> { using type = std::u16string; };
template <> struct key_of<char32_t> { using type = std::u32string; };
template <> struct key_of<char8_t> { using type = std::u8string; };

template <typename L, template <typename, typename> class Trie>
struct exercise
{
	using K = typename key_of<L>::type;
	using U = std::make_unsigned_t<L>;
	using T = Trie<L, std::allocator<wordring::detail::trie_node>>;
	using It = typename T::const_iterator;
	struct less
	{
		bool operator()(K const& a, K const& b) const
		{
			return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](L x, L y) { return static_cast<U>(x) < static_cast<U>(y); });
		}
	};
	using M = std::map<K, std::int32_t, less>;

	T t;
	M m;
	int alpha = 0;
	std::vector<L> pool;

	static std::string show(K const& k)
	{
		std::string s = "<";
		for (auto c : k) { if (s.size() > 1) s += ","; char b[20]; std::snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(static_cast<U>(c))); s += b; }
		return s + ">";
	}

	L label(rng& r)
	{
		switch (alpha)
		{
		case 0: return static_cast<L>('a' + r.below(2));
		case 1: return static_cast<L>('a' + r.below(8));
		case 2: return static_cast<L>(r.next());
		case 3: return r.pick(pool);
		default: return static_cast<L>(r.chance(1, 2) ? (r.chance(1, 2) ? 0 : ~U(0)) : static_cast<U>(r.below(3) - 1));
		}
	}
	K fresh(rng& r)
	{
		K k;
		// often extend or truncate a stored key
		if (!m.empty() && r.chance(2, 5))
		{
			auto it = m.lower_bound(K(1, label(r)));
			if (it == m.end()) it = m.begin();
			k = it->first;
			if (r.chance(1, 2) && k.size() > 1) k.resize(r.range(1, static_cast<std::int64_t>(k.size()) - 1));
			if (r.chance(2, 3)) for (std::size_t n = r.below(3); n; --n) k.push_back(label(r));
			return k;
		}
		std::size_t n = static_cast<std::size_t>(r.range(r.chance(1, 20) ? 0 : 1, alpha == 0 ? 7 : 5));
		if (r.chance(1, 40)) n += r.below(30);
		for (; n; --n) k.push_back(label(r));
		return k;
	}
	K some(rng& r)
	{
		if (m.empty()) return fresh(r);
		auto it = m.lower_bound(K(1, label(r)));
		if (it == m.end()) it = m.begin();
		for (std::size_t s = r.below(6); s && it != m.end(); --s) ++it;
		if (it == m.end()) it = m.begin();
		return it->first;
	}

	bool is_prefix(K const& k) const
	{
		if (k.empty()) return true;
		auto it = m.lower_bound(k);
		return it != m.end() && it->first.size() >= k.size() && std::equal(k.begin(), k.end(), it->first.begin());
	}

	void check_key(K const& k)
	{
		T const& c = t;
		auto it = m.find(k);
		bool in = it != m.end();
		VF_CHECK(c.contains(k) == in, "membership differs");
		VF_CHECK(c.contains(k.begin(), k.end()) == in, "membership differs");
		It f = c.find(k);
		VF_CHECK((f != c.cend()) == in, "find differs from membership");
		if (in)
		{
			VF_CHECK(static_cast<bool>(f), "found position is not a key end");
			VF_CHECK(t.at(k) == it->second, "stored value lost or changed");
			VF_CHECK(t.at(k.begin(), k.end()) == it->second, "stored value lost or changed");
			VF_CHECK(t.at(f) == it->second, "value at the found position differs");
			VF_CHECK(c.at(f) == it->second, "value at the found position differs");
			K s; f.string(s);
			VF_CHECK(s == k, "key spelled from its position differs");
		}
		else
		{
			bool threw = false;
			try { (void)t.at(k); } catch (std::out_of_range const&) { threw = true; }
			VF_CHECK(threw, "value access of an absent key did not throw");
		}
		bool p = is_prefix(k);
		It s = c.search(k);
		VF_CHECK((s != c.cend()) == p, "prefix search differs");
		if (p && !k.empty()) { K q; s.string(q); VF_CHECK(q == k, "prefix search found another node"); }
		// longest stored prefix
		K best;
		for (std::size_t n = 0; n <= k.size(); ++n) { K q(k.begin(), k.begin() + static_cast<std::ptrdiff_t>(n)); if (is_prefix(q)) best = q; else break; }
		auto lk = c.lookup(k.begin(), k.end());
		VF_CHECK(lk.second - k.begin() == static_cast<std::ptrdiff_t>(best.size()), "partial match consumed another length");
		K q; lk.first.string(q);
		VF_CHECK(q == best, "partial match reached another node");
	}

	// navigation: recursive comparison of the node structure with the set of prefixes
	void nav(It node, K& prefix, std::size_t& visited, rng& r)
	{
		++visited;
		VF_CHECK(static_cast<bool>(node) == (m.count(prefix) != 0), "key-end flag of a node");
		VF_CHECK(!node == (m.count(prefix) == 0), "key-end flag of a node");
		// children in the model
		std::vector<L> want;
		for (auto it = prefix.empty() ? m.begin() : m.lower_bound(prefix); it != m.end(); )
		{
			K const& k = it->first;
			if (k.size() < prefix.size() || !std::equal(prefix.begin(), prefix.end(), k.begin())) break;
			if (k.size() == prefix.size()) { ++it; continue; }
			L l = k[prefix.size()];
			want.push_back(l);
			// skip to the next label
			K nx = prefix; nx.push_back(l);
			while (it != m.end() && it->first.size() >= nx.size() && std::equal(nx.begin(), nx.end(), it->first.begin())) ++it;
		}
		std::vector<It> kids;
		std::size_t n = 0;
		bool post = r.chance(1, 3);
		for (It i = node.begin(); i != node.end(); )
		{
			VF_CHECK(n < want.size(), "surplus child");
			VF_CHECK(*i == want[n], "child label or order");
			VF_CHECK(i.parent() == node, "parent of a child");
			It g = node[want[n]];
			VF_CHECK(g == i, "child by label is not the enumerated child");
			kids.push_back(i);
			++n;
			if (post) { It o = i++; VF_CHECK(o == kids.back() && o != i, "postfix increment over the children"); } else ++i;
		}
		VF_CHECK(n == want.size(), "missing child");
		for (int a = 0; a < 3; ++a)
		{
			L l = label(r);
			if (a == 2) l = static_cast<L>(r.next());
			bool has = std::find(want.begin(), want.end(), l) != want.end();
			It g = node[l];
			VF_CHECK((g != node.end()) == has, "child by label existence");
		}
		for (std::size_t i = 0; i < kids.size(); ++i)
		{
			prefix.push_back(want[i]);
			K s; kids[i].string(s);
			VF_CHECK(s == prefix, "spelling of a node");
			nav(kids[i], prefix, visited, r);
			prefix.pop_back();
		}
	}
	void navigate(rng& r)
	{
		K p;
		std::size_t visited = 0;
		VF_CHECK(t.cbegin().parent() == t.cend(), "the root has a parent");
		{ T const& c = t; K s = fresh(r); c.begin().string(s); VF_CHECK(s.empty() && c.begin() == c.cbegin() && c.begin() != c.end() && c.end() == c.cend(), "begin() is the root"); }
		nav(t.cbegin(), p, visited, r);
		count("nodes_navigated", visited);
		// completion of a prefix through the pre-order adapter
		K k = m.empty() ? K() : some(r);
		if (k.size() > 1) k.resize(1);
		It s = t.search(k);
		if (s != t.cend())
		{
			std::vector<K> got, want;
			wordring::tree_iterator<It> i(s), e;
			for (; i != e; ++i) if (i.base()) { K q; i.base().string(q); got.push_back(q); }
			for (auto& [q, v] : m) if (q.size() >= k.size() && std::equal(k.begin(), k.end(), q.begin())) want.push_back(q);
			VF_CHECK(got == want, "enumeration below a prefix differs");
			count("completions");
		}
	}

	void whole(rng& r, int probes)
	{
		VF_CHECK(t.size() == m.size(), "size differs from the number of keys");
		VF_CHECK(t.empty() == m.empty(), "empty() differs");
		for (auto& [k, v] : m) { VF_CHECK(t.contains(k), "stored key lost"); VF_CHECK(t.at(k) == v, "stored value lost or changed"); }
		for (int i = 0; i < probes; ++i) check_key(fresh(r));
		if (!m.empty()) check_key(some(r));
	}

	template <typename T2> void equal(T2& o, char const* what)
	{
		if (!(o.size() == m.size())) VF_FAIL(std::string(what) + ": size", "restored container has another size");
		for (auto& [k, v] : m)
		{
			if (!o.contains(k)) VF_FAIL(std::string(what) + ": key lost", show(k));
			if (!(o.at(k) == v)) VF_FAIL(std::string(what) + ": value lost", show(k));
		}
		++evals();
	}

	void persist(rng& r)
	{
		// integers
		{ std::vector<std::uint32_t> v(t.ibegin(), t.iend()); T o(v.begin(), v.end()); equal(o, "restored from integers"); }
		{ std::vector<std::int32_t> v(t.ibegin(), t.iend()); T o; o.insert(fresh_nonempty(r), 3); o.assign(v.begin(), v.end()); equal(o, "assigned from integers"); after(o, r, "assigned from integers"); }
		// bytes
		{
			auto b = wordring::serialize_iterator(t.ibegin()); auto e = wordring::serialize_iterator(t.iend());
			std::vector<char> v(b, e);
			T o(v.begin(), v.end()); equal(o, "restored from bytes");
			std::vector<std::uint8_t> w(v.begin(), v.end());
			T q; q.assign(w.begin(), w.end()); equal(q, "assigned from bytes"); after(q, r, "assigned from bytes");
			std::vector<std::uint32_t> x(t.ibegin(), t.iend());
			VF_CHECK(w.size() == x.size() * 4, "byte form has another length");
		}
		{
			std::vector<std::uint16_t> h; for (auto i = t.ibegin(); i != t.iend(); ++i) { std::uint32_t x = static_cast<std::uint32_t>(*i); h.push_back(static_cast<std::uint16_t>(x >> 16)); h.push_back(static_cast<std::uint16_t>(x)); }
			T o; o.assign(h.begin(), h.end()); equal(o, "assigned from 16-bit integers");
		}
		// stream
		{
			T u; K uk = fresh_nonempty(r); u.insert(uk, 77);
			std::stringstream ss; ss << t << u;
			T o; o.insert(fresh_nonempty(r), 9);
			ss >> o;
			T q; ss >> q;
			VF_CHECK(q.size() == 1 && q.contains(uk) && q.at(uk) == 77, "second container of one stream"); equal(o, "restored from a stream"); after(o, r, "restored from a stream");
		}
		// copies and swaps
		{ T o(t); equal(o, "copy"); T q; q.insert(fresh_nonempty(r)); q.swap(o); equal(q, "swap"); after(q, r, "copy"); T z; z = q; t = z; }
		count("persisted");
	}
	K fresh_nonempty(rng& r) { K k = fresh(r); if (k.empty()) k.push_back(label(r)); return k; }
	// a restored container keeps working
	void after(T& o, rng& r, char const* what)
	{
		K k = fresh_nonempty(r);
		bool had = m.count(k) != 0;
		o.insert(k, 5);
		if (!o.contains(k)) VF_FAIL(std::string(what) + ": later insert lost", show(k));
		if (had) return;
		if (!(o.at(k) == 5)) VF_FAIL(std::string(what) + ": later insert has another value", show(k));
		o.erase(k);
		equal(o, what);
	}

	// more slots than 16 bits number: bulk load, holes all over, then the usual operations
	void large(rng& r)
	{
		alpha = 4;
		std::vector<K> v;
		for (int n = static_cast<int>(r.range(9000, 14000)); n; --n) { K q; for (int j = 0; j < 6; ++j) q.push_back(static_cast<L>(r.below(j < 2 ? 97 : 23) + 3)); v.push_back(q); }
		std::sort(v.begin(), v.end(), less()); v.erase(std::unique(v.begin(), v.end()), v.end());
		ev("large " + std::to_string(v.size()));
		t.assign(v.begin(), v.end());
		for (auto& q : v) m[q] = 0;
		std::size_t const k = r.range(40, 60);
		for (std::size_t i = 0; i < v.size(); i += k) { t[v[i]] = static_cast<std::int32_t>(i); m[v[i]] = static_cast<std::int32_t>(i); }
		for (std::size_t i = 1; i < v.size(); i += k) { t.erase(v[i]); m.erase(v[i]); }
		for (int i = 0; i < 60; ++i) { K q; for (int j = 0; j < 5; ++j) q.push_back(static_cast<L>(r.below(120))); t.insert(q, static_cast<std::uint32_t>(i)); m.emplace(q, i); }
		count("op.large"); count("large.slots", static_cast<std::uint64_t>(std::distance(t.ibegin(), t.iend()) / 2));
		if (g_mode == 1) equal(t, "large"); else if (g_mode == 2) navigate(r); else persist(r);
	}

	void body(rng& r)
	{
		if (g_index % 700 < 14 && g_index >= 14) return large(r);
		alpha = static_cast<int>(r.below(5));
		for (int i = 0; i < 6; ++i) pool.push_back(static_cast<L>(r.next()));
		int ops = static_cast<int>(r.range(3, r.chance(1, 5) ? 200 : 45));
		for (int k = 0; k < ops; ++k)
		{
			unsigned op = static_cast<unsigned>(r.below(100));
			if (k == 0 && r.chance(1, 12)) // a node with (almost) every child
			{
				K base; for (auto n = r.below(3); n; --n) base.push_back(label(r));
				ev("fan out below " + show(base));
				for (int c = 0; c < 256; ++c) if (!r.chance(1, 30)) { K q = base; q.push_back(static_cast<L>(c)); t.insert(q, static_cast<std::uint32_t>(c)); m.emplace(q, c); }
				count("op.fanout");
			}
			if (op < 48)
			{
				K key = fresh(r);
				std::int32_t v = r.chance(1, 10) ? 2147483647 : static_cast<std::int32_t>(r.below(1000));
				bool dflt = r.chance(1, 6); if (dflt) v = 0;
				ev("insert " + show(key) + "=" + std::to_string(v));
				It it = dflt ? t.insert(key) : (r.chance(1, 2) ? t.insert(key, static_cast<std::uint32_t>(v)) : t.insert(key.begin(), key.end(), static_cast<std::uint32_t>(v)));
				if (!key.empty())
				{
					m.emplace(key, v);
					K s; it.string(s);
					VF_CHECK(s == key, "insert returned another node");
					VF_CHECK(static_cast<bool>(it), "insert returned a node that is not a key end");
					VF_CHECK(t.at(it) == m[key], "value after insert");
				}
				count("op.insert");
			}
			else if (op < 74)
			{
				K key = r.chance(4, 5) ? some(r) : fresh(r);
				ev("erase " + show(key));
				switch (r.below(3))
				{
				case 0: t.erase(key); break;
				case 1: t.erase(key.begin(), key.end()); break;
				default: t.erase(t.find(key)); break;
				}
				m.erase(key);
				VF_CHECK(!t.contains(key), "erased key still present");
				count("op.erase");
			}
			else if (op < 84)
			{
				K key = r.chance(1, 4) ? fresh(r) : some(r);
				if (key.empty()) continue;
				std::int32_t v = static_cast<std::int32_t>(r.below(100000));
				ev("set " + show(key) + "=" + std::to_string(v));
				if (r.chance(1, 2) || !m.count(key)) { t[key] = v; } else { auto x = t.at(key); x = v; }
				m[key] = v;
				count("op.set");
			}
			else if (op < 90) // bulk assignment
			{
				std::vector<K> v;
				std::size_t n = r.below(r.chance(1, 4) ? 60 : 12);
				M nm;
				M old = m;
				m.clear();
				for (std::size_t i = 0; i < n; ++i) { K q = fresh(r); if (q.empty()) q.push_back(label(r)); v.push_back(q); m[q] = 0; }
				int kind = static_cast<int>(r.below(3));
				if (kind == 0) { std::sort(v.begin(), v.end(), less()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
				else if (kind == 1) std::sort(v.begin(), v.end(), less()); // duplicates stay
				ev("assign " + std::to_string(n) + (kind == 2 ? " unsorted" : kind == 1 ? " sorted with duplicates" : " sorted"));
				if (r.chance(1, 10)) v.insert(kind == 2 ? v.begin() + static_cast<std::ptrdiff_t>(r.below(v.size() + 1)) : v.begin(), K()); // the empty string is never stored
				if (r.chance(1, 2)) t.assign(v.begin(), v.end()); else t = T(v.begin(), v.end());
				count("op.assign");
			}
			else if (op < 92) { ev("clear"); t.clear(); m.clear(); count("op.clear"); }
			else if (op < 96)
			{
				ev("copy/swap");
				T o(t); T q; q.swap(o); t = q;
				count("op.copy");
			}
			else { ev("probe"); check_key(fresh(r)); }
			if (g_mode == 1) { whole(r, 2); }
			else if (g_mode == 2) { if (r.chance(1, 3) || k + 1 == ops) navigate(r); }
			else { if (r.chance(1, 4) || k + 1 == ops) persist(r); }
			std::uint64_t h = sizeof(L); for (auto& [q, v] : m) { h = fnv(q.data(), q.size() * sizeof(L), h * 31 + q.size()); }
			state(h);
		}
	}
};

template <typename L, typename A> using plain = wordring::trie<L, A>;
template <typename L, typename A> using stable = wordring::stable_trie<L, A>;

static void body(rng& r, std::uint64_t i, std::vector<std::string> const&)
{
	g_index = i;
	switch (i % 14)
	{
	case 0: case 1: { exercise<char, plain> x; x.body(r); break; }
	case 2: case 3: { exercise<char, stable> x; x.body(r); break; }
	case 4: { exercise<char16_t, plain> x; x.body(r); break; }
	case 5: { exercise<char16_t, stable> x; x.body(r); break; }
	case 6: { exercise<char32_t, plain> x; x.body(r); break; }
	case 7: { exercise<char32_t, stable> x; x.body(r); break; }
	case 8: { exercise<std::uint8_t, plain> x; x.body(r); break; }
	case 9: { exercise<std::int32_t, plain> x; x.body(r); break; }
	case 10: { exercise<std::int16_t, stable> x; x.body(r); break; }
	case 11: { exercise<std::uint64_t, plain> x; x.body(r); break; }
	case 12: { exercise<std::int8_t, plain> x; x.body(r); break; }
	default: { exercise<std::int8_t, stable> x; x.body(r); break; }
	}
}

int main(int argc, char** argv)
{
	if (argc > 7) g_mode = std::atoi(argv[7]);
	return drive(argc, argv, body);
}
