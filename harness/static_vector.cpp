// V01: histories on wordring::static_vector against std::vector.
#include <common.hpp>
#include <wordring/static_vector/static_vector.hpp>
#include <algorithm>
#include <list>
#include <numeric>
#include <array>

using namespace vf;

template <typename T> T make(rng& r);
template <> std::string make<std::string>(rng& r) { return "element-stored-on-the-heap-" + std::to_string(r.below(50)); }
template <> int make<int>(rng& r) { return static_cast<int>(r.below(12)); }
static std::string show(std::string const& s) { return s.size() < 27 ? s : s.substr(27); }
static std::string show(int i) { return std::to_string(i); }

template <typename T, std::size_t N>
struct exercise
{
	using V = wordring::static_vector<T, N>;
	using M = std::vector<T>;

	static void same(V& v, M const& m)
	{
		V const& c = v;
		VF_CHECK(v.size() == m.size(), "size differs from the sequence held");
		VF_CHECK(v.empty() == m.empty(), "empty() disagrees");
		VF_CHECK(v.capacity() == N && v.max_size() == N, "capacity changed");
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			VF_CHECK(v[i] == m[i] && c[i] == m[i] && v.at(i) == m[i] && c.at(i) == m[i] && v.data()[i] == m[i] && c.data()[i] == m[i], "element access disagrees");
			VF_CHECK(*(v.begin() + i) == m[i] && *(i + c.begin()) == m[i] && c.begin()[static_cast<int>(i)] == m[i], "iterator access disagrees");
		}
		std::size_t k = 0;
		for (auto const& x : c) { VF_CHECK(k < m.size() && x == m[k], "forward iteration disagrees"); ++k; }
		VF_CHECK(k == m.size(), "forward iteration length");
		k = m.size();
		for (auto it = c.rbegin(); it != c.rend(); ++it) { VF_CHECK(k > 0, "reverse iteration too long"); --k; VF_CHECK(*it == m[k], "reverse iteration disagrees"); }
		VF_CHECK(k == 0, "reverse iteration length");
		for (auto it = v.rbegin(); it != v.rend(); it++) { VF_CHECK(k < m.size() && *it == m[m.size() - 1 - k], "reverse iteration disagrees"); ++k; }
		VF_CHECK(k == m.size(), "reverse iteration length");
		k = 0;
		for (auto it = c.crbegin(); it != c.crend(); ++it) { VF_CHECK(k < m.size() && *it == m[m.size() - 1 - k], "reverse iteration disagrees"); ++k; }
		VF_CHECK(k == m.size(), "reverse iteration length");
		{
			auto p = v.begin(); auto q = c.cend();
			for (k = 0; k < m.size(); ++k)
			{
				auto o = p++; VF_CHECK(*o == m[k] && o < p && o <= p && p > o && p >= o && !(p < o) && o != p && p - o == 1, "postfix increment of a position");
				auto u = q--; VF_CHECK(u > q && *q == m[m.size() - 1 - k] && u - q == 1 && *(c.cend() - (k + 1)) == *q, "postfix decrement of a position");
			}
			VF_CHECK(p == v.end() && q == c.cbegin() && p == c.end(), "stepping through the whole sequence");
		}
		for (std::size_t i = 0; i < m.size(); ++i)
		{
			std::size_t const j = (i * 7 + 3) % m.size();
			auto p = v.begin() + i; auto const kp = p; auto q = c.begin() + j; int const d = static_cast<int>(j) - static_cast<int>(i);
			VF_CHECK(p[d] == m[j] && kp[d] == m[j] && q[-d] == m[i] && *p.operator->() == m[i], "indexing from a position");
			VF_CHECK(q - p == d && p - q == -d && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j) && (p == q) == (i == j) && (p != q) == (i != j), "comparing positions");
			if (d >= 0) { auto s = p + static_cast<std::size_t>(d), u = static_cast<std::size_t>(d) + p, w = p; w += static_cast<std::size_t>(d); VF_CHECK(s == q && u == q && w == q && *s == m[j] && *u == m[j] && *w == m[j], "adding to a position"); }
			else { auto s = p - static_cast<std::size_t>(-d), w = p; w -= static_cast<std::size_t>(-d); VF_CHECK(s == q && w == q && *s == m[j] && *w == m[j], "subtracting from a position"); }
		}
		VF_CHECK(v.end() - v.begin() == static_cast<std::ptrdiff_t>(m.size()), "iterator difference");
		auto it = v.begin(); it += m.size();
		VF_CHECK(it == v.end(), "advancing begin() by size() does not give end()");
		it -= m.size();
		VF_CHECK(it == v.begin(), "moving end() back by size() does not give begin()");
		if (!m.empty()) { VF_CHECK(v.front() == m.front() && c.front() == m.front() && v.back() == m.back() && c.back() == m.back(), "front/back disagree"); }
		for (std::size_t q : { m.size(), N, N + 3 })
		{
			bool threw = false;
			try { (void)c.at(q); } catch (std::out_of_range const&) { threw = true; }
			VF_CHECK(threw, "at() beyond the last element did not throw");
		}
	}

	static void body(rng& r)
	{
		V v; M m;
		// construction
		switch (r.below(6))
		{
		case 0: break;
		case 1: { std::size_t n = r.below(N + 1); T x = make<T>(r); v = V(n, x); m = M(n, x); ev("ctor(n,x)"); break; }
		case 2: { std::size_t n = r.below(N + 1); v = V(n); m = M(n); ev("ctor(n)"); break; }
		case 3: { std::list<T> l; for (std::size_t n = r.below(N + 1); n; --n) l.push_back(make<T>(r)); v = V(l.begin(), l.end()); m = M(l.begin(), l.end()); ev("ctor(range)"); break; }
		case 4: { if (N >= 3) { T a = make<T>(r), b = make<T>(r), c = make<T>(r); v = V({ a, b, c }); m = M({ a, b, c }); ev("ctor(list)"); } break; }
		default: { if (N >= 2) { T a = make<T>(r), b = make<T>(r); v = { a, b }; m = { a, b }; ev("=list"); } break; }
		}
		same(v, m);
		int ops = static_cast<int>(r.range(3, 40));
		for (int k = 0; k < ops; ++k)
		{
			std::size_t room = N - m.size();
			std::size_t pos = r.chance(1, 3) ? m.size() : r.below(m.size() + 1);
			auto vp = v.cbegin() + pos;
			auto mp = m.begin() + static_cast<std::ptrdiff_t>(pos);
			std::string tag;
			switch (r.below(24))
			{
			case 0: case 1: if (room) { T x = make<T>(r); auto it = v.insert(vp, x); tag = "insert@" + std::to_string(pos) + " " + show(x); m.insert(mp, x); VF_CHECK(it - v.begin() == static_cast<std::ptrdiff_t>(pos) && *it == x, "insert returned another position"); } break;
			case 2: if (room) { T x = make<T>(r), y = x; auto it = v.insert(vp, std::move(y)); tag = "insert&&@" + std::to_string(pos); m.insert(mp, x); VF_CHECK(*it == x, "insert returned another position"); } break;
			case 3: if (room && !m.empty()) { std::size_t s = r.below(m.size()); tag = "insert own [" + std::to_string(s) + "]@" + std::to_string(pos); T x = m[s]; m.insert(mp, x); v.insert(vp, static_cast<T const&>(v[s])); } break;
			case 4: { std::size_t n = r.below(room + 1); T x = make<T>(r); tag = "insert n=" + std::to_string(n) + "@" + std::to_string(pos); auto it = v.insert(vp, n, x); m.insert(mp, n, x); VF_CHECK(it - v.begin() == static_cast<std::ptrdiff_t>(pos), "insert returned another position"); break; }
			case 5: if (!m.empty()) { std::size_t n = r.below(room + 1), s = r.below(m.size()); T x = m[s]; tag = "insert n own"; v.insert(vp, n, static_cast<T const&>(v[s])); m.insert(mp, n, x); } break;
			case 6: { std::list<T> l; for (std::size_t n = r.below(room + 1); n; --n) l.push_back(make<T>(r)); tag = "insert range " + std::to_string(l.size()) + "@" + std::to_string(pos); auto it = v.insert(vp, l.begin(), l.end()); m.insert(mp, l.begin(), l.end()); VF_CHECK(it - v.begin() == static_cast<std::ptrdiff_t>(pos), "insert returned another position"); break; }
			case 7: if (room >= 2) { T a = make<T>(r), b = make<T>(r); tag = "insert list@" + std::to_string(pos); v.insert(vp, { a, b }); m.insert(mp, { a, b }); } break;
			case 8: case 9: if (pos < m.size()) { tag = "erase@" + std::to_string(pos); auto it = v.erase(vp); m.erase(mp); VF_CHECK(it - v.begin() == static_cast<std::ptrdiff_t>(pos), "erase returned another position"); } break;
			case 10: case 11: { std::size_t q = pos + r.below(m.size() - pos + 1); tag = "erase [" + std::to_string(pos) + "," + std::to_string(q) + ")"; auto it = v.erase(vp, v.cbegin() + q); m.erase(mp, m.begin() + static_cast<std::ptrdiff_t>(q)); VF_CHECK(it - v.begin() == static_cast<std::ptrdiff_t>(pos), "erase returned another position"); break; }
			case 12: case 13: if (room) { T x = make<T>(r); tag = "push_back"; v.push_back(x); m.push_back(x); } break;
			case 14: if (room) { T x = make<T>(r), y = x; tag = "push_back&&"; v.push_back(std::move(y)); m.push_back(x); } break;
			case 15: if (!m.empty()) { tag = "pop_back"; v.pop_back(); m.pop_back(); } break;
			case 16: { std::size_t n = r.below(N + 1); tag = "resize " + std::to_string(n); if (r.chance(1, 2)) { v.resize(n); m.resize(n); } else { T x = make<T>(r); v.resize(n, x); m.resize(n, x); } break; }
			case 17: { V o; M p; for (std::size_t n = r.below(N + 1); n; --n) { T x = make<T>(r); o.push_back(x); p.push_back(x); } tag = "swap"; v.swap(o); m.swap(p); same(o, p);
				VF_CHECK((v == o) == (m == p) && (v != o) == (m != p) && (v < o) == (m < p) && (v <= o) == (m <= p) && (v > o) == (m > p) && (v >= o) == (m >= p), "comparison disagrees with lexicographic order"); break; }
			case 18: { tag = "copy"; V o(v); same(o, m); VF_CHECK(o == v && !(o != v) && !(o < v) && o <= v && o >= v, "copy is not equal"); V q(std::move(o)); same(q, m); v = q; break; }
			case 19: { tag = "assign"; std::size_t n = r.below(N + 1); T x = make<T>(r); if (r.chance(1, 2)) { v.assign(n, x); m.assign(n, x); } else { std::list<T> l; for (; n; --n) l.push_back(make<T>(r)); v.assign(l.begin(), l.end()); m.assign(l.begin(), l.end()); } break; }
			case 21: if (N >= 2) { T a = make<T>(r), b = make<T>(r); bool as = r.chance(1, 2); std::size_t n = r.below(3); tag = as ? "assign list" : "=list"; std::initializer_list<T> l0{}, l1{ a }, l2{ a, b }; auto l = n == 0 ? l0 : n == 1 ? l1 : l2; if (as) { v.assign(l); m.assign(l); } else { V& z = (v = l); VF_CHECK(&z == &v, "assignment returns the vector"); m = l; } } break;
			case 20: { tag = "sort/unique"; std::sort(v.begin(), v.end()); std::sort(m.begin(), m.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); m.erase(std::unique(m.begin(), m.end()), m.end());
				T x = make<T>(r); VF_CHECK(std::lower_bound(v.begin(), v.end(), x) - v.begin() == std::lower_bound(m.begin(), m.end(), x) - m.begin(), "binary search over the iterators disagrees"); break; }
			default: if (r.chance(1, 4)) { tag = "clear"; v.clear(); m.clear(); } else if (!m.empty()) { std::size_t s = r.below(m.size()); T x = make<T>(r); tag = "write"; v[s] = x; m[s] = x; } break;
			}
			if (tag.empty()) continue;
			ev(tag);
			count("op." + tag.substr(0, tag.find_first_of("@ ")));
			same(v, m);
			if (m.size() == N) count("full");
			std::uint64_t h = N; for (auto const& x : m) h = fnv(show(x), h);
			state(h);
		}
	}
};

template <> std::string make<std::string>(rng& r);

static void body(rng& r, std::uint64_t i, std::vector<std::string> const&)
{
	switch (i % 6)
	{
	case 0: exercise<std::string, 8>::body(r); break;
	case 1: exercise<int, 8>::body(r); break;
	case 2: exercise<std::string, 1>::body(r); break;
	case 3: exercise<int, 3>::body(r); break;
	case 4: exercise<int, 32>::body(r); break;
	default: exercise<std::string, 5>::body(r); break;
	}
}

int main(int argc, char** argv) { return drive(argc, argv, body); }
