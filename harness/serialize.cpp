// S01: integer serialization, byte iterators.  S02: the push matcher.
#include <limits>
#include <cstdint>
#include <common.hpp>
#include <wordring/serialize/serialize.hpp>
#include <wordring/serialize/serialize_iterator.hpp>
#include <wordring/string/matcher.hpp>
#include <list>
#include <forward_list>
#include <sstream>

using namespace vf;

template <typename T> static T pickv(rng& r)
{
	using U = std::make_unsigned_t<T>;
	switch (r.below(4))
	{
	case 0: return static_cast<T>(r.next());
	case 1: return static_cast<T>(U(1) << r.below(sizeof(T) * 8));
	case 2: return static_cast<T>(~U(0) >> r.below(sizeof(T) * 8));
	default: return static_cast<T>(static_cast<U>(r.below(3) - 1));
	}
}

template <typename T> static void one(rng& r)
{
	using U = std::make_unsigned_t<T>;
	std::vector<T> v;
	for (auto n = r.below(9); n; --n) v.push_back(pickv<T>(r));
	std::vector<std::uint8_t> want;
	for (T x : v) for (std::size_t i = 0; i < sizeof(T); ++i) want.push_back(static_cast<std::uint8_t>(static_cast<U>(x) >> (8 * (sizeof(T) - 1 - i))));
	ev("type"); ev("ints " + std::to_string(sizeof(T)) + "x" + std::to_string(v.size()) + " " + hex(std::string(want.begin(), want.end())));
	// iterator over the integers
	std::list<T> l(v.begin(), v.end());
	std::vector<std::uint8_t> got;
	auto e = wordring::serialize_iterator(l.begin()); e = wordring::serialize_iterator(l.end());
	std::size_t k = 0;
	for (auto i = wordring::serialize_iterator(l.begin()); i != e; )
	{
		VF_CHECK(!(i == e), "byte iterator comparison");
		VF_CHECK(k < want.size(), "byte iterator too long");
		auto c = i;
		auto old = i++;
		VF_CHECK(old == c && *old == *c, "postfix increment of the byte iterator");
		got.push_back(*old);
		VF_CHECK(std::distance(l.begin(), i.base()) == static_cast<std::ptrdiff_t>((k + 1) / sizeof(T)), "base of the byte iterator");
		++k;
	}
	VF_CHECK(got == want, "bytes of the integers differ");
	// positions inside the integers: equal exactly when they are the same byte, and any sub-range reads its bytes
	if (!want.empty())
	{
		wordring::serialize_iterator<typename std::list<T>::iterator> x; x = wordring::serialize_iterator(l.begin());
		std::size_t a = r.below(want.size() + 1), b = a + r.below(std::min<std::size_t>(want.size() - a, 2 * sizeof(T)) + 1);
		auto y = wordring::serialize_iterator(l.begin());
		for (std::size_t q = 0; q < a; ++q) ++x;
		for (std::size_t q = 0; q < b; ++q) { VF_CHECK((x == y) == (q == a) && (x != y) == (q != a), "comparison of byte positions"); ++y; }
		VF_CHECK((x == y) == (a == b), "comparison of byte positions");
		std::vector<std::uint8_t> sub;
		for (; x != y; ++x) { VF_CHECK(sub.size() < b - a, "byte sub-range too long"); sub.push_back(*x); }
		VF_CHECK(sub == std::vector<std::uint8_t>(want.begin() + static_cast<std::ptrdiff_t>(a), want.begin() + static_cast<std::ptrdiff_t>(b)), "bytes of a sub-range differ");
	}
	// and back
	std::vector<char> bytes(want.begin(), want.end());
	{
		wordring::deserialize_iterator<T, std::vector<char>::const_iterator> a(bytes.cbegin()), b(bytes.cend());
		std::vector<T> o; while (a != b) { VF_CHECK(o.size() < v.size(), "integer iterator too long"); o.push_back(*a++); }
		VF_CHECK(o == v, "integers read back differ");
		std::forward_list<std::uint8_t> f(want.begin(), want.end());
		wordring::deserialize_iterator<T, std::forward_list<std::uint8_t>::const_iterator> x(f.cbegin()), y(f.cend());
		o.clear(); for (; !(x == y); ++x) o.push_back(*x);
		VF_CHECK(o == v, "integers read back differ");
	}
	for (T n : v)
	{
		auto a = wordring::serialize(n);
		VF_CHECK(a.size() == sizeof(T), "serialized length");
		T o{};
		auto it = wordring::deserialize(a.begin(), a.end(), o);
		VF_CHECK(it == a.end() && o == n, "deserialize(serialize(n)) differs");
		for (std::uint32_t p = 0; p < sizeof(T); ++p) VF_CHECK(wordring::serialize(n, p) == a[p] && a[p] == static_cast<std::uint8_t>(static_cast<U>(n) >> (8 * (sizeof(T) - 1 - p))), "byte at a position");
	}
	// consecutive reads from one stream
	std::stringstream ss(std::string(bytes.begin(), bytes.end()));
	auto i = std::istreambuf_iterator<char>(ss); auto j = std::istreambuf_iterator<char>();
	for (T n : v) { T o{}; i = wordring::deserialize(i, j, o); VF_CHECK(o == n, "reading consecutive integers"); }
	VF_CHECK(i == j, "reading consumed another length");
	count("roundtrips", v.size());
	state(fnv(want.data(), want.size(), sizeof(T)));
}

template <typename S> static void matcher(rng& r)
{
	using M = wordring::string_matcher<S>;
	using C = typename S::value_type;
	// mostly two letters, now and then other values of the character type; mostly short words, now and then long or empty ones
	bool odd = r.chance(1, 3);
	auto chr = [&] { if (!odd || r.chance(2, 3)) return static_cast<C>('a' + r.below(2)); C const v[] = { C(0), static_cast<C>(-1), static_cast<C>(0x80), static_cast<C>('A'), static_cast<C>(0x10FFFF), static_cast<C>(0x161) }; return v[r.below(6)]; };
	bool big = r.chance(1, 25);
	S stem; if (big) for (auto n = r.range(200, 600); n; --n) stem.push_back(chr());
	auto str = [&] { S s; if (big && r.chance(3, 4)) s = stem.substr(0, r.chance(1, 2) ? stem.size() : r.below(stem.size())); else if (odd && r.chance(1, 6)) return s; for (auto n = r.range(1, 5); n; --n) s.push_back(chr()); return s; };
	S w[7] = { str(), str(), str(), str(), str(), str(), str() };
	std::size_t n = static_cast<std::size_t>(r.range(1, 7));
	M m = n == 1 ? M{ w[0] } : n == 2 ? M{ w[0], w[1] } : n == 3 ? M{ w[0], w[1], w[2] } : n == 4 ? M{ w[0], w[1], w[2], w[3] } : n == 5 ? M{ w[0], w[1], w[2], w[3], w[4] } : n == 6 ? M{ w[0], w[1], w[2], w[3], w[4], w[5] } : M{ w[0], w[1], w[2], w[3], w[4], w[5], w[6] };
	ev("matcher"); std::string t = "words"; for (std::size_t i = 0; i < n; ++i) { t += ' '; for (auto c : w[i]) t += static_cast<char>(c); }
	for (int round = 0; round < 4; ++round)
	{
		S in;
		t += " |";
		for (;;)
		{
			C c = r.chance(1, 10) ? static_cast<C>('z') : chr();
			if (big && r.chance(99, 100)) { auto const& x = w[r.below(n)]; if (in.size() < x.size() && (in.size() >= stem.size() || x.compare(0, in.size(), in) == 0)) c = x[in.size()]; else if (in.size() < stem.size()) c = stem[in.size()]; }
			else if (r.chance(1, 3)) { auto const& x = w[r.below(n)]; if (in.size() < x.size()) c = x[in.size()]; }
			in.push_back(c); t += static_cast<char>(c);
			bool full = false, part = false;
			for (std::size_t i = 0; i < n; ++i) { if (w[i] == in) full = true; if (w[i].size() > in.size() && w[i].compare(0, in.size(), in) == 0) part = true; }
			auto got = m.push_back(c);
			auto want = full ? M::match_result::succeed : part ? M::match_result::partial : M::match_result::failed;
			if (got != want) { ev(t); VF_FAIL("matcher verdict differs", t); }
			++evals();
			VF_CHECK(m.data() == in && m.size() == in.size(), "matcher input record");
			count("matcher_steps");
			if (got != M::match_result::partial) break;
		}
		m.clear();
		VF_CHECK(m.size() == 0 && m.data().empty(), "matcher clear");
	}
	ev(t);
	state(fnv(t.data(), t.size()));
}

static void body(rng& r, std::uint64_t i, std::vector<std::string> const& args)
{
	if (!args.empty() && args[0] == "2") { if (i % 2) matcher<std::string>(r); else matcher<std::u32string>(r); return; }
	switch (i % 8)
	{
	case 0: one<std::int8_t>(r); break;
	case 1: one<std::uint8_t>(r); break;
	case 2: one<std::int16_t>(r); break;
	case 3: one<std::uint16_t>(r); break;
	case 4: one<std::int32_t>(r); break;
	case 5: one<std::uint32_t>(r); break;
	case 6: one<std::int64_t>(r); break;
	default: one<std::uint64_t>(r); break;
	}
}
int main(int argc, char** argv) { return drive(argc, argv, body); }
