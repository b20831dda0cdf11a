// A01: histories on wordring::basic_atom_set: string <-> id is one-to-one and stable.
#include <limits>
#include <common.hpp>
#include <wordring/string/atom.hpp>
#include <map>
#include <set>
#include <sstream>

using namespace vf;

template <typename S> struct exercise
{
	using L = typename S::value_type;
	using A = wordring::basic_atom_set<S>;
	A a;
	std::map<S, std::uint32_t> m;
	int alpha = 0;

	static std::string show(S const& s) { std::string o = "<"; for (auto c : s) { char b[20]; std::snprintf(b, sizeof b, "%s%x", o.size() > 1 ? "," : "", static_cast<unsigned>(static_cast<std::make_unsigned_t<L>>(c))); o += b; } return o + ">"; }
	L label(rng& r)
	{
		switch (alpha) { case 0: return static_cast<L>('a' + r.below(3)); case 1: return static_cast<L>('a' + r.below(26)); case 2: return static_cast<L>(r.next()); default: return static_cast<L>(0x3042 + r.below(80)); }
	}
	S fresh(rng& r)
	{
		S s;
		if (!m.empty() && r.chance(1, 3)) { auto it = m.begin(); std::advance(it, static_cast<std::ptrdiff_t>(r.below(m.size()))); s = it->first; if (r.chance(1, 2)) s.resize(static_cast<std::size_t>(r.range(1, static_cast<std::int64_t>(s.size())))); }
		for (auto n = r.range(s.empty() ? 1 : 0, 4); n > 0; --n) s.push_back(label(r));
		return s;
	}
	static bool extends(S const& longer, S const& k) { return longer.size() > k.size() && longer.compare(0, k.size(), k) == 0; }
	void refresh(S const& inserted)
	{
		// the id of a string that the new string extends may be reassigned (see DESIGN.md, known finding)
		for (auto& [k, id] : m) if (extends(inserted, k)) id = a.at(std::basic_string_view<L>(k));
	}
	void check(rng& r)
	{
		VF_CHECK(a.size() == m.size(), "number of strings differs");
		std::set<std::uint32_t> ids;
		for (auto& [k, id] : m)
		{
			auto x = a.at(std::basic_string_view<L>(k));
			VF_CHECK(static_cast<bool>(x), "stored string has no atom");
			VF_CHECK(static_cast<std::uint32_t>(x) != 0, "stored string has id 0");
			VF_CHECK(static_cast<std::uint32_t>(x) == id, "id of a stored string changed");
			VF_CHECK(static_cast<S>(x) == k, "atom of a string spells another string");
			S buf = k + k; x.string(buf);
			VF_CHECK(buf == k, "atom of a string spells another string");
			auto y = a.at(id);
			VF_CHECK(static_cast<S>(y) == k, "id does not lead back to its string");
			VF_CHECK(x == y && !(x != y), "atoms of one string differ");
			VF_CHECK(ids.insert(id).second, "two strings share an id");
			VF_CHECK(a.contains(std::basic_string_view<L>(k)), "stored string not contained");
		}
		if (r.chance(1, 8))
		{
			S e; auto x = r.chance(1, 2) ? a.insert(std::basic_string_view<L>(e)) : a.insert(e.begin(), e.end());
			VF_CHECK(!static_cast<bool>(x) && static_cast<std::uint32_t>(x) == 0 && static_cast<S>(x).empty() && a.size() == m.size() && !a.contains(e.begin(), e.end()), "the empty string got an atom");
		}
		for (int i = 0; i < 3; ++i)
		{
			S s = fresh(r);
			bool in = m.count(s) != 0;
			VF_CHECK(a.contains(s.begin(), s.end()) == in, "membership differs");
			auto x = a.at(s.begin(), s.end());
			if (!in) { S buf = s; x.string(buf); VF_CHECK(static_cast<S>(x).empty(), "atom of an absent string spells a string"); }
			VF_CHECK((static_cast<std::uint32_t>(x) != 0) == in, "id of an absent string is not 0");
			std::uint32_t id = static_cast<std::uint32_t>(r.chance(1, 2) ? r.below(600) : r.next());
			if (!ids.count(id)) { auto y = a.at(id); VF_CHECK(static_cast<std::uint32_t>(y) == 0, "unknown id yields an atom"); VF_CHECK(static_cast<S>(y).empty(), "unknown id yields a string"); }
		}
	}
	void body(rng& r)
	{
		alpha = static_cast<int>(r.below(4));
		int ops = static_cast<int>(r.range(3, r.chance(1, 5) ? 120 : 35));
		for (int k = 0; k < ops; ++k)
		{
			unsigned op = static_cast<unsigned>(r.below(100));
			if (op < 55)
			{
				S s = fresh(r);
				ev("insert " + show(s));
				std::uint32_t id; S back;
				switch (r.below(3))
				{
				case 0: { auto x = a.insert(std::basic_string_view<L>(s)); id = x; back = static_cast<S>(x); break; }
				case 1: { auto x = a.insert(s.begin(), s.end()); id = x; back = static_cast<S>(x); break; }
				default: { auto x = a[std::basic_string_view<L>(s)]; id = x; back = static_cast<S>(x); break; }
				}
				VF_CHECK(back == s, "inserted atom spells another string");
				refresh(s);
				auto [it, added] = m.emplace(s, id);
				VF_CHECK(it->second == id, "inserting a stored string changed its id");
				count("op.insert");
			}
			else if (op < 78 && !m.empty())
			{
				auto it = m.begin(); std::advance(it, static_cast<std::ptrdiff_t>(r.below(m.size())));
				ev("erase " + show(it->first));
				switch (r.below(3)) { case 0: a.erase(it->second); break; case 1: a.erase(std::basic_string_view<L>(it->first)); break; default: a.erase(it->first.begin(), it->first.end()); }
				m.erase(it);
				if (r.chance(1, 6)) a.erase(std::uint32_t(0)); // the null id names nothing
				count("op.erase");
			}
			else if (op < 82)
			{
				std::vector<S> v; for (auto n = r.below(15); n; --n) v.push_back(fresh(r));
				ev("assign " + std::to_string(v.size()));
				if (r.chance(1, 2)) a.assign(v.begin(), v.end()); else a = A(v.begin(), v.end());
				m.clear();
				for (auto& s : v) m[s] = a.at(std::basic_string_view<L>(s));
				count("op.assign");
			}
			else if (op < 90)
			{
				ev("persist");
				if (r.chance(1, 2)) { std::vector<std::uint32_t> v(a.ibegin(), a.iend()); A o(v.begin(), v.end()); a = o; }
				else { auto b = wordring::serialize_iterator(a.ibegin()); auto e = wordring::serialize_iterator(a.iend()); std::vector<char> v(b, e); A o; o.assign(v.begin(), v.end()); a = o; }
				count("op.persist"); // ids survive: check() compares with the ids recorded before
			}
			else if (op < 94) { ev("copy"); A o(a); a.clear(); a = o; count("op.copy"); }
			else if (op < 96) { ev("clear"); a.clear(); m.clear(); }
			check(r);
			std::uint64_t h = sizeof(L); for (auto& [q, v] : m) h = fnv(q.data(), q.size() * sizeof(L), h * 31 + q.size());
			state(h);
		}
	}
};

// ids promised to be stable under insertion: the one history recorded as a known finding
static void known()
{
	wordring::basic_atom_set<std::string> a;
	std::uint32_t id = a.insert(std::string_view("a"));
	a.insert(std::string_view("b"));
	for (int c = 0; c < 256; ++c) a.insert(std::string_view(std::string("a") + static_cast<char>(c)));
	if (static_cast<std::uint32_t>(a.at(std::string_view("a"))) != id) VF_FAIL("id changed by inserting longer strings", "insert a, b, then a followed by every byte value");
}

static void body(rng& r, std::uint64_t i, std::vector<std::string> const& args)
{
	if (!args.empty() && args[0] == "known") { known(); return; }
	if (i % 2) { exercise<std::u32string> x; x.body(r); }
	else { exercise<std::string> x; x.body(r); }
}
int main(int argc, char** argv) { return drive(argc, argv, body); }
