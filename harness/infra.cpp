// Drives the string operations of the Infra Standard and the Unicode conversions; strings arrive and leave as raw code units.
#include <limits>
#include <iterator>
#include <list>
#include <wordring/whatwg/infra/infra.hpp>
#include "common.hpp"

using namespace wordring::whatwg;

template <typename C> static std::basic_string<C> units(std::string const& h)
{
	std::string b = h == "." ? std::string() : vf::unhex(h);
	std::basic_string<C> o;
	for (std::size_t i = 0; i + sizeof(C) <= b.size(); i += sizeof(C))
	{
		std::uint32_t v = 0;
		for (std::size_t k = 0; k < sizeof(C); ++k) v = v << 8 | static_cast<unsigned char>(b[i + k]);
		o += static_cast<C>(v);
	}
	return o;
}
template <typename C> static std::string show(std::basic_string<C> const& s)
{
	std::string o;
	for (C c : s) for (std::size_t k = sizeof(C); k-- > 0;) o += static_cast<char>(static_cast<std::uint32_t>(c) >> (8 * k) & 0xFF);
	return o.empty() ? "." : vf::hex(o);
}
template <typename C> static std::string show(std::vector<std::basic_string<C>> const& v)
{
	std::string o = "[";
	for (auto const& s : v) o += show(s) + ",";
	return o + "]";
}
// a heap buffer of exactly the right size, so that reading one unit too far is seen
template <typename C> struct exact
{
	std::vector<C> v;
	explicit exact(std::basic_string<C> const& s) : v(s.begin(), s.end()) { v.shrink_to_fit(); }
	C const* begin() const { return v.data(); }
	C const* end() const { return v.data() + v.size(); }
};

// the result over pointers, string iterators and list iterators must be one and the same
template <typename C, typename F> static std::string everywhere(std::basic_string<C> const& s, F f)
{
	exact<C> e(s);
	std::list<C> l(s.begin(), s.end());
	std::string a = f(e.begin(), e.end());
	VF_CHECK(f(s.begin(), s.end()) == a, "result depends on the iterator type");
	VF_CHECK(f(l.begin(), l.end()) == a, "result depends on the iterator type");
	return a;
}

template <typename In, typename Out> static std::string transform(std::string const& op, std::basic_string<In> const& s)
{
	return everywhere(s, [&](auto b, auto e)
	{
		std::basic_string<Out> o;
		auto out = std::back_inserter(o);
		if (op == "lower") to_ascii_lowercase(b, e, out);
		else if (op == "upper") to_ascii_uppercase(b, e, out);
		else if (op == "nonl") strip_newlines(b, e, out);
		else if (op == "norm") normalize_newlines(b, e, out);
		else if (op == "strip") strip_leading_and_trailing_ascii_whitespace(b, e, out);
		else if (op == "collapse") strip_and_collapse_ascii_whitespace(b, e, out);
		else if (op == "cast")
		{
			encoding_cast(b, e, out);
			std::basic_string<Out> p;
			encoding_cast(s, std::back_inserter(p));
			VF_CHECK(p == o, "encoding_cast of a string differs from encoding_cast of its range");
			VF_CHECK((encoding_cast<std::basic_string<Out>>(s)) == o, "encoding_cast to a string type differs from encoding_cast to an iterator");
			if (s.find(In()) == s.npos)
			{
				p.clear(); encoding_cast(s.c_str(), std::back_inserter(p));
				VF_CHECK(p == o, "encoding_cast of a character pointer differs");
				VF_CHECK((encoding_cast<std::basic_string<Out>>(std::basic_string_view<In>(s))) == o, "encoding_cast of a view differs");
			}
		}
		else VF_FAIL("usage", op);
		return show(o);
	});
}

template <typename C> static std::string same(std::vector<std::string> const& f)
{
	auto s = units<C>(f[3]);
	std::string const& op = f[0];
	auto left = [&](auto it, auto e) { std::basic_string<C> r; for (; it != e; ++it) r += *it; return show(r); };
	if (op == "collect")
	{
		auto set = vf::u32(vf::unhex(f[4]));
		return everywhere(s, [&](auto b, auto e)
		{
			std::basic_string<C> o;
			auto it = collect_sequence_of_code_points(b, e, std::back_inserter(o), [&](char32_t c) { return set.find(c) != set.npos; });
			return show(o) + " " + left(it, e);
		});
	}
	if (op == "skip") return everywhere(s, [&](auto b, auto e) { return left(skip_ascii_whitespace(b, e), e); });
	if (op == "split")
	{
		char32_t d = vf::u32(vf::unhex(f[4])).at(0);
		return everywhere(s, [&](auto b, auto e) { std::vector<std::basic_string<C>> o; strictly_split_on_particular_delimiter(b, e, std::back_inserter(o), d); return show(o); });
	}
	if (op == "words") return everywhere(s, [&](auto b, auto e) { std::vector<std::basic_string<C>> o; split_on_ascii_whitespace(b, e, std::back_inserter(o)); return show(o); });
	if (op == "commas") return everywhere(s, [&](auto b, auto e) { std::vector<std::basic_string<C>> o; split_on_commas(b, e, std::back_inserter(o)); return show(o); });
	if (op == "ascii") return everywhere(s, [&](auto b, auto e) { return std::string(is_ascii_string(b, e) ? "1" : "0"); });
	VF_FAIL("usage", op);
	return "";
}

template <typename A, typename B> static std::string match(std::vector<std::string> const& f)
{
	auto a = units<A>(f[3]);
	auto b = units<B>(f[4]);
	exact<A> ea(a); exact<B> eb(b);
	bool r = is_ascii_case_insensitive_match(ea.begin(), ea.end(), eb.begin(), eb.end());
	VF_CHECK(is_ascii_case_insensitive_match(eb.begin(), eb.end(), ea.begin(), ea.end()) == r, "case-insensitive match is not symmetric");
	return r ? "1" : "0";
}

static std::string bytes(std::vector<std::string> const& f)
{
	std::string const& op = f[0];
	auto s = units<char>(f[3]);
	exact<char> e(s);
	if (op == "blower" || op == "bupper")
	{
		std::string o, p = s;
		if (op == "blower") { to_byte_lowercase(e.begin(), e.end(), std::back_inserter(o)); to_byte_lowercase(p.begin(), p.end(), p.begin()); }
		else { to_byte_uppercase(e.begin(), e.end(), std::back_inserter(o)); to_byte_uppercase(p.begin(), p.end(), p.begin()); }
		VF_CHECK(o == p, "changing the case in place differs");
		return show(o);
	}
	if (op == "bmatch")
	{
		auto t = units<char>(f[4]);
		exact<char> g(t);
		return is_byte_case_insensitive_match(e.begin(), e.end(), g.begin(), g.end()) ? "1" : "0";
	}
	if (op == "iso")
	{
		std::u32string d; isomorphic_decode(e.begin(), e.end(), std::back_inserter(d));
		std::string back; isomorphic_encode(d.begin(), d.end(), std::back_inserter(back));
		VF_CHECK(back == s, "isomorphic encoding does not undo isomorphic decoding");
		bool asc = true;
		for (char c : s) asc = asc && is_ascii_byte(c);
		if (asc)
		{
			std::u32string d2; ascii_decode(e.begin(), e.end(), std::back_inserter(d2));
			std::string b2; ascii_encode(d2.begin(), d2.end(), std::back_inserter(b2));
			VF_CHECK(d2 == d && b2 == s, "ASCII decoding differs from isomorphic decoding");
		}
		return show(d) + (asc ? " 1" : " 0");
	}
	VF_FAIL("usage", op);
	return "";
}

static std::string predicate(std::string const& n)
{
	bool (*p)(char32_t) noexcept = nullptr;
	if (n == "surrogate") p = is_surrogate;
	if (n == "scalar") p = is_scalar_value;
	if (n == "noncharacter") p = is_noncharacter;
	if (n == "ascii") p = is_ascii_code_point;
	if (n == "tabnl") p = is_ascii_tab_or_newline;
	if (n == "white") p = is_ascii_white_space;
	if (n == "c0") p = is_c0_control;
	if (n == "c0space") p = is_c0_control_or_space;
	if (n == "control") p = is_control;
	if (n == "digit") p = is_ascii_digit;
	if (n == "upperhex") p = is_ascii_upper_hex_digit;
	if (n == "lowerhex") p = is_ascii_lower_hex_digit;
	if (n == "hex") p = is_ascii_hex_digit;
	if (n == "upper") p = is_ascii_upper_alpha;
	if (n == "lower") p = is_ascii_lower_alpha;
	if (n == "alpha") p = is_ascii_alpha;
	if (n == "alnum") p = is_ascii_alphanumeric;
	std::string o;
	for (std::uint32_t c = 0, from = 0; c <= 0x110000; ++c)
	{
		bool in = c < 0x110000 && p(c), was = c > 0 && p(c - 1);
		if (in && !was) from = c;
		if (!in && was) o += std::to_string(from) + "-" + std::to_string(c - 1) + " ";
	}
	vf::count("code points classified", 0x110000);
	return o;
}

template <typename F> static std::string by2(std::string const& a, std::string const& b, F f)
{
	auto second = [&](auto x) -> std::string
	{
		if (b == "c") return f(x, char());
		if (b == "8") return f(x, char8_t());
		if (b == "2") return f(x, char16_t());
		return f(x, char32_t());
	};
	if (a == "c") return second(char());
	if (a == "8") return second(char8_t());
	if (a == "2") return second(char16_t());
	return second(char32_t());
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::uint64_t i, std::vector<std::string> const& a)
	{
		auto const& ls = vf::lines(a.at(0));
		auto f = vf::split(ls.at(i));
		vf::ev(ls.at(i));
		std::string r;
		if (f[0] == "pred") r = predicate(f[1]);
		else if (f[0][0] == 'b' || f[0] == "iso") r = bytes(f);
		else if (f[0] == "match") r = by2(f[1], f[2], [&](auto x, auto y) { return match<decltype(x), decltype(y)>(f); });
		else if (f[0] == "collect" || f[0] == "skip" || f[0] == "split" || f[0] == "words" || f[0] == "commas" || f[0] == "ascii")
			r = f[1] == "c" ? same<char>(f) : f[1] == "8" ? same<char8_t>(f) : f[1] == "2" ? same<char16_t>(f) : same<char32_t>(f);
		else r = by2(f[1], f[2], [&](auto x, auto y) { return transform<decltype(x), decltype(y)>(f[0], units<decltype(x)>(f[3])); });
		vf::ev(r);
		vf::count("operation " + f[0]);
		vf::result(i, r);
	});
}
