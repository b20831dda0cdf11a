// Drives wordring::whatwg::basic_url over a file of cases; results are compared with the reference offline.
#include <limits>
#include <wordring/whatwg/url/api.hpp>
#include <wordring/url/url.hpp>
#include "common.hpp"

using namespace wordring::whatwg;

template <typename S> S conv(std::string const& utf8);
template <> std::string conv(std::string const& s) { return s; }
template <> std::u32string conv(std::string const& s) { return vf::u32(s); }
template <> std::u8string conv(std::string const& s) { return std::u8string(s.begin(), s.end()); }
template <> std::u16string conv(std::string const& s)
{
	std::u16string o;
	for (char32_t c : vf::u32(s)) if (c > 0xFFFF) { c -= 0x10000; o += static_cast<char16_t>(0xD800 + (c >> 10)); o += static_cast<char16_t>(0xDC00 + (c & 0x3FF)); } else o += static_cast<char16_t>(c);
	return o;
}

template <typename S>
static std::string field(S const& s) { std::string o; for (auto c : s) { auto u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<std::conditional_t<sizeof(c) == 1, char, std::uint32_t>>>(c)); if (u > 0x20 && u < 0x7F && u != '|') o += static_cast<char>(u); else { char b[16]; std::snprintf(b, sizeof b, "{%x}", u); o += b; } } return o; }

template <typename S>
static std::string show(basic_url<S> const& u)
{
	std::string h = field(u.href());
	VF_CHECK(field(to_string(u)) == h, "to_string differs from href");
	std::string nofrag = field(to_string(u, true));
	VF_CHECK(h.compare(0, nofrag.size(), nofrag) == 0 && (h.size() == nofrag.size() || h[nofrag.size()] == '#'), "serialization without the fragment is not the part before it");
	return h + "|" + field(u.protocol()) + "|" + field(u.username()) + "|" + field(u.password()) + "|" + field(u.host()) + "|" + field(u.hostname()) + "|" + field(u.port()) + "|" + field(u.pathname()) + "|" + field(u.search()) + "|" + field(u.hash());
}

template <typename S>
static std::string run(std::vector<std::string> const& f)
{
	S s = conv<S>(vf::unhex(f[1]));
	std::string out;
	std::unique_ptr<basic_url<S>> u;
	try { if (f[2] == "-") u.reset(new basic_url<S>(s)); else u.reset(new basic_url<S>(s, conv<S>(vf::unhex(f[2].substr(1))))); }
	catch (std::error_code const&) { return "FAIL"; }
	out = show(*u);
	// a copy is independent, and parsing the serialization is reported too
	basic_url<S> copy(*u);
	auto again = [&](basic_url<S> const& x) { try { basic_url<S> y(x.href()); return field(y.href()); } catch (std::error_code const&) { return std::string("FAIL"); } };
	out += " => " + again(*u);
	for (std::size_t i = 3; i < f.size(); ++i)
	{
		std::size_t c = f[i].find(':');
		std::string op = f[i].substr(0, c);
		S v = conv<S>(vf::unhex(f[i].substr(c + 1)));
		out += " ## ";
		try
		{
			if (op == "protocol") u->protocol(v);
			else if (op == "username") u->username(v);
			else if (op == "password") u->password(v);
			else if (op == "host") u->host(v);
			else if (op == "hostname") u->hostname(v);
			else if (op == "port") u->port(v);
			else if (op == "pathname") u->pathname(v);
			else if (op == "search") u->search(v);
			else if (op == "hash") u->hash(v);
			else if (op == "href") u->href(v);
		}
		catch (std::error_code const&) { out += "FAIL"; continue; }
		out += show(*u) + " => " + again(*u);
	}
	VF_CHECK(show(copy) == out.substr(0, out.find(" => ")), "setting a copy's component changed the original");
	return out;
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::uint64_t i, std::vector<std::string> const& a)
	{
		auto const& ls = vf::lines(a.at(0));
		auto f = vf::split(ls.at(i));
		vf::ev(ls.at(i));
		auto put = [&](std::string const& r) { vf::ev(r.substr(0, 200)); vf::result(i, r); };
		if (f[0] == "s8") put(run<std::string>(f));
		else if (f[0] == "s16") put(run<std::u16string>(f));
		else if (f[0] == "s32") put(run<std::u32string>(f));
		else VF_FAIL("harness", "unknown kind");
	});
}
