// Drives the building blocks of the URL standard: percent-encoding, code point sets, query encoding, equality.
#include <limits>
#include <memory>
#include <wordring/whatwg/url/url.hpp>
#include "common.hpp"

using namespace wordring::whatwg;

static std::string raw(std::string const& h) { return h == "." ? std::string() : vf::unhex(h); }
static std::string put(std::u32string const& s) { std::string o = vf::hex(vf::u8(s)); return o.empty() ? "." : o; }

using set_t = bool (*)(char32_t);
static bool forbidden(char32_t c) { return is_forbidden_host_code_point(c); }
static set_t sets(int n)
{
	static set_t const t[] = { is_c0_control_percent_encode_set, is_fragment_percent_encode_set, is_query_percent_encode_set, is_special_query_percent_encode_set, is_path_percent_encode_set,
		is_userinfo_percent_encode_set, is_component_percent_encode_set, application_x_www_form_urlencoded_percent_encode_set, is_url_code_point, forbidden };
	return t[n];
}

static std::string run(std::vector<std::string> const& f)
{
	std::string const& op = f[0];
	if (op == "set")
	{
		set_t p = sets(std::stoi(f[1]));
		std::string o;
		for (std::uint32_t c = 0, from = 0; c <= 0x110000; ++c)
		{
			bool in = c < 0x110000 && p(c), was = c > 0 && p(c - 1);
			if (in && !was) from = c;
			if (!in && was) o += std::to_string(from) + "-" + std::to_string(c - 1) + " ";
		}
		vf::count("code points classified", 0x110000);
		return o;
	}
	if (op == "byte")
	{
		std::string o;
		for (int b = 0; b < 256; ++b) percent_encode(static_cast<std::uint8_t>(b), std::back_inserter(o));
		return o;
	}
	if (op == "int")
	{
		std::string o;
		serialize_integer(static_cast<char32_t>(std::stoul(f[1])), std::back_inserter(o));
		return o;
	}
	if (op == "pct")
	{
		std::u32string s = vf::u32(raw(f[4]));
		auto name = static_cast<encoding_name>(std::stoul(f[1]));
		set_t st = sets(std::stoi(f[2]));
		std::u32string r = percent_encode_after_encoding(name, s, st, f[3] == "1");
		if (name == encoding_name::UTF_8 && f[3] == "0")
		{
			VF_CHECK(utf8_percent_encode(s, st) == r, "utf8_percent_encode differs from percent-encoding after UTF-8");
			std::u32string one;
			for (char32_t c : s) one += utf8_percent_encode(c, st);
			VF_CHECK(one == r, "percent-encoding a string differs from percent-encoding its code points");
		}
		return put(r);
	}
	if (op == "dec")
	{
		std::string s = raw(f[1]), o;
		std::vector<char> e(s.begin(), s.end());
		percent_decode(e.data(), e.data() + e.size(), std::back_inserter(o));
		return o.empty() ? "." : vf::hex(o);
	}
	if (op == "sdec")
	{
		std::u32string s = vf::u32(raw(f[1]));
		std::vector<char32_t> e(s.begin(), s.end());
		std::string o;
		string_percent_decode(e.data(), e.data() + e.size(), std::back_inserter(o));
		return o.empty() ? "." : vf::hex(o);
	}
	if (op == "pe")
	{
		std::u32string s = vf::u32(raw(f[1]));
		std::vector<char32_t> e(s.begin(), s.end());
		return std::string(starts_with_percent_encoded_byte(e.data(), e.data() + e.size()) ? "1" : "0") + (is_percent_encoded_byte(e.data(), e.data() + e.size()) ? "1" : "0");
	}
	if (op == "seg")
	{
		std::u32string s = vf::u32(raw(f[1]));
		std::vector<char32_t> e(s.begin(), s.end());
		std::string o;
		o += is_windows_drive_letter(s) ? '1' : '0';
		o += is_normalized_windows_drive_letter(s) ? '1' : '0';
		o += starts_with_windows_drive_letter(e.data(), e.data() + e.size()) ? '1' : '0';
		o += is_single_dot_path_segment(s) ? '1' : '0';
		o += is_double_dot_path_segment(s) ? '1' : '0';
		o += is_special_scheme(s) ? '1' : '0';
		auto p = default_port(s);
		return o + (p ? std::to_string(*p) : "-");
	}
	if (op == "v4") return is_valid_ipv4_address_string(vf::u32(raw(f[1]))) ? "1" : "0";
	if (op == "asc" || op == "uni")
	{
		std::error_code ec;
		std::u32string s = vf::u32(raw(f[2]));
		std::u32string o = op == "uni" ? domain_to_unicode(s, ec) : f[1] == "1" ? domain_to_ascii(s, true, ec) : domain_to_ascii(s, ec);
		if (op == "asc" && f[1] == "0") { std::error_code e2; VF_CHECK(domain_to_ascii(s, false, e2) == o && e2 == ec, "domain to ASCII is not strict by default"); }
		return ec ? "FAIL" : put(o);
	}
	if (op == "dom") { std::u32string s = vf::u32(raw(f[2])); bool d = is_valid_domain_string(s); if (d) VF_CHECK(is_valid_host_string(s), "a valid domain string is not a valid host string"); return d ? "1" : "0"; }
	if (op == "heq")
	{
		std::error_code e1, e2;
		bool ns = f[1] == "1";
		std::u32string a = vf::u32(raw(f[2])), b = vf::u32(raw(f[3]));
		if (!ns && (a.empty() || b.empty())) return "FAIL"; // an empty host of a special URL never reaches the host parser
		host_base const x = parse_host(a, ns, e1), y = parse_host(b, ns, e2);
		if (!x || !y) return "FAIL"; // the error code also carries validation errors
		host_base z(x);
		VF_CHECK(x == x && z == x && (x == y) == (y == x), "host equality is not reflexive and symmetric");
		bool text = x.type() == host_type_name::Domain || x.type() == host_type_name::OpaqueHost;
		if (text) VF_CHECK((x == serialize_host(x)) && !(x == serialize_host(x) + U"x"), "comparison of a host with its own text");
		return std::string(x == y ? "1 " : "0 ") + put(serialize_host(x)) + " " + put(serialize_host(y));
	}
	if (op == "query" || op == "eq")
	{
		auto name = static_cast<encoding_name>(std::stoul(f[1]));
		std::optional<url_record_base> base, u;
		if (op == "eq")
		{
			auto a = pase_url(vf::u32(raw(f[2]))), b = pase_url(vf::u32(raw(f[3])));
			if (!a || !b) return "FAIL";
			VF_CHECK(equals(*a, *a) && equals(*b, *b) && equals(*a, *b) == equals(*b, *a) && equals(*a, *b, true) == equals(*b, *a, true), "URL equality is not reflexive and symmetric");
			return std::string(equals(*a, *b) ? "1" : "0") + (equals(*a, *b, true) ? "1" : "0");
		}
		if (f[3] != "-") { base = pase_url(vf::u32(raw(f[3].substr(1))), nullptr, name); if (!base) return "FAIL"; }
		u = pase_url(vf::u32(raw(f[2])), base ? &*base : nullptr, name);
		if (!u) return "FAIL";
		return put(serialize_url(*u)) + " " + put(serialize_url(*u, true));
	}
	VF_FAIL("usage", op);
	return "";
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::uint64_t i, std::vector<std::string> const& a)
	{
		auto const& ls = vf::lines(a.at(0));
		vf::ev(ls.at(i));
		auto f = vf::split(ls.at(i));
		std::string r = run(f);
		vf::ev(r.substr(0, 200));
		vf::count("operation " + f[0]);
		vf::result(i, r);
	});
}
