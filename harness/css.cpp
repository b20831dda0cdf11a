// Drives the CSS tokenizer and parser entry points over a file of cases; results are compared with the reference offline.
#include <limits>
#include <wordring/wwwc/css_syntax/parsing.hpp>
#include "common.hpp"

using namespace wordring::wwwc::css;
using N = syntax_primitive_name;
using P = syntax_primitive;

static std::string str(std::u32string const& s)
{
	std::string o;
	for (char32_t c : s)
	{
		if (c >= 0x30 && c < 0x7F && c != '{' && c != '}' && c != '<' && c != '>' && c != '|') o += static_cast<char>(c);
		else { char b[16]; std::snprintf(b, sizeof b, "{%x}", static_cast<unsigned>(c)); o += b; }
	}
	return o.empty() ? "''" : o;
}
static std::string num(double d) { char b[64]; std::snprintf(b, sizeof b, "%.17g", d); return b; }
static char const* flag(number_type_flag_name f) { return f == number_type_flag_name::integer ? "integer" : "number"; }

static void show(component_value const& v, std::string& o);
static void show(P const& v, std::string& o);
static void list(std::vector<component_value> const& v, std::string& o) { for (auto const& x : v) show(x, o); }
static void show(simple_block const& b, std::string& o) { o += "<block "; o += static_cast<char>(b.m_associated_token); o += ' '; list(b.m_value, o); o += "> "; }

template <typename V>
static bool common(V const& v, std::string& o)
{
	switch (v.type())
	{
	case N::IdentToken: o += "<ident " + str(v.template get<ident_token>().m_value) + " > "; return true;
	case N::AtKeywordToken: o += "<at " + str(v.template get<at_keyword_token>().m_value) + " > "; return true;
	case N::HashToken: { auto const& h = v.template get<hash_token>(); o += std::string("<hash ") + (h.m_type_flag == hash_token::type_flag_name::id ? "id " : "unrestricted ") + str(h.m_value) + " > "; return true; }
	case N::StringToken: o += "<string " + str(v.template get<string_token>().m_value) + " > "; return true;
	case N::BadStringToken: o += "bad-string "; return true;
	case N::UrlToken: o += "<url " + str(v.template get<url_token>().m_value) + " > "; return true;
	case N::BadUrlToken: o += "bad-url "; return true;
	case N::DelimToken: o += "<delim " + str(std::u32string(1, v.template get<delim_token>().m_value)) + " > "; return true;
	case N::NumberToken: { auto const& t = v.template get<number_token>(); o += "<number " + num(t.m_value) + " " + flag(t.m_type_flag) + " > "; return true; }
	case N::PercentageToken: o += "<percentage " + num(v.template get<percentage_token>().m_value) + " > "; return true;
	case N::DimensionToken: { auto const& t = v.template get<dimension_token>(); o += "<dimension " + num(t.m_value) + " " + flag(t.m_type_flag) + " " + str(t.m_unit) + " > "; return true; }
	case N::WhitespaceToken: o += "ws "; return true;
	case N::CdoToken: o += "cdo "; return true;
	case N::CdcToken: o += "cdc "; return true;
	case N::ColonToken: o += ": "; return true;
	case N::SemicolonToken: o += "; "; return true;
	case N::CommaToken: o += ", "; return true;
	case N::OpenSquareToken: o += "[ "; return true;
	case N::CloseSquareToken: o += "] "; return true;
	case N::OpenParenToken: o += "( "; return true;
	case N::CloseParenToken: o += ") "; return true;
	case N::OpenCurlyToken: o += "{ "; return true;
	case N::CloseCurlyToken: o += "} "; return true;
	case N::EofToken: o += "eof "; return true;
	case N::Function: { auto const& f = v.template get<wordring::wwwc::css::function>(); o += "<function " + str(f.m_name) + " "; list(f.m_value, o); o += "> "; return true; }
	case N::SimpleBlock: show(v.template get<simple_block>(), o); return true;
	default: return false;
	}
}
static void show(component_value const& v, std::string& o) { if (!common(v, o)) o += "? "; }
static void show(P const& v, std::string& o)
{
	if (common(v, o)) return;
	switch (v.type())
	{
	case N::FunctionToken: o += "<function-token " + str(v.get<function_token>().m_value) + " > "; break;
	case N::ComponentValue: show(v.get<component_value>(), o); break;
	case N::AtRule: { auto const& r = v.get<at_rule>(); o += "<at-rule " + str(r.m_name) + " "; list(r.m_prelude, o); if (r.m_block) { o += "| "; show(*r.m_block, o); } o += "> "; break; }
	case N::QualifiedRule: { auto const& r = v.get<qualified_rule>(); o += "<rule "; list(r.m_prelude, o); o += "| "; show(r.m_block, o); o += "> "; break; }
	case N::Declaration: { auto const& d = v.get<declaration>(); o += "<declaration " + str(d.m_name) + (d.m_important_flag ? " ! " : " - "); list(d.m_value, o); o += "> "; break; }
	default: o += "? "; break;
	}
}
static std::string text(std::vector<P> const& v)
{
	std::string o = "<list ";
	for (P const& x : v) show(x, o);
	o += "> ";
	// copies and assignments carry the value
	std::vector<P> c(v);
	std::string o2 = "<list ";
	for (P const& x : c) show(x, o2);
	VF_CHECK(o == o2 + "> ", "a copied syntax item differs from its original");
	for (std::size_t i = 0; i + 1 < c.size(); ++i)
	{
		std::string a, b;
		show(v[i + 1], a);
		c[i] = v[i + 1];
		show(c[i], b);
		VF_CHECK(a == b, "an assigned syntax item differs from its source");
	}
	return o;
}
template <typename T>
static std::string text(std::optional<T> const& v) { if (!v) return "error "; std::string o; if constexpr (std::is_same_v<T, declaration>) show(P(*v), o); else show(*v, o); return o; }
static std::string text(std::vector<std::vector<P>> const& v) { std::string o = "<list "; for (auto const& x : v) o += text(x); return o + "> "; }

template <typename F>
static std::string entry(std::u32string const& s, F f)
{
	std::u32string a(s), b(s);
	std::string r1 = text(f(std::move(a)));
	std::vector<P> toks = normalize_into_token_stream(std::u32string(s));
	std::string r2 = text(f(std::move(toks)));
	VF_CHECK(r1 == r2, "parsing the tokens differs from parsing the string");
	std::vector<P> cvs = parse_list_of_component_values(std::move(b));
	std::string r3 = text(f(std::move(cvs)));
	VF_CHECK(r1 == r3, "parsing the component values differs from parsing the string");
	return r1;
}

static std::string run(std::string const& op, std::string const& bytes)
{
	if (op == "bytes") return text(parse_stylesheet(bytes));
	std::u32string s;
	for (std::size_t i = 0; i + 4 <= bytes.size(); i += 4) s += static_cast<char32_t>((static_cast<unsigned char>(bytes[i]) << 24) | (static_cast<unsigned char>(bytes[i + 1]) << 16) | (static_cast<unsigned char>(bytes[i + 2]) << 8) | static_cast<unsigned char>(bytes[i + 3]));
	if (op == "tokens")
	{
		std::string a = text(normalize_into_token_stream(std::u32string(s)));
		// token by token, from an exactly sized buffer; every step advances
		std::u32string f(s);
		f.erase(wordring::wwwc::filter_code_points(f.begin(), f.end()), f.end());
		std::vector<char32_t> buf(f.begin(), f.end());
		std::vector<P> v;
		char32_t const* p = buf.data(); char32_t const* e = p + buf.size();
		while (true)
		{
			auto [it, t] = consume_token(p, e, nullptr);
			VF_CHECK(p <= it && it <= e, "a token ends outside of the input");
			if (t.type() == N::EofToken) { VF_CHECK(it == e, "the end of the input is reported before the end"); break; }
			VF_CHECK(it > p, "a token consumes nothing");
			if (it <= p) break;
			p = it;
			v.push_back(t);
		}
		VF_CHECK(text(v) == a, "tokenizing from a buffer differs from tokenizing the string");
		return a;
	}
	if (op == "stylesheet") return entry(s, [](auto&& x) { return parse_stylesheet(std::move(x)); });
	if (op == "rules") return entry(s, [](auto&& x) { return parse_list_of_rules(std::move(x)); });
	if (op == "rule") return entry(s, [](auto&& x) { return parse_rule(std::move(x)); });
	if (op == "decl") return entry(s, [](auto&& x) { return parse_declaration(std::move(x)); });
	if (op == "decls") return entry(s, [](auto&& x) { return parse_list_of_declarations(std::move(x)); });
	if (op == "cv") return entry(s, [](auto&& x) { return parse_component_value(std::move(x)); });
	if (op == "cvs") return entry(s, [](auto&& x) { return parse_list_of_component_values(std::move(x)); });
	if (op == "commas") return entry(s, [](auto&& x) { return parse_comma_separated_list_of_component_values(std::move(x)); });
	return "?";
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::uint64_t i, std::vector<std::string> const& a)
	{
		auto const& ls = vf::lines(a.at(0));
		auto f = vf::split(ls.at(i));
		vf::ev(ls.at(i));
		std::string r = run(f[0], vf::unhex(f[1]));
		vf::ev(r.substr(0, 200));
		vf::result(i, r);
	});
}
