// Reads selector text as one production of the selector grammar and records the parts; compared with the reference offline.
#include <wordring/css/selector.hpp>
#include <wordring/wwwc/selectors/grammar.hpp>
#include <wordring/wwwc/selectors/api.hpp>
#include "common.hpp"

namespace css = wordring::wwwc::css;

static std::u32string cast(std::string const& h)
{
	std::string s = vf::unhex(h);
	return wordring::encoding_cast<std::u32string>(std::u8string(s.begin(), s.end()));
}
static std::string hx(std::u32string const& s)
{
	std::string o; char b[16];
	for (char32_t c : s) { std::snprintf(b, sizeof b, "%s%x", o.empty() ? "" : ".", static_cast<unsigned>(c)); o += b; }
	return o;
}
static std::string ch(char32_t c) { return c ? std::string(1, static_cast<char>(c)) : std::string("0"); }

static std::string dump(css::combinator const& x) { return "c" + ch(x.type()); }
static std::string dump(css::ns_prefix const& x) { return "p" + hx(x.string()) + ";"; }
static std::string dump(std::optional<css::ns_prefix> const& x) { return x ? dump(*x) : "-"; }
static std::string dump(css::wq_name const& x) { return "w" + dump(x.prefix()) + hx(x.name()) + ";"; }
static std::string dump(css::id_selector const& x) { return "#" + hx(x.value()) + ";"; }
static std::string dump(css::class_selector const& x) { return "." + hx(x.name()) + ";"; }
static std::string dump(css::attr_matcher const& x) { return "m" + ch(x.prefix()); }
static std::string dump(css::attr_modifier const& x) { return "d" + ch(x.value()); }
static std::string dump(css::pseudo_class_selector const& x)
{
	return x.type() == css::syntax_primitive_name::Function ? "f" + hx(x.get<css::function>().m_name) + "/" + std::to_string(x.get<css::function>().m_value.size()) + ";" : "i" + hx(x.get<css::ident_token>().m_value) + ";";
}
static std::string dump(css::pseudo_element_selector const& x) { return ":" + dump(static_cast<css::pseudo_class_selector const&>(x)); }
static std::string dump(css::attribute_selector const& x) { return "[" + dump(x.prefix()) + hx(x.name()) + ";" + ch(x.matcher()) + hx(x.value()) + ";" + ch(x.modifier()) + "]"; }
static std::string dump(css::subclass_selector const& x) { return std::visit([](auto const& y) { return "s" + dump(y); }, x.value()); }
static std::string dump(css::type_selector const& x)
{
	if (auto const* w = std::get_if<css::wq_name>(&x.value())) return "t" + dump(*w);
	return "u" + dump(std::get<std::optional<css::ns_prefix>>(x.value()));
}
static std::string dump(css::simple_selector const& x)
{
	if (auto const* t = std::get_if<css::type_selector>(&x.value())) return dump(*t);
	return dump(std::get<css::subclass_selector>(x.value()));
}
static std::string dump(css::compound_selector const& x)
{
	std::string o = "(";
	for (auto const& v : x.value()) o += std::visit([](auto const& y) { return dump(y); }, v);
	return o + ")";
}
template <typename V> static std::string seq(V const& v)
{
	std::string o = "<";
	for (auto const& e : v) o += std::visit([](auto const& y) { return dump(y); }, e);
	return o + ">";
}
static std::string dump(css::complex_selector const& x) { return seq(x.value()); }
static std::string dump(css::relative_selector const& x) { return seq(x.value()); }
template <typename V> static std::string many(V const& v)
{
	std::string o = "{";
	for (auto const& e : v) o += dump(e);
	return o + "}";
}
static std::string dump(css::relative_selector_list const& x) { return many(x.value()); }
static std::string dump(css::simple_selector_list const& x) { return many(x.value()); }
static std::string dump(css::compound_selector_list const& x) { return many(x.value()); }
static std::string dump(css::complex_selector_list const& x) { return many(x.value()); }
static std::string dump(css::selector_list const& x) { return dump(x.value()); }

template <typename X> static std::string show(X const& x)
{
	if (static_cast<bool>(x) == !x) return "both matched and not matched";
	return x ? dump(x) : "fail";
}

template <typename X> static std::string read(std::u32string const& s, css::parse_context& ctx, int route)
{
	auto const keep = ctx.m_namespace_uris;
	std::string o;
	if (route == 0) { X x = css::parse_grammar<X>(std::u32string(s), ctx); X y(x); o = show(y); }
	else if (route == 1)
	{
		std::vector<css::syntax_primitive> v = css::parse_list_of_component_values(std::u32string(s));
		X x = css::parse_grammar<X>(std::move(v), ctx);
		o = show(x);
	}
	else
	{
		for (X const& x : css::parse_comma_list<X>(std::u32string(s), ctx)) o += show(x) + " ";
	}
	if (ctx.m_namespace_uris != keep) o += " namespaces changed";
	return o;
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::size_t i, std::vector<std::string> const& args)
	{
		static std::vector<std::string> ls = vf::lines(args.at(0));
		vf::ev(ls.at(i));
		// production route text namespaces
		std::vector<std::string> f = vf::split(ls[i], ' ');
		css::parse_context ctx;
		for (std::string const& p : vf::split(f[3], '&'))
		{
			std::vector<std::string> b = vf::split(p, '=');
			if (b.size() == 2) ctx.m_namespace_uris[cast(b[0])] = cast(b[1]);
		}
		std::u32string s = cast(f[2]);
		int route = std::stoi(f[1]);
		std::string o;
#define P(X) else if (f[0] == #X) o = read<css::X>(s, ctx, route)
		if (false) {}
		P(combinator); P(ns_prefix); P(wq_name); P(id_selector); P(class_selector); P(attr_matcher); P(attr_modifier);
		P(pseudo_class_selector); P(pseudo_element_selector); P(attribute_selector); P(subclass_selector); P(type_selector);
		P(simple_selector); P(compound_selector); P(complex_selector); P(relative_selector); P(relative_selector_list);
		P(simple_selector_list); P(compound_selector_list); P(complex_selector_list); P(selector_list);
		vf::ev(o.substr(0, 200));
		vf::result(i, o);
	});
}
