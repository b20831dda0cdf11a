// Builds a DOM from a description and runs selectors on it; matched nodes are compared with the reference offline.
#include <wordring/css/selector.hpp>
#include <wordring/html/simple_html.hpp>
#include <wordring/wwwc/selectors/api.hpp>
#include "common.hpp"

namespace html = wordring::html;
namespace css = wordring::wwwc::css;

template <typename S> static S cast(std::string const& h)
{
	std::string s = vf::unhex(h);
	return wordring::encoding_cast<S>(std::u8string(s.begin(), s.end()));
}

static html::ns_name ns(std::string const& s)
{
	static html::ns_name const t[] = { static_cast<html::ns_name>(0), html::ns_name::HTML, html::ns_name::MathML, html::ns_name::SVG, html::ns_name::XLink, html::ns_name::XML, html::ns_name::XMLNS };
	return t[std::stoul(s)];
}

template <typename Tree, typename S>
static std::string run(std::vector<std::string> const& f)
{
	// type mode nodes start selector namespaces
	using node = typename Tree::value_type;
	using It = typename Tree::const_iterator;
	Tree t;
	std::vector<typename Tree::iterator> path;
	std::vector<It> all;
	for (std::string const& ns_ : vf::split(f[2], ';'))
	{
		std::vector<std::string> a = vf::split(ns_, ':');
		std::size_t depth = std::stoul(a[0]);
		path.resize(depth);
		auto put = [&](node&& n)
		{
			auto it = path.empty() ? t.insert(t.end(), std::move(n)) : t.insert(path.back().end(), std::move(n));
			path.push_back(it);
			all.push_back(It(it));
		};
		switch (a[1][0])
		{
		case '9':
		{
			typename node::document_type d;
			d.document_type(f[0] == "H" ? html::document_type_name::Html : html::document_type_name::Xml);
			d.document_mode(f[1] == "N" ? html::document_mode_name::NoQuirks : f[1] == "L" ? html::document_mode_name::LimitedQuirks : html::document_mode_name::Quirks);
			put(node(d));
			break;
		}
		case 'E':
		{
			typename node::element_type e(ns(a[2]), S(), cast<S>(a[3]));
			if (a.size() > 4 && !a[4].empty())
				for (std::string const& as : vf::split(a[4], '&'))
				{
					std::vector<std::string> b = vf::split(as, '=');
					e.push_back(html::simple_attr<S>(ns(b[0]), cast<S>(b[1]), cast<S>(b[2]), cast<S>(b[3])));
				}
			put(node(std::move(e)));
			break;
		}
		case 'T': put(node(typename node::text_type(cast<S>(a[3])))); break;
		case 'C': put(node(typename node::comment_type(cast<S>(a[3])))); break;
		case 'D': put(node(typename node::document_type_type(cast<S>(a[3]), S(), S()))); break;
		}
	}
	auto index = [&](It const& it) -> std::string
	{
		if (it == It()) return "null";
		for (std::size_t i = 0; i < all.size(); ++i) if (all[i] == it) return std::to_string(i);
		return "?";
	};
	std::vector<It> v;
	std::string first = "-";
	long start = std::stol(f[3]);
	if (f[5] == "-")
	{
		std::string s = vf::unhex(f[4]);
		std::u8string sel(s.begin(), s.end());
		switch (s.size() % 3)
		{
		case 0: wordring::css::query_selector_all(all[start], sel, std::back_inserter(v)); break;
		case 1: wordring::css::query_selector_all(all[start], wordring::encoding_cast<std::u16string>(sel), std::back_inserter(v)); break;
		default: wordring::css::query_selector_all(all[start], wordring::encoding_cast<std::u32string>(sel), std::back_inserter(v)); break;
		}
		first = index(wordring::css::query_selector(all[start], sel));
	}
	else
	{
		css::parse_context ctx;
		for (std::string const& p : vf::split(f[5], '&'))
		{
			std::vector<std::string> b = vf::split(p, '=');
			if (b.size() == 2) ctx.m_namespace_uris[cast<std::u32string>(b[0])] = cast<std::u32string>(b[1]);
		}
		css::selector_list sl = css::parse_selector(cast<std::u32string>(f[4]), ctx);
		css::selector_list copy = sl;
		It root = all[0];
		It last = root;
		++last;
		if (start < 0) css::match_selector(copy, ctx, root, last, std::back_inserter(v));
		else css::match_selector(copy, ctx, root, last, std::back_inserter(v), all[static_cast<std::size_t>(start)]);
	}
	std::string o;
	for (It const& it : v) o += index(it) + " ";
	return o + "first=" + first;
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::size_t i, std::vector<std::string> const& args)
	{
		static std::vector<std::string> ls = vf::lines(args.at(0));
		vf::ev(ls.at(i));
		std::vector<std::string> f = vf::split(ls[i], ' ');
		std::string o;
		switch (f[4].size() / 2 % 5)
		{
		case 0: case 3: o = run<html::u8simple_tree, std::u8string>(f); break;
		case 1: o = run<html::u16simple_tree, std::u16string>(f); break;
		default: o = run<html::u32simple_tree, std::u32string>(f); break;
		}
		vf::ev(o.substr(0, 200));
		vf::result(i, o);
	});
}
