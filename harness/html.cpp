// HTML parser and serializer, driven case by case from a file of hex-coded inputs.
#include "html.hpp"

template <typename Tree>
struct parser : html::simple_parser_base<parser<Tree>, Tree>
{
	using base = html::simple_parser_base<parser<Tree>, Tree>;
	using base::base;
	using typename base::node_pointer;
	using typename base::document_type_type;

	ids m_ids;

	node_pointer insert_document_type(node_pointer pos, document_type_type&& d)
	{
		m_ids = { t8(d.public_id()), t8(d.system_id()), true };
		return base::insert_document_type(pos, std::move(d));
	}
	Tree& tree() { return this->m_c; }
};

template <typename Tree>
static void feed(parser<Tree>& p, std::u32string const& s)
{
	for (char32_t c : s) p.push_code_point(c);
	p.push_eof();
}

template <typename It>
static void preorder(It it, std::vector<It>& v)
{
	v.push_back(it);
	for (auto c = it.begin(); c != it.end(); ++c) preorder(It(c), v);
}

template <typename S, typename It>
static std::string serialize(It it)
{
	S s;
	html::to_string(it, std::back_inserter(s));
	return t8(s);
}

template <typename S> static S cast(std::string const& h)
{
	std::string s = vf::unhex(h);
	return wordring::encoding_cast<S>(std::u8string(s.begin(), s.end()));
}

static html::ns_name ns(std::string const& s)
{
	static html::ns_name const t[] = { static_cast<html::ns_name>(0), html::ns_name::HTML, html::ns_name::MathML, html::ns_name::SVG, html::ns_name::XLink, html::ns_name::XML, html::ns_name::XMLNS };
	return t[std::stoul(s)];
}

// A tree put together node by node: depth:kind:namespace:prefix:name:attributes
template <typename Tree>
static void build(Tree& t, std::string const& spec)
{
	using node = typename Tree::value_type;
	using S = typename node::string_type;
	std::vector<typename Tree::iterator> path;
	for (std::string const& line : vf::split(spec, ';'))
	{
		std::vector<std::string> a = vf::split(line, ':');
		path.resize(std::stoul(a[0]));
		auto put = [&](node&& n) { path.push_back(path.empty() ? t.insert(t.end(), std::move(n)) : t.insert(path.back().end(), std::move(n))); };
		switch (a[1][0])
		{
		case '9': put(node(typename node::document_type())); break;
		case 'F': put(node(typename node::document_fragment_type())); break;
		case 'T': put(node(typename node::text_type(cast<S>(a[4])))); break;
		case 'C': put(node(typename node::comment_type(cast<S>(a[4])))); break;
		case 'D': put(node(typename node::document_type_type(cast<S>(a[4]), S(), S()))); break;
		case 'I':
		{
			typename node::processing_instruction_type pi;
			pi.target(cast<S>(a[3]));
			pi.data(cast<S>(a[4]));
			put(node(pi));
			break;
		}
		default:
		{
			typename node::element_type e(ns(a[2]), cast<S>(a[3]), cast<S>(a[4]));
			if (a.size() > 5 && !a[5].empty())
				for (std::string const& as : vf::split(a[5], '&'))
				{
					std::vector<std::string> b = vf::split(as, '=');
					e.push_back(html::simple_attr<S>(ns(b[0]), cast<S>(b[1]), cast<S>(b[2]), cast<S>(b[3])));
				}
			put(node(std::move(e)));
		}
		}
	}
}

template <typename It>
static std::string serialize_as(std::string const& out, It root, std::size_t k)
{
	std::vector<It> v;
	preorder(root, v);
	It it = v[k % v.size()];
	return out == "1" ? serialize<std::u8string>(it) : out == "2" ? serialize<std::u16string>(it) : serialize<std::u32string>(it);
}

template <typename Tree>
static std::string run(std::vector<std::string> const& f)
{
	// P tree again earlier text | S tree out node text | B tree out node nodes | M tree in encoding confidence bytes
	if (f[0] == "P")
	{
		parser<Tree> p;
		std::u32string s = vf::u32(vf::unhex(f[4]));
		if (f[2] == "1")
		{
			// A parser used before and cleared is as good as new.
			std::u32string e = vf::u32(vf::unhex(f[3]));
			for (char32_t c : e) p.push_code_point(c);
			if (e.size() % 2) p.push_eof();
			p.clear(html::encoding_confidence_name::irrelevant, static_cast<wordring::encoding_name>(0));
			p.m_ids = ids();
		}
		feed(p, s);
		VF_CHECK(p.get_document() == p.tree().begin(), "the document is not the first node of the tree");
		return document(p.get_document(), &p.m_ids);
	}
	if (f[0] == "S")
	{
		parser<Tree> p;
		feed(p, vf::u32(vf::unhex(f[4])));
		return serialize_as(f[2], p.get_document(), std::stoul(f[3]));
	}
	if (f[0] == "B")
	{
		Tree t;
		build(t, f[4]);
		Tree const& ct = t;
		std::size_t k = std::stoul(f[3]);
		return k % 2 ? serialize_as(f[2], t.begin(), k) : serialize_as(f[2], ct.begin(), k);
	}
	VF_FAIL("unknown case", f[0]);
	return std::string();
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::size_t i, std::vector<std::string> const& args)
	{
		static std::vector<std::string> ls = vf::lines(args.at(0));
		vf::ev(ls.at(i).substr(0, 4000));
		std::vector<std::string> f = vf::split(ls[i], ' ');
		std::string o;
		switch (f[1][0])
		{
		case '1': o = run<html::u8simple_tree>(f); break;
		case '2': o = run<html::u16simple_tree>(f); break;
		default:  o = run<html::u32simple_tree>(f); break;
		}
		vf::ev(vf::hex(o.substr(0, 200)));
		vf::result(i, vf::hex(o));
	});
}
