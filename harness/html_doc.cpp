// make_document, driven case by case from a file of hex-coded inputs.
#include "html.hpp"

template <typename Tree>
static std::string whole(Tree t)
{
	auto r = t.begin();
	VF_CHECK(r != t.end(), "make_document returned an empty tree");
	std::string o = document(r, nullptr);
	VF_CHECK(++r == t.end(), "make_document left more than the document in the tree");
	return o;
}

int main(int argc, char** argv)
{
	return vf::drive(argc, argv, [](vf::rng&, std::size_t i, std::vector<std::string> const& args)
	{
		static std::vector<std::string> ls = vf::lines(args.at(0));
		vf::ev(ls.at(i).substr(0, 4000));
		// input encoding confidence bytes
		std::vector<std::string> f = vf::split(ls[i], ' ');
		std::string b = vf::unhex(f[3]);
		auto enc = static_cast<wordring::encoding_name>(std::stoul(f[1]));
		auto conf = f[2] == "T" ? html::encoding_confidence_name::tentative : f[2] == "C" ? html::encoding_confidence_name::certain : html::encoding_confidence_name::irrelevant;
		std::string o;
		switch (f[0][0])
		{
		case 'd': o = whole(html::make_document<html::u16simple_tree>(b.begin(), b.end())); break;
		case 'c': o = whole(html::make_document<html::u16simple_tree>(b.begin(), b.end(), enc, conf)); break;
		case 'l':
		{
			// Any forward iterator will do.
			std::list<char> l(b.begin(), b.end());
			o = whole(html::make_document<html::u8simple_tree>(l.begin(), l.end(), enc, conf));
			break;
		}
		case '2':
		{
			std::u16string s = wordring::encoding_cast<std::u16string>(vf::u32(b));
			o = whole(html::make_document<html::u32simple_tree>(s.begin(), s.end()));
			break;
		}
		default:
		{
			std::u32string s = vf::u32(b);
			o = whole(html::make_document<html::u8simple_tree>(s.begin(), s.end()));
		}
		}
		vf::ev(vf::hex(o.substr(0, 200)));
		vf::result(i, vf::hex(o));
	});
}
