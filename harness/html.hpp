#pragma once
// Rendering of HTML trees.
#include "common.hpp"

#include <wordring/html/simple_html.hpp>
#include <wordring/encoding/encoding.hpp>

#include <list>
#include <set>

namespace html = wordring::html;

template <typename S> static std::string t8(S const& s)
{
	std::u8string u = wordring::encoding_cast<std::u8string>(s);
	return std::string(u.begin(), u.end());
}

struct ids { std::string pub, sys; bool seen = false; };

static char const* ns_tag(html::ns_name n)
{
	switch (n)
	{
	case html::ns_name::HTML:   return "html";
	case html::ns_name::SVG:    return "svg";
	case html::ns_name::MathML: return "math";
	case html::ns_name::XLink:  return "xlink";
	case html::ns_name::XML:    return "xml";
	case html::ns_name::XMLNS:  return "xmlns";
	default: return static_cast<int>(n) == 0 ? "" : "?";
	}
}

// The rendering of a subtree, with the shape of the tree checked on the way.
template <typename It>
static void dump(It it, int d, std::string& out, ids const* id)
{
	for (auto c = it.begin(); c != it.end(); ++c)
	{
		VF_CHECK(c.parent() == it, "a child's parent is not the node it was reached from");
		out += "| " + std::string(static_cast<std::size_t>(d) * 2, ' ');
		if (c->is_text())
		{
			VF_CHECK(!c->data().empty(), "an empty text node");
			VF_CHECK(c.begin() == c.end(), "a text node has children");
			out += "\"" + t8(c->data()) + "\"\n";
			continue;
		}
		if (c->is_element())
		{
			std::string ns = ns_tag(c->namespace_uri_name());
			out += "<" + (ns == "html" ? "" : ns + " ") + t8(c->local_name()) + ">\n";
			std::set<std::string> names;
			for (auto a = c->begin(); a != c->end(); ++a)
			{
				std::string an = ns_tag(a->namespace_uri_name());
				std::string q = (an.empty() ? "" : an + " ") + (a->prefix().empty() ? "" : t8(a->prefix()) + ":") + t8(a->local_name());
				VF_CHECK(names.insert(q).second, "an element has the same attribute twice");
				out += "| " + std::string(static_cast<std::size_t>(d) * 2 + 2, ' ') + q + "=\"" + t8(a->value()) + "\"\n";
			}
			dump(c, d + 1, out, id);
		}
		else if (c->is_comment()) out += "<!-- " + t8(c->data()) + " -->\n";
		else if (c->is_document_type())
		{
			out += "<!DOCTYPE " + t8(c->name());
			if (id) out += " \"" + id->pub + "\" \"" + id->sys + "\"";
			out += ">\n";
		}
		else out += "?\n";
	}
}

static char mode(html::document_mode_name m)
{
	return m == html::document_mode_name::NoQuirks ? 'N' : m == html::document_mode_name::LimitedQuirks ? 'L' : m == html::document_mode_name::Quirks ? 'Q' : '?';
}

template <typename It>
static std::string document(It doc, ids const* id)
{
	VF_CHECK(doc->is_document(), "the root is not a document");
	std::string o(1, mode(doc->document_mode_name()));
	o += "\n";
	std::size_t elements = 0;
	for (auto c = doc.begin(); c != doc.end(); ++c)
	{
		VF_CHECK(!c->is_text(), "the document has a text child");
		if (c->is_element()) ++elements;
	}
	VF_CHECK(elements == 1, "the document has not one element child");
	dump(doc, 0, o, id);
	return o;
}
