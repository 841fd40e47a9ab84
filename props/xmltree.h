/* XML as a tree of plain values, read by libxml2 alone */

#ifndef VERIF_XMLTREE_H
#define VERIF_XMLTREE_H

#include <libxml/parser.h>
#include <libxml/tree.h>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace tree {

struct Node
{
	std::string name;
	std::string ns;
	std::map<std::string, std::string> attributes;
	/** All the text that is directly inside */
	std::string text;
	std::vector<Node> children;

	std::vector<Node> all(std::string const& n) const
	{
		std::vector<Node> r;
		for (auto const& i: children) {
			if (i.name == n) {
				r.push_back(i);
			}
		}
		return r;
	}

	/** @param path names separated by slashes, of which there must be exactly one each */
	Node const& at(std::string const& path) const
	{
		auto const slash = path.find('/');
		auto const first = path.substr(0, slash);
		Node const* found = nullptr;
		for (auto const& i: children) {
			if (i.name == first) {
				if (found) {
					throw std::runtime_error("more than one " + first + " in " + name);
				}
				found = &i;
			}
		}
		if (!found) {
			throw std::runtime_error("no " + first + " in " + name);
		}
		return slash == std::string::npos ? *found : found->at(path.substr(slash + 1));
	}
};

inline Node convert(xmlNode* n)
{
	Node r;
	r.name = reinterpret_cast<char const*>(n->name);
	if (n->ns && n->ns->href) {
		r.ns = reinterpret_cast<char const*>(n->ns->href);
	}
	for (auto a = n->properties; a; a = a->next) {
		auto v = xmlNodeListGetString(n->doc, a->children, 1);
		r.attributes[reinterpret_cast<char const*>(a->name)] = v ? reinterpret_cast<char const*>(v) : "";
		xmlFree(v);
	}
	for (auto c = n->children; c; c = c->next) {
		if (c->type == XML_ELEMENT_NODE) {
			r.children.push_back(convert(c));
		} else if ((c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) && c->content) {
			r.text += reinterpret_cast<char const*>(c->content);
		}
	}
	return r;
}

inline Node read(std::string const& xml)
{
	auto doc = xmlReadMemory(xml.data(), static_cast<int>(xml.size()), "noname.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET);
	if (!doc) {
		throw std::runtime_error("XML is not well-formed");
	}
	auto r = convert(xmlDocGetRootElement(doc));
	xmlFreeDoc(doc);
	return r;
}

}

#endif
