#include "libcxml/cxml.h"
#include <libxml++/libxml++.h>

using std::make_shared;
using std::string;
using std::vector;
using boost::optional;

namespace cxml {

static bool
truth(string const& s)
{
	return s == "1" || s == "yes" || s == "True";
}

static bool
is_element(xmlpp::Node const* n)
{
	return dynamic_cast<xmlpp::Element const*>(n);
}

string
Node::name() const
{
	return _node->get_name();
}

vector<NodePtr>
Node::node_children() const
{
	vector<NodePtr> out;
	for (auto i: _node->get_children()) {
		out.push_back(make_shared<Node>(i));
	}
	return out;
}

vector<NodePtr>
Node::node_children(string const& name) const
{
	vector<NodePtr> out;
	for (auto i: _node->get_children()) {
		if (is_element(i) && i->get_name() == name) {
			out.push_back(make_shared<Node>(i));
		}
	}
	_taken.push_back(name);
	return out;
}

NodePtr
Node::node_child(string const& name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	} else if (n.empty()) {
		throw Error("missing XML tag " + name + " in " + this->name());
	}
	return n.front();
}

NodePtr
Node::optional_node_child(string const& name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	} else if (n.empty()) {
		return {};
	}
	return n.front();
}

string
Node::string_child(string const& name) const
{
	return node_child(name)->content();
}

optional<string>
Node::optional_string_child(string const& name) const
{
	auto n = optional_node_child(name);
	if (!n) {
		return {};
	}
	return n->content();
}

bool
Node::bool_child(string const& name) const
{
	return truth(string_child(name));
}

optional<bool>
Node::optional_bool_child(string const& name) const
{
	auto s = optional_string_child(name);
	if (!s) {
		return {};
	}
	return truth(*s);
}

optional<string>
Node::optional_string_attribute(string const& name) const
{
	auto e = dynamic_cast<xmlpp::Element const*>(_node);
	if (!e) {
		return {};
	}
	auto a = e->get_attribute(name);
	if (!a) {
		return {};
	}
	return string(a->get_value());
}

string
Node::string_attribute(string const& name) const
{
	auto s = optional_string_attribute(name);
	if (!s) {
		throw Error("missing attribute " + name);
	}
	return *s;
}

bool
Node::bool_attribute(string const& name) const
{
	return truth(string_attribute(name));
}

optional<bool>
Node::optional_bool_attribute(string const& name) const
{
	auto s = optional_string_attribute(name);
	if (!s) {
		return {};
	}
	return truth(*s);
}

void
Node::ignore_child(string const& name) const
{
	_taken.push_back(name);
}

void
Node::done() const
{
	for (auto i: _node->get_children()) {
		if (is_element(i) && std::find(_taken.begin(), _taken.end(), i->get_name()) == _taken.end()) {
			throw Error("unexpected XML node " + i->get_name());
		}
	}
}

string
Node::content() const
{
	string content;
	for (auto i: _node->get_children()) {
		if (dynamic_cast<xmlpp::CommentNode const*>(i) || dynamic_cast<xmlpp::ProcessingInstructionNode const*>(i)) {
			continue;
		}
		if (auto v = dynamic_cast<xmlpp::ContentNode const*>(i)) {
			content += v->get_content();
		}
	}
	return content;
}

string
Node::namespace_uri() const
{
	return _node->get_namespace_uri();
}

string
Node::namespace_prefix() const
{
	return _node->get_namespace_prefix();
}

bool
Node::is_text() const
{
	return dynamic_cast<xmlpp::TextNode const*>(_node);
}

int
Node::line() const
{
	return _node->get_line();
}

Document::Document()
	: _parser(new xmlpp::DomParser)
{

}

Document::Document(string root_name)
	: _parser(new xmlpp::DomParser)
	, _root_name(root_name)
{

}

Document::Document(string root_name, boost::filesystem::path file)
	: _parser(new xmlpp::DomParser)
	, _root_name(root_name)
{
	read_file(file);
}

Document::~Document()
{

}

void
Document::read_file(boost::filesystem::path file)
{
	if (!boost::filesystem::exists(file)) {
		throw Error("XML file " + file.string() + " does not exist");
	}

	try {
		_parser->set_substitute_entities();
		_parser->parse_file(file.string());
	} catch (std::exception& e) {
		throw Error("XML error in " + file.string() + ": " + e.what());
	}
	take_root_node();
}

void
Document::read_string(string s, bool perform_substitution)
{
	try {
		_parser->set_substitute_entities(perform_substitution);
		_parser->parse_memory(s);
	} catch (std::exception& e) {
		throw Error(string("XML error: ") + e.what());
	}
	take_root_node();
}

void
Document::take_root_node()
{
	auto document = _parser->get_document();
	_node = document ? document->get_root_node() : nullptr;
	if (!_node) {
		throw Error("could not parse XML");
	}
	if (_root_name.empty()) {
		_root_name = _node->get_name();
	} else if (_node->get_name() != _root_name) {
		throw Error("unrecognised root node " + _node->get_name() + " (expecting " + _root_name + ")");
	}
}

xmlpp::Element*
add_child(xmlpp::Element* parent, string const& name, string const& ns_prefix)
{
	return parent->add_child(name, ns_prefix);
}

void
add_text_child(xmlpp::Element* parent, string const& name, string const& text)
{
	parent->add_child(name)->add_child_text(text);
}

void
add_text_child(xmlpp::Element* parent, string const& name, string const& ns_prefix, string const& text)
{
	parent->add_child(name, ns_prefix)->add_child_text(text);
}

}
