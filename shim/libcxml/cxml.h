/* A stand-in for libcxml, which is not installed here: the part of its interface that libdcp uses, on libxml++ */

#ifndef SHIM_LIBCXML_H
#define SHIM_LIBCXML_H

#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <glibmm.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <exception>
#include <locale>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace xmlpp {
	class DomParser;
	class Element;
	class Node;
}

namespace cxml {

class Error : public std::exception
{
public:
	explicit Error(std::string const& message) : _message(message) {}
	~Error() throw () {}

	char const * what() const throw () override {
		return _message.c_str();
	}

private:
	std::string _message;
};

template <class T>
T parse_number(std::string s)
{
	s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
	std::istringstream stream(s);
	stream.imbue(std::locale::classic());
	T n = T();
	stream >> n;
	return n;
}

class Node;
typedef std::shared_ptr<Node> NodePtr;
typedef std::shared_ptr<const Node> ConstNodePtr;

class Node
{
public:
	Node() {}
	explicit Node(xmlpp::Node const* node) : _node(const_cast<xmlpp::Node*>(node)) {}

	std::string name() const;

	NodePtr node_child(std::string const& name) const;
	std::shared_ptr<Node> optional_node_child(std::string const& name) const;
	std::vector<NodePtr> node_children() const;
	std::vector<NodePtr> node_children(std::string const& name) const;

	std::string string_child(std::string const& name) const;
	boost::optional<std::string> optional_string_child(std::string const& name) const;
	bool bool_child(std::string const& name) const;
	boost::optional<bool> optional_bool_child(std::string const& name) const;

	template <class T>
	T number_child(std::string const& name) const {
		return parse_number<T>(string_child(name));
	}

	template <class T>
	boost::optional<T> optional_number_child(std::string const& name) const {
		auto s = optional_string_child(name);
		if (!s) {
			return {};
		}
		return parse_number<T>(*s);
	}

	std::string string_attribute(std::string const& name) const;
	boost::optional<std::string> optional_string_attribute(std::string const& name) const;
	bool bool_attribute(std::string const& name) const;
	boost::optional<bool> optional_bool_attribute(std::string const& name) const;

	template <class T>
	T number_attribute(std::string const& name) const {
		return parse_number<T>(string_attribute(name));
	}

	template <class T>
	boost::optional<T> optional_number_attribute(std::string const& name) const {
		auto s = optional_string_attribute(name);
		if (!s) {
			return {};
		}
		return parse_number<T>(*s);
	}

	void ignore_child(std::string const& name) const;
	void done() const;

	std::string content() const;
	std::string namespace_uri() const;
	std::string namespace_prefix() const;
	bool is_text() const;
	int line() const;

	xmlpp::Node* node() const {
		return _node;
	}

protected:
	xmlpp::Node* _node = nullptr;

private:
	mutable std::vector<std::string> _taken;
};

class Document : public Node
{
public:
	Document();
	explicit Document(std::string root_name);
	Document(std::string root_name, boost::filesystem::path file);
	~Document();

	Document(Document const&) = delete;
	Document& operator=(Document const&) = delete;

	void read_file(boost::filesystem::path file);
	void read_string(std::string s, bool perform_substitution = true);

	std::string root_name() const {
		return _root_name;
	}

private:
	void take_root_node();

	std::unique_ptr<xmlpp::DomParser> _parser;
	std::string _root_name;
};

xmlpp::Element* add_child(xmlpp::Element* parent, std::string const& name, std::string const& ns_prefix = std::string());
void add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& text);
void add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& ns_prefix, std::string const& text);


}

#endif
