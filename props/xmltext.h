/* Writing XML by hand */

#ifndef VERIF_XMLTEXT_H
#define VERIF_XMLTEXT_H

#include <string>

namespace model {

inline std::string escape(std::string t)
{
	std::string r;
	for (auto c: t) {
		switch (c) {
		case '&': r += "&amp;"; break;
		case '<': r += "&lt;"; break;
		case '>': r += "&gt;"; break;
		case '"': r += "&quot;"; break;
		default: r += c;
		}
	}
	return r;
}

inline std::string tag(std::string name, std::string content)
{
	return "<" + name + ">" + escape(content) + "</" + name.substr(0, name.find(' ')) + ">\n";
}

}

#endif
