/* Things shared by the checks which use the whole library (with the stand-ins for libcxml and asdcplib) */

#ifndef VERIF_FULL_H
#define VERIF_FULL_H

#include "pbt.h"
#include "util.h"
#include <asdcp/KM_prng.h>
#include <boost/filesystem.hpp>
#include <cstdlib>

namespace full {

inline std::string repo()
{
	auto r = getenv("VERIF_REPO");
	return r ? r : "/repo";
}

/** Put one of these in each harness */
struct Setup
{
	Setup()
	{
		pbt::at_start = []() { dcp::init(boost::filesystem::path(repo())); };
		/* Each case makes its own sequence of "random" IDs and keys, whichever cases came before it */
		pbt::before_case = []() { Kumu::shim_seed(0x5eed); };
	}
};

inline std::string uuid(pbt::Src& s)
{
	static char const* h = "0123456789abcdef";
	uint64_t a = s.draw(0xffffffffffffffffULL);
	uint64_t b = s.draw(0xffffffffffffffffULL);
	std::string u;
	for (int i = 0; i < 32; ++i) {
		auto& w = i < 16 ? a : b;
		int n = w & 0xf;
		w >>= 4;
		if (i == 12) {
			n = 4;
		} else if (i == 16) {
			n = (n & 3) | 8;
		}
		if (i == 8 || i == 12 || i == 16 || i == 20) {
			u += '-';
		}
		u += h[n];
	}
	return u;
}

/** Pieces of text that are allowed in XML, with a good chance of ones that need escaping or are not ASCII */
inline std::vector<std::string> const& xml_pieces()
{
	static std::vector<std::string> const p = {
		"a", "b", "Z", "0", "9", " ", "-", "_", ".", "/", ":", "&", "<", ">", "\"", "'", "%", "%1", "{}", "]]>", "&amp;", "\\",
		"\xc3\xa9", "\xc3\x9f", "\xe6\x97\xa5", "\xe2\x80\x8f", "\xd7\xa9", "\xf0\x9f\x8e\xac", "\xcc\x81", "\xc2\xa0", "\xef\xbf\xbd", "#", ";", "<!--", "<b/>"
	};
	return p;
}

/** Text with no white space at either end and no runs of white space */
inline std::string text(pbt::Src& s, int min, int max)
{
	std::string t;
	int n = 0;
	for (; s.more(n, min, max, 80); ++n) {
		auto p = s.pick(xml_pieces());
		if (p == " " && (t.empty() || t.back() == ' ')) {
			p = "x";
		}
		t += p;
	}
	if (!t.empty() && t.back() == ' ') {
		t += "y";
	}
	return t;
}

}

#endif
