/* K06: making messages from formats */

#include "pbt.h"
#include "compose.hpp"
#include <clocale>
#include <locale>

using pbt::check_eq;
using pbt::Register;
using pbt::Src;
using std::string;
using std::vector;

namespace {

/** Work out what should happen, as simply as possible */
string want(string const& f, vector<string> const& args)
{
	string r;
	size_t i = 0;
	while (i < f.size()) {
		if (f[i] == '%' && i + 1 < f.size() && f[i + 1] == '%') {
			r += '%';
			i += 2;
		} else if (f[i] == '%' && i + 1 < f.size() && isdigit(static_cast<unsigned char>(f[i + 1]))) {
			size_t n = 0;
			++i;
			while (i < f.size() && isdigit(static_cast<unsigned char>(f[i]))) {
				n = n * 10 + f[i++] - '0';
			}
			if (n >= 1 && n <= args.size()) {
				r += args[n - 1];
			}
		} else {
			r += f[i++];
		}
	}
	return r;
}

string format(Src& s)
{
	return s.str(vector<string>{ "%1", "%2", "%3", "%4", "%5", "%6", "%1", "%2", "%10", "%0", "%%", "%", "a", "b ", " ", "9", "0", "\xc3\xa9", "\n", "{}", "<x>", "%x", "\\" }, 0, 10);
}

string argument(Src& s)
{
	return s.str(vector<string>{ "%1", "%2", "%%", "%", "a", "b", " ", "1", "\xc3\xa9", "{}", "" }, 0, 5);
}

Register strings("strings", 300000, 6000000, "some argument is empty or contains %, or is used twice", [](Src& s) {
	auto const f = format(s);
	vector<string> a;
	int const n = s.range(1, 6);
	for (int i = 0; i < n; ++i) {
		a.push_back(argument(s));
		s.note("argument", a.back());
		if (a.back().empty() || a.back().find('%') != string::npos) {
			s.nontrivial();
		}
	}
	s.note("format", f);
	for (int i = 1; i <= n; ++i) {
		auto const spec = "%" + std::to_string(i);
		auto const p = f.find(spec);
		s.nontrivial_if(p != string::npos && f.find(spec, p + 1) != string::npos);
	}
	string got;
	switch (n) {
	case 1:
		got = dcp::String::compose(f, a[0]);
		break;
	case 2:
		got = dcp::String::compose(f, a[0], a[1]);
		break;
	case 3:
		got = dcp::String::compose(f, a[0], a[1], a[2]);
		break;
	case 4:
		got = dcp::String::compose(f, a[0], a[1], a[2], a[3]);
		break;
	case 5:
		got = dcp::String::compose(f, a[0], a[1], a[2], a[3], a[4]);
		break;
	case 6:
		got = dcp::String::compose(f, a[0], a[1], a[2], a[3], a[4], a[5]);
		break;
	}
	check_eq(got, want(f, a), "message");
});

Register others("others", 100000, 2000000, "all", [](Src& s) {
	auto const f = format(s);
	int const i = s.edgy(-2147483647, 2147483647, { -1, 0, 1 });
	int64_t const l = static_cast<int64_t>(s.draw(0xffffffffffffffffULL));
	auto const t = argument(s);
	auto const c = argument(s);
	boost::filesystem::path const p("/a/" + s.str("xyz", 1, 5));
	auto const q = s.str("abc", 1, 4);
	s.nontrivial();
	s.note("format", f);
	s.note("integer", i);
	s.note("string", t);
	auto const got = dcp::String::compose(f, i, t, l, c.c_str(), p.string(), q);
	check_eq(got, want(f, { std::to_string(i), t, std::to_string(l), c, p.string(), q }), "message");
});

}
