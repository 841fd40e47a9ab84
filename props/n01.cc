/* Names made from a format */

#include "pbt.h"
#include "name_format.h"

using namespace pbt;

static std::string clean(std::string s)
{
	for (auto& c: s) {
		if (c == '/' || c == ':') {
			c = '-';
		} else if (c == ' ') {
			c = '_';
		}
	}
	return s;
}

static std::vector<std::string> const parts = {"a", "b", "%", "%a", "%b", "%c", "%t", "%%", "/", ":", " ", "-", "_", ".", "é", "\\", "?", "x",
	"T", "%T", "%A", "%0", "0", "%x", "%X", "\n", "\t", "%_", "%-", "%\xff", "\xff", "a much longer piece of text with spaces: and / everything"};

static std::string expected(std::string const& spec, dcp::NameFormat::Map const& values, std::string const& ignore, bool& replaced)
{
	std::string want;
	for (size_t i = 0; i < spec.size(); ++i) {
		if (spec[i] == '%' && i + 1 < spec.size() && values.count(spec[i + 1]) && ignore.find(spec[i + 1]) == std::string::npos) {
			want += clean(values.at(spec[i + 1]));
			++i;
			replaced = true;
		} else {
			want += clean(std::string(1, spec[i]));
		}
	}
	return want;
}

static Register expand("expand", 900000, 12000000, "something is replaced by a value", [](Src& s) {
	auto const spec = s.str(parts, 0, 10);
	auto const suffix = s.str({"_", ".xml", "/", " ", "%a", ":", "a"}, 0, 3);
	auto const ignore = s.chance(60) ? std::string() : s.str({"a", "b", "t", "%", "x", "T", "A", "0", "\xff"}, 0, 3);
	dcp::NameFormat::Map values;
	std::string map;
	int n = 0;
	for (; s.more(n, 0, 5, 80); ++n) {
		char const key = s.pick<char>({'a', 'b', 'c', 't', 'x', '%', '/', 'T', 'A', 'X', '0', '_', '-', '\xff', '\xc3', ' '});
		values[key] = s.str(parts, 0, 4);
	}
	for (auto const& i: values) {
		map += std::string(1, i.first) + "=" + i.second + " ";
	}
	s.note("specification", spec);
	s.note("values", map);
	s.note("suffix", suffix);
	s.note("ignore", ignore);
	bool replaced = false;
	auto const want = expected(spec, values, ignore, replaced);
	s.nontrivial_if(replaced);
	dcp::NameFormat f(spec);
	auto const got = ignore.empty() && s.boolean() ? f.get(values, suffix) : f.get(values, suffix, ignore);
	check_eq(got, want + suffix, "name");
	check_eq(f.specification(), spec, "specification");
	/* It's the name of a file, not of one in a directory */
	auto const body = got.substr(0, got.size() - suffix.size());
	check(body.find_first_of("/: ") == std::string::npos, "name has things in it that can't be in filenames: " + got);
	/* The format is not used up */
	check_eq(f.get(values, suffix, ignore), want + suffix, "name the second time");
	/* and can be used with other things */
	auto other_ignore = ignore;
	auto other_suffix = suffix;
	auto other_values = values;
	switch (s.draw(3)) {
	case 0:
		other_ignore = s.pick<std::string>({"", "a", "b", "at%", "x0"});
		break;
	case 1:
		other_suffix += "z";
		break;
	case 2:
		if (!other_values.empty()) {
			other_values.begin()->second += "q";
		}
		break;
	default:
		other_values['a'] = "r";
		break;
	}
	check_eq(f.get(other_values, other_suffix, other_ignore), expected(spec, other_values, other_ignore, replaced) + other_suffix, "name with something changed");
	check_eq(f.get(values, suffix, ignore), want + suffix, "name the third time");
});

static Register equality("equality", 200000, 4000000, "the specifications are different, or set after construction", [](Src& s) {
	auto const a = s.str(parts, 0, 6);
	auto const b = s.chance(40) ? a : s.str(parts, 0, 6);
	dcp::NameFormat x(a), y;
	bool const set = s.boolean();
	if (set) {
		y.set_specification(b);
	} else {
		y = dcp::NameFormat(b);
	}
	s.note("a", a);
	s.note("b", b);
	s.nontrivial_if(a != b || set);
	check_eq(x == y, a == b, "equal");
	check_eq(y.specification(), b, "specification");
	check_eq(y.get({}, ""), clean(b), "name without values");
});
