/* Small values which are written in XML: fractions, colours, luminances, versions, names of things and keys */

#include "full.h"
#include "exceptions.h"
#include "key.h"
#include "rating.h"
#include "types.h"
#include <libxml++/libxml++.h>
#include <algorithm>
#include <fstream>

using namespace pbt;
using namespace dcp;

static int gen_part(Src& s)
{
	switch (s.weighted({3, 3, 1})) {
	case 0: return s.pick<int>({ 1, 24, 25, 30, 48, 50, 60, 96, 120, 1001, 24000, 30000, 48000, 96000 });
	case 1: return static_cast<int>(s.skewed(1, 1000000));
	default: return static_cast<int>(s.range(1, 0x7fffffff));
	}
}

static Register fractions("fractions", 200000, 3000000, "neither denominator is 1", [](Src& s) {
	Fraction a(gen_part(s), gen_part(s));
	Fraction b(gen_part(s), gen_part(s));
	if (s.chance(30)) {
		/* The same value, written differently */
		int const k = s.irange(1, 5);
		if (int64_t(a.numerator) * k < 0x7fffffff && int64_t(a.denominator) * k < 0x7fffffff) {
			b = Fraction(a.numerator * k, a.denominator * k);
		}
	}
	auto const ta = std::to_string(a.numerator) + " " + std::to_string(a.denominator);
	s.note("a", ta);
	s.note("b", b.as_string());
	s.nontrivial_if(a.denominator != 1 && b.denominator != 1);
	check_eq(a.as_string(), ta, "text");
	Fraction const back(ta);
	check_eq(back.numerator, a.numerator, "numerator read");
	check_eq(back.denominator, a.denominator, "denominator read");
	check(back == a && !(back != a), "not equal after writing and reading");
	bool const same = a.numerator == b.numerator && a.denominator == b.denominator;
	check_eq(a == b, same, "==");
	check_eq(a != b, !same, "!=");
	auto const x = static_cast<__int128>(a.numerator) * b.denominator;
	auto const y = static_cast<__int128>(b.numerator) * a.denominator;
	check_eq(a < b, x < y, "a < b");
	check_eq(b < a, y < x, "b < a");
	auto const want = static_cast<double>(a.numerator) / a.denominator;
	check(std::fabs(a.as_float() - want) <= 1e-6 * want, "as_float gave " + show(a.as_float()));
});

static Register sizes("sizes", 30000, 500000, "only one of the parts differs", [](Src& s) {
	dcp::Size const a(gen_part(s), gen_part(s));
	dcp::Size const b(s.boolean() ? a.width : gen_part(s), s.boolean() ? a.height : gen_part(s));
	bool const width = a.width == b.width;
	bool const height = a.height == b.height;
	s.note("a", std::vector<int>{ a.width, a.height });
	s.note("b", std::vector<int>{ b.width, b.height });
	s.nontrivial_if(width != height);
	check_eq(a == b, width && height, "==");
	check_eq(a != b, !(width && height), "!=");
	auto const ratio = static_cast<double>(a.width) / a.height;
	check(std::fabs(a.ratio() - ratio) <= 1e-6 * ratio, "ratio is " + show(a.ratio()));
});

static Register bad_fractions("bad_fractions", 50000, 1000000, "there are not two parts", [](Src& s) {
	std::string t;
	int parts = 1;
	for (int n = 0; s.more(n, 0, 4, 70); ++n) {
		if (n > 0) {
			t += ' ';
			++parts;
		}
		t += s.str("0123456789", 1, 4);
	}
	s.note("text", t);
	s.nontrivial_if(parts != 2);
	bool threw = false;
	try {
		Fraction f(t);
	} catch (XMLError&) {
		threw = true;
	}
	check_eq(threw, parts != 2, "refused");
});

static Register colours("colours", 100000, 2000000, "the components differ", [](Src& s) {
	Colour const c(static_cast<int>(s.edgy(0, 255, { 15, 16 })), static_cast<int>(s.edgy(0, 255, { 15, 16 })), static_cast<int>(s.edgy(0, 255, { 15, 16 })));
	s.note("colour", std::vector<int>{ c.r, c.g, c.b });
	s.nontrivial_if(c.r != c.g && c.g != c.b);
	auto hex = [](int v) {
		static char const* d = "0123456789ABCDEF";
		return std::string(1, d[v / 16]) + d[v % 16];
	};
	auto const rgb = hex(c.r) + hex(c.g) + hex(c.b);
	check_eq(c.to_rgb_string(), rgb, "RGB string");
	check_eq(c.to_argb_string(), "FF" + rgb, "ARGB string");
	/* Any alpha, either case */
	auto t = hex(s.irange(0, 255)) + rgb;
	if (s.boolean()) {
		std::transform(t.begin(), t.end(), t.begin(), ::tolower);
	}
	Colour const back(t);
	check(back == c && !(back != c), "reading " + t + " gave " + back.to_rgb_string());
	Colour other = c;
	auto& which = *s.pick<int*>({ &other.r, &other.g, &other.b });
	which = (which + s.irange(1, 255)) % 256;
	check(other != c && !(other == c), "colours which differ in one component are equal");

	auto const bad = s.chance(50) ? t.substr(0, s.irange(0, 6)) : t.substr(0, s.irange(0, 3) * 2) + "xy";
	bool threw = false;
	try {
		Colour x(bad);
	} catch (XMLError&) {
		threw = true;
	}
	check(threw, "no error from bad colour " + bad);
});

template <class T> void names(std::vector<std::pair<T, std::string>> const& all, std::string (*to)(T), T (*from)(std::string), std::string what)
{
	for (auto const& i: all) {
		check_eq(to(i.first), i.second, what + " name");
		check(from(i.second) == i.first, "wrong " + what + " from " + i.second);
	}
}

template <class T> bool refused(T (*from)(std::string), std::string t)
{
	try {
		from(t);
	} catch (std::exception&) {
		return true;
	}
	return false;
}

static std::vector<std::string> const& known_names()
{
	static std::vector<std::string> const k = {
		"none", "border", "shadow", "ltr", "rtl", "ttb", "btt", "horizontal", "vertical", "FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC",
		"FFMC", "LFMC", "FFOB", "LFOB", "final", "temp", "pre", "modified-transitional-1", "multiple-modified-transitional-1", "dci-any", "dci-specific"
	};
	return k;
}

static Register enumerations("enumerations", 4000, 60000, "not exactly a known name", [](Src& s) {
	names<Effect>({ { Effect::NONE, "none" }, { Effect::BORDER, "border" }, { Effect::SHADOW, "shadow" } }, effect_to_string, string_to_effect, "effect");
	names<Direction>({ { Direction::LTR, "ltr" }, { Direction::RTL, "rtl" }, { Direction::TTB, "ttb" }, { Direction::BTT, "btt" } }, direction_to_string, string_to_direction, "direction");
	names<Marker>({
		{ Marker::FFOC, "FFOC" }, { Marker::LFOC, "LFOC" }, { Marker::FFTC, "FFTC" }, { Marker::LFTC, "LFTC" }, { Marker::FFOI, "FFOI" }, { Marker::LFOI, "LFOI" },
		{ Marker::FFEC, "FFEC" }, { Marker::LFEC, "LFEC" }, { Marker::FFMC, "FFMC" }, { Marker::LFMC, "LFMC" }, { Marker::FFOB, "FFOB" }, { Marker::LFOB, "LFOB" }
	}, marker_to_string, marker_from_string, "marker");
	names<Status>({ { Status::FINAL, "final" }, { Status::TEMP, "temp" }, { Status::PRE, "pre" } }, status_to_string, string_to_status, "status");
	names<Formulation>({
		{ Formulation::MODIFIED_TRANSITIONAL_1, "modified-transitional-1" }, { Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1, "multiple-modified-transitional-1" },
		{ Formulation::DCI_ANY, "dci-any" }, { Formulation::DCI_SPECIFIC, "dci-specific" }
	}, formulation_to_string, string_to_formulation, "formulation");
	check(string_to_direction("horizontal") == Direction::LTR && string_to_direction("vertical") == Direction::TTB, "Interop directions");

	/* A name of something else, or one that's a bit wrong */
	auto t = s.pick(known_names());
	switch (s.draw(3)) {
	case 0: break;
	case 1: t += s.pick<char>({ ' ', 'x', '1' }); break;
	case 2: t = t.substr(0, s.draw(t.size() - 1)); break;
	case 3: t[s.draw(t.size() - 1)] ^= 0x20; break;
	}
	s.note("name", t);
	auto const i = std::find(known_names().begin(), known_names().end(), t) - known_names().begin();
	s.nontrivial_if(i == 28);
	check_eq(refused(string_to_effect, t), i >= 3, "effect refused");
	check_eq(refused(string_to_direction, t), i < 3 || i >= 9, "direction refused");
	check_eq(refused(marker_from_string, t), i < 9 || i >= 21, "marker refused");
	check_eq(refused(string_to_status, t), i < 21 || i >= 24, "status refused");
	check_eq(refused(string_to_formulation, t), i < 24 || i >= 28, "formulation refused");
});

static Register luminances("luminances", 30000, 600000, "the value is not a whole number", [](Src& s) {
	auto const unit = s.boolean() ? Luminance::Unit::CANDELA_PER_SQUARE_METRE : Luminance::Unit::FOOT_LAMBERT;
	auto const value = s.chance(50) ? s.irange(0, 100000) / 1000.0f : static_cast<float>(s.real(0, 200));
	s.note("value", value);
	s.note("unit", Luminance::unit_to_string(unit));
	s.nontrivial_if(value != std::floor(value));
	Luminance const l(value, unit);
	xmlpp::Document doc;
	auto root = doc.create_root_node("Root");
	l.as_xml(root, "");
	cxml::Document read("Root");
	read.read_string(doc.write_to_string("UTF-8"));
	Luminance const back(read.node_child("Luminance"));
	check(back == l, "luminance " + show(l.value()) + " became " + show(back.value()));
	check(back.unit() == l.unit(), "unit changed");
	auto const fl = unit == Luminance::Unit::FOOT_LAMBERT ? value : value / 3.426;
	check(std::fabs(l.value_in_foot_lamberts() - fl) < 1e-4 * (1 + fl), "value in foot-lamberts is " + show(l.value_in_foot_lamberts()));
	/* Equality is to within about 0.001 */
	auto const delta = s.real(0.002, 5);
	check(!(Luminance(value + delta, unit) == l), "different luminances are equal");
	check(Luminance(value + 0.0002f, unit) == l, "almost the same luminances are unequal");
	check(!(Luminance(value, unit == Luminance::Unit::FOOT_LAMBERT ? Luminance::Unit::CANDELA_PER_SQUARE_METRE : Luminance::Unit::FOOT_LAMBERT) == l), "units ignored");
	bool threw = false;
	try {
		Luminance bad(-s.real(0.001, 100), unit);
	} catch (MiscError&) {
		threw = true;
	}
	check(threw, "negative luminance accepted");
});

static Register small_xml("small_xml", 30000, 500000, "the text needs escaping or is not ASCII", [](Src& s) {
	/* Content versions and ratings */
	auto const a = full::text(s, 0, 8);
	auto const b = full::text(s, 0, 8);
	s.note("a", a);
	s.note("b", b);
	s.nontrivial_if((a + b).find_first_of("<>&\"") != std::string::npos || std::any_of(a.begin(), a.end(), [](char c) { return c & 0x80; }));
	xmlpp::Document doc;
	auto root = doc.create_root_node("Root");
	ContentVersion(a, b).as_xml(root);
	Rating const r(a, b);
	r.as_xml(cxml::add_child(root, "Rating"));
	cxml::Document read("Root");
	read.read_string(doc.write_to_string("UTF-8"));
	ContentVersion const cv(read.node_child("ContentVersion"));
	check_eq(cv.id, a, "version ID");
	check_eq(cv.label_text, b, "version label");
	Rating const back(read.node_child("Rating"));
	check(back == r && back.agency == a && back.label == b, "rating changed to " + back.agency + ", " + back.label);
	check(!(Rating(a + "x", b) == r) && !(Rating(a, b + "x") == r), "different ratings are equal");
	check(ContentVersion(a).id != ContentVersion(a).id, "two new versions have the same ID");
});

static Register ratings("ratings", 800, 4000, "more than one system", [](Src& s) {
	/* A file of systems of ratings */
	struct System
	{
		std::vector<std::string> head;
		std::vector<std::string> labels;
	};
	std::vector<System> want;
	auto word = [&]() { return s.str("abcXYZ09/+-.: ", 1, 8); };
	auto trimmed = [](std::string t) {
		auto const b = t.find_first_not_of(" ");
		return b == std::string::npos ? std::string() : t.substr(b, t.find_last_not_of(" ") - b + 1);
	};
	std::string text;
	std::string const ending = s.pick({std::string("\n"), std::string("\n"), std::string("\r\n")});
	for (int n = 0; s.more(n, 1, 4, 60); ++n) {
		System y;
		y.head.push_back((s.boolean() ? "http://" : "https://") + trimmed(word()));
		for (int i = 0; i < 3; ++i) {
			y.head.push_back("x" + word());
		}
		for (int i = 0; s.more(i, 0, 5, 70); ++i) {
			y.labels.push_back("R" + word());
		}
		for (auto& i: y.head) {
			text += i + ending;
			i = trimmed(i);
		}
		for (auto& i: y.labels) {
			text += i + ending;
			i = trimmed(i);
		}
		want.push_back(y);
	}
	if (s.boolean()) {
		text.resize(text.size() - ending.size());
	}
	s.note("file", text);
	s.nontrivial_if(want.size() > 1);
	auto const file = s.scratch() + "/ratings";
	std::ofstream(file, std::ios::binary) << text;
	auto const before = rating_systems().size();
	load_rating_list(file);
	auto const got = rating_systems();
	check_eq(got.size(), before + want.size(), "number of systems");
	for (size_t i = 0; i < want.size(); ++i) {
		auto const& g = got[before + i];
		check_eq(g.agency, want[i].head[0], "agency");
		check_eq(g.name, want[i].head[1], "name");
		check_eq(g.country_and_region_names, want[i].head[2], "country and region");
		check_eq(g.country_code, want[i].head[3], "code of country");
		check_eq(g.ratings.size(), want[i].labels.size(), "number of ratings");
		for (size_t j = 0; j < g.ratings.size(); ++j) {
			check_eq(g.ratings[j].agency, want[i].head[0], "agency of rating");
			check_eq(g.ratings[j].label, want[i].labels[j], "label of rating");
		}
	}
	bool threw = false;
	try {
		load_rating_list(file + "x");
	} catch (FileError&) {
		threw = true;
	}
	check(threw, "no error for a file which does not exist");
});

static Register keys("keys", 40000, 600000, "a key is replaced by one of another length", [](Src& s) {
	auto const bytes = s.bytes(1, 40);
	auto const other = s.chance(30) ? bytes : s.bytes(1, 40);
	s.note("a", bytes);
	s.note("b", other);
	s.nontrivial_if(bytes.size() != other.size());
	Key const a(bytes.data(), static_cast<int>(bytes.size()));
	Key const b(other.data(), static_cast<int>(other.size()));
	check(std::vector<uint8_t>(a.value(), a.value() + a.length()) == bytes, "key does not have the value it was given");
	std::string hex;
	for (auto i: bytes) {
		char t[3];
		snprintf(t, 3, "%02x", i);
		hex += t;
	}
	check_eq(a.hex(), hex, "hex");
	check(Key(hex) == a, "reading hex does not give the same key");
	check_eq(a == b, bytes == other, "==");
	check_eq(a != b, bytes != other, "!=");
	Key c(b);
	check(c == b, "copy is different");
	c = a;
	check(c == a && c.length() == a.length() && c.hex() == hex, "assigned key is different");
	c = *&c;
	check(c == a, "self-assignment changed a key");
	check(Key() != Key() && Key().length() == 16, "new keys are not random or not the right length");
});
