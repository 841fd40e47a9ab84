/* Numbers to and from text */

#include "full.h"
#include "locale_convert.h"
#include "raw_convert.h"
#include <clocale>
#include <locale>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

using namespace pbt;

static std::vector<std::string> locales;

/* Locales whose decimal point is not a full stop, made here as the system need not have any */
struct Setup
{
	Setup()
	{
		at_start = []() {
			auto const dir = scratch_root() + "/locales";
			mkdir(dir.c_str(), 0755);
			locales = { "C" };
			for (auto l: { "de_DE", "fr_FR", "da_DK", "fa_IR" }) {
				auto const name = std::string(l) + ".UTF-8";
				auto const command = "localedef -c -i " + std::string(l) + " -f UTF-8 " + dir + "/" + name + " >/dev/null 2>&1";
				if (system(command.c_str()) >= 0 && access((dir + "/" + name + "/LC_NUMERIC").c_str(), R_OK) == 0) {
					locales.push_back(name);
				}
			}
			setenv("LOCPATH", dir.c_str(), 1);
		};
	}
} setup;

/** Sets the process's locale while it is in scope */
struct InLocale
{
	explicit InLocale(Src& s)
	{
		auto const l = s.pick(locales);
		s.note("locale", l);
		s.label(l);
		check(setlocale(LC_ALL, l.c_str()) != nullptr, "could not set locale " + l);
		std::locale::global(std::locale(l.c_str()));
		point = localeconv()->decimal_point;
		s.nontrivial_if(point != ".");
	}

	~InLocale()
	{
		std::locale::global(std::locale::classic());
		setlocale(LC_ALL, "C");
	}

	std::string point;
};

template <class T> T gen_int(Src& s)
{
	typedef std::numeric_limits<T> L;
	switch (s.weighted({4, 3, 3})) {
	case 0:
		return static_cast<T>(s.skewed(0, 100000));
	case 1:
	{
		/* Near a power of two or ten, or an end */
		auto const delta = static_cast<__int128>(s.range(-3, 3));
		__int128 base = 1;
		switch (s.draw(3)) {
		case 0: base <<= s.draw(64); break;
		case 1: for (auto n = s.draw(19); n > 0; --n) { base *= 10; } break;
		case 2: base = L::max(); break;
		case 3: base = L::min(); break;
		}
		if (s.boolean()) {
			base = -base;
		}
		auto v = base + delta;
		if (v < L::min()) {
			v = L::min();
		}
		if (v > L::max()) {
			v = L::max();
		}
		return static_cast<T>(v);
	}
	default:
		return static_cast<T>(s.draw(~uint64_t(0)));
	}
}

static std::string decimal(__int128 v)
{
	bool const negative = v < 0;
	std::string t;
	do {
		int d = static_cast<int>(v % 10);
		t.insert(t.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
		v /= 10;
	} while (v);
	return negative ? "-" + t : t;
}

template <class T> void integer(Src& s, std::string name, bool raw)
{
	auto const v = gen_int<T>(s);
	s.note("type", name);
	s.note("value", decimal(v));
	s.nontrivial_if(v > 255 || v < 0);
	auto const text = decimal(v);
	if constexpr (std::is_same<T, unsigned int>::value) {
		/* Can't be read this way */
		raw = false;
	}
	if (raw) {
		auto tail = s.chance(40) ? s.pick<std::string>({ " ", ".5", "x", ",", "-", "e3", ":1" }) : "";
		if (text.size() == 1 && text == "0" && tail == "x") {
			tail = "";
		}
		if constexpr (!std::is_same<T, unsigned int>::value) {
			auto const got = dcp::raw_convert<T>(text + tail);
			check(got == v, "reading " + text + tail + " as " + name + " gave " + decimal(got));
		}
	} else {
		auto const out = dcp::locale_convert<std::string>(v);
		check_eq(out, text, name + " written");
		auto const back = dcp::locale_convert<T>(out);
		check(back == v, "reading " + out + " as " + name + " gave " + decimal(back));
	}
}

static Register integers("integers", 100000, 1500000, "outside 0 to 255, or in a locale whose decimal point is not a full stop", [](Src& s) {
	InLocale in(s);
	bool const raw = s.boolean();
	s.label(raw ? "raw" : "locale");
	switch (s.draw(7)) {
	case 0: integer<unsigned char>(s, "unsigned char", raw); break;
	case 1: integer<unsigned short>(s, "unsigned short", raw); break;
	case 2: integer<int>(s, "int", raw); break;
	case 3: integer<unsigned int>(s, "unsigned int", raw); break;
	case 4: integer<long>(s, "long", raw); break;
	case 5: integer<unsigned long>(s, "unsigned long", raw); break;
	case 6: integer<long long>(s, "long long", raw); break;
	case 7: integer<unsigned long long>(s, "unsigned long long", raw); break;
	}
});

static double gen_double(Src& s)
{
	double v = 0;
	switch (s.weighted({3, 3, 2, 1})) {
	case 0: v = s.irange(0, 1000000) / 100.0; break;
	case 1: v = s.real(0, 1) * std::pow(10, s.irange(-20, 20)); break;
	case 2: v = std::ldexp(s.real(1, 2), s.irange(-300, 300)); break;
	case 3: v = static_cast<double>(s.draw(uint64_t(1) << 53)); break;
	}
	return s.chance(30) ? -v : v;
}

static std::string expected_text(double v, int precision, bool fixed, std::string point)
{
	std::ostringstream o;
	o.imbue(std::locale::classic());
	o.precision(precision);
	if (fixed) {
		o << std::fixed;
	}
	o << v;
	auto t = o.str();
	auto const p = t.find('.');
	if (p != std::string::npos) {
		t.replace(p, 1, point);
	}
	return t;
}

static Register reals("reals", 100000, 1500000, "has a fractional part, or in a locale whose decimal point is not a full stop", [](Src& s) {
	InLocale in(s);
	auto const v = gen_double(s);
	bool const single = s.chance(30) && std::fabs(v) < 1e37 && (v == 0 || std::fabs(v) > 1e-36);
	s.note("value", v);
	s.nontrivial_if(v != std::floor(v));
	if (s.boolean()) {
		s.label("locale");
		bool const fixed = s.boolean();
		int const precision = fixed ? s.irange(0, 20) : s.irange(1, 20);
		s.note("precision", precision);
		s.note("fixed", fixed);
		if (single) {
			float const f = static_cast<float>(v);
			check_eq(dcp::locale_convert<std::string>(f, precision, fixed), expected_text(f, precision, fixed, in.point), "float written");
			auto const out = dcp::locale_convert<std::string>(f, 9);
			check_eq(dcp::locale_convert<float>(out), f, "float read from " + out);
		} else {
			check_eq(dcp::locale_convert<std::string>(v, precision, fixed), expected_text(v, precision, fixed, in.point), "double written");
			auto const out = dcp::locale_convert<std::string>(v, 17);
			check_eq(dcp::locale_convert<double>(out), v, "double read from " + out);
		}
	} else {
		/* Whatever the locale, the decimal point is a full stop */
		s.label("raw");
		bool const fixed = std::fabs(v) < 1e15 && std::fabs(v) > 1e-3 && s.boolean();
		if (single) {
			float const f = static_cast<float>(v);
			auto const text = expected_text(f, fixed ? 20 : 9, fixed, ".");
			check_eq(dcp::raw_convert<float>(text), f, "float from " + text);
			check_eq(dcp::raw_convert<float>(text.c_str()), f, "float from " + text);
		} else {
			auto const text = expected_text(v, fixed ? 20 : 17, fixed, ".");
			check_eq(dcp::raw_convert<double>(text), v, "double from " + text);
			check_eq(dcp::raw_convert<double>(text.c_str()), v, "double from " + text);
			/* An integer reader stops at the point */
			if (fixed && std::fabs(v) < 2e9) {
				check_eq(dcp::raw_convert<int>(text), static_cast<int>(v), "int from " + text);
			}
		}
	}
});

static Register nonsense("nonsense", 60000, 1000000, "not empty", [](Src& s) {
	InLocale in(s);
	/* Nothing that can be read as a number */
	auto const t = s.str("xyz:,/ #%", 1, 1) + s.str("0123456789.-+xe ", 0, 8);
	s.note("text", t);
	s.nontrivial();
	check_eq(dcp::raw_convert<int>(t), 0, "int from nonsense");
	check_eq(dcp::raw_convert<long>(t), 0L, "long from nonsense");
	check_eq(dcp::raw_convert<unsigned long long>(t), 0ULL, "unsigned long long from nonsense");
	check_eq(dcp::raw_convert<double>(t), 0.0, "double from nonsense");
	check_eq(dcp::raw_convert<float>(t), 0.0f, "float from nonsense");
	/* Strings, characters and paths are passed straight through */
	check_eq(dcp::locale_convert<std::string>(t), t, "string");
	check_eq(dcp::locale_convert<std::string>(t.c_str()), t, "C string");
	check_eq(dcp::locale_convert<std::string>(t[0]), t.substr(0, 1), "character");
	check_eq(dcp::locale_convert<std::string>(boost::filesystem::path(t)), t, "path");
});
