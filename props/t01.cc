/* Timestamps as text */

#include "civil.h"
#include <sstream>

using namespace pbt;

/** As the XML Schema form which LocalTime says it takes */
static bool digits(std::string const& s, size_t from, size_t n)
{
	for (size_t i = from; i < from + n; ++i) {
		if (i >= s.size() || s[i] < '0' || s[i] > '9') {
			return false;
		}
	}
	return true;
}

/** @param unclaimed set to true if the text has the right form but there's no such zone, or might be no such time */
static bool parse(std::string const& s, Stamp& t, bool& unclaimed)
{
	if (s.size() < 19 || s[4] != '-' || s[7] != '-' || s[10] != 'T' || s[13] != ':' || s[16] != ':') {
		return false;
	}
	if (!digits(s, 0, 4) || !digits(s, 5, 2) || !digits(s, 8, 2) || !digits(s, 11, 2) || !digits(s, 14, 2) || !digits(s, 17, 2)) {
		return false;
	}
	auto num = [&](size_t p, size_t n) { return std::stoi(s.substr(p, n)); };
	t.year = num(0, 4);
	t.month = num(5, 2);
	t.day = num(8, 2);
	t.hour = num(11, 2);
	t.minute = num(14, 2);
	t.second = num(17, 2);
	if (t.month < 1 || t.month > 12 || t.day < 1 || t.day > month_length(t.year, t.month) || t.hour > 24 || t.minute > 59 || t.second > 60) {
		return false;
	}
	/* Midnight at the end of a day, and leap seconds, could be allowed or not */
	unclaimed = t.hour == 24 || t.second == 60;
	t.ms = 0;
	t.offset = 0;
	size_t p = 19;
	if (p < s.size() && s[p] == '.') {
		++p;
		int n = 0;
		int scale = 100;
		while (digits(s, p, 1)) {
			t.ms += (s[p] - '0') * scale;
			scale /= 10;
			++p;
			++n;
		}
		if (n == 0) {
			return false;
		}
	}
	if (p == s.size()) {
		return true;
	}
	if (s[p] == 'Z') {
		return p + 1 == s.size();
	}
	if ((s[p] != '+' && s[p] != '-') || s.size() - p != 6 || !digits(s, p + 1, 2) || s[p + 3] != ':' || !digits(s, p + 4, 2)) {
		return false;
	}
	int const m = num(p + 4, 2);
	t.offset = num(p + 1, 2) * 60 + m;
	if (m > 59 || t.offset >= 15 * 60) {
		return false;
	}
	/* There are no such places */
	unclaimed = unclaimed || t.offset > 14 * 60;
	if (s[p] == '-') {
		t.offset = -t.offset;
	}
	return true;
}

static std::string gen_text(Src& s, Stamp& t)
{
	auto text = t.date() + "T" + t.time(true, false);
	if (s.chance(60)) {
		int const n = s.weighted({0, 1, 1, 3, 1, 1, 2, 1, 1, 2});
		std::string f;
		if (n == 3) {
			char b[8];
			snprintf(b, sizeof(b), "%03d", t.ms);
			f = b;
		} else {
			for (int i = 0; i < n; ++i) {
				f += static_cast<char>('0' + s.draw(9));
			}
			t.ms = 0;
			int scale = 100;
			for (auto c: f) {
				t.ms += (c - '0') * scale;
				scale /= 10;
			}
		}
		s.label(n < 3 ? "short fraction" : (n == 3 ? "three digits" : "long fraction"));
		text += "." + f;
	} else {
		t.ms = 0;
	}
	switch (s.weighted({15, 15, 70})) {
	case 0:
		t.offset = 0;
		break;
	case 1:
		t.offset = 0;
		text += "Z";
		s.label("Z");
		break;
	default:
		if (t.offset == 0 && s.boolean()) {
			text += "-00:00";
		} else {
			text += t.zone();
		}
		s.label(t.offset < 0 ? (t.offset > -60 ? "offset between -1h and 0" : "offset < 0") : "offset >= 0");
	}
	return text;
}

static Register accepts("accepts", 600000, 15000000, "has a fraction or an offset", [](Src& s) {
	gen_zone(s);
	auto t = gen_stamp(s, 0, 9999);
	auto const text = gen_text(s, t);
	s.note("text", text);
	s.nontrivial_if(text.size() > 19);
	dcp::LocalTime const got(text);
	check_stamp(got, t, "parsed");
	check_eq(got.as_string(), t.text(false, true), "as_string()");
	check_eq(got.as_string(false, false), t.text(false, false), "as_string(false, false)");
	check_eq(got.as_string(true, false), t.text(true, false), "as_string(true, false)");
	check_eq(got.date(), t.date(), "date()");
	check_eq(got.time_of_day(true, true), t.time(true, true), "time_of_day(true, true)");
	check_eq(got.time_of_day(true, false), t.time(true, false), "time_of_day(true, false)");
	check_eq(got.time_of_day(false, false), t.time(false, false), "time_of_day(false, false)");
	std::ostringstream o;
	o << got;
	check_eq(o.str(), t.text(false, true), "operator<<");
});

static Register roundtrip("roundtrip", 600000, 15000000, "has an offset which is not zero", [](Src& s) {
	gen_zone(s);
	auto t = gen_stamp(s);
	s.note("time", t.text(true, true));
	s.nontrivial_if(t.offset != 0);
	dcp::LocalTime const a = t.make(1);
	check_eq(a.as_string(true, true), t.text(true, true), "text of a time made from its parts");
	dcp::LocalTime const b(a.as_string(true, true));
	check(a == b, "parse(print(t)) is not equal to t");
	check_stamp(b, t, "parse(print(t))");
	/* Hour and minute only */
	dcp::LocalTime c(t.year, t.month, t.day, t.hour, t.minute, t.utc_offset());
	auto u = t;
	u.second = u.ms = 0;
	check_stamp(c, u, "constructed from parts");
	check_stamp(dcp::LocalTime(c.as_string()), u, "parse(print(t)) of time constructed from parts");
	/* Setters */
	auto v = gen_stamp(s);
	c.set_year(v.year);
	c.set_month(v.month);
	c.set_day(v.day);
	c.set_offset(v.utc_offset());
	u.year = v.year;
	u.month = v.month;
	u.day = v.day;
	u.offset = v.offset;
	check_stamp(c, u, "after setting date and offset");
});

static Register rejects("rejects", 600000, 15000000, "the model says that the text is not a time", [](Src& s) {
	gen_zone(s);
	auto t = gen_stamp(s, 0, 9999);
	auto text = gen_text(s, t);
	for (int n = 0; s.more(n, 1, 3, 25); ++n) {
		static std::string const junk = "0123456789:TZ. x/\t\"z+-";
		size_t const p = s.draw(text.size());
		switch (s.weighted({20, 15, 15, 15, 20, 15})) {
		case 0:
			text = text.substr(0, p);
			break;
		case 1:
			if (p < text.size()) {
				text.erase(p, 1);
			}
			break;
		case 2:
			text.insert(p, 1, junk[s.draw(junk.size() - 1)]);
			break;
		case 3:
			text += s.str(junk, 1, 6);
			break;
		case 4:
		{
			/* Some other number in one of the fields */
			auto const f = s.pick<size_t>({2, 5, 8, 11, 14, 17});
			auto const n = s.boolean() ? s.draw(99) : s.pick<uint64_t>({0, 12, 13, 23, 24, 28, 29, 30, 31, 32, 59, 60, 61});
			if (f + 2 <= text.size()) {
				text[f] = static_cast<char>('0' + n / 10);
				text[f + 1] = static_cast<char>('0' + n % 10);
			}
			break;
		}
		default:
			if (p < text.size()) {
				text[p] = junk[s.draw(junk.size() - 1)];
			}
		}
	}
	s.note("text", text);
	Stamp want;
	bool unclaimed = false;
	bool const valid = parse(text, want, unclaimed);
	if (unclaimed) {
		s.discard();
	}
	s.label(valid ? "still valid" : "invalid");
	s.nontrivial_if(!valid);
	bool threw = false;
	std::string got;
	try {
		dcp::LocalTime x(text);
		got = x.as_string(true, true);
	} catch (std::exception&) {
		threw = true;
	}
	if (valid) {
		check(!threw, "a valid time was refused");
		check_eq(got, want.text(true, true), "parsed");
	} else {
		check(threw, "text which is not a time was taken to be " + got);
	}
});
