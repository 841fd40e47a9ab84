/* Arithmetic with timestamps */

#include "civil.h"

using namespace pbt;

static void add_months(Stamp& t, int m)
{
	bool const last = t.day == month_length(t.year, t.month);
	int const n = t.year * 12 + (t.month - 1) + m;
	t.year = n / 12;
	t.month = n % 12 + 1;
	int const len = month_length(t.year, t.month);
	if (last || t.day > len) {
		t.day = len;
	}
}

static int amount(Src& s, int big)
{
	int const v = static_cast<int>(s.weighted({60, 40}) == 0 ? s.skewed(0, big) : s.range(0, big));
	return s.boolean() ? -v : v;
}

/** Apply one random operation to a time and to the model of it */
static std::string step(Src& s, dcp::LocalTime& a, Stamp& t)
{
	int64_t const day_ms = 86400000;
	switch (s.draw(3)) {
	case 0:
	{
		int const n = amount(s, 200000);
		a.add_days(n);
		t.set_clock(t.clock() + n * day_ms);
		return "add_days(" + std::to_string(n) + ")";
	}
	case 1:
	{
		int const n = amount(s, 4000);
		a.add_months(n);
		add_months(t, n);
		return "add_months(" + std::to_string(n) + ")";
	}
	case 2:
	{
		int const n = amount(s, 100000000);
		a.add_minutes(n);
		t.set_clock(t.clock() + n * int64_t(60000));
		return "add_minutes(" + std::to_string(n) + ")";
	}
	default:
	{
		int64_t n = amount(s, 2000000000);
		n *= s.pick({1, 1, 1000});
		a.add(boost::posix_time::milliseconds(n));
		t.set_clock(t.clock() + n);
		return "add(" + std::to_string(n) + "ms)";
	}
	}
}

static Register single("single", 600000, 30000000, "the date changes", [](Src& s) {
	gen_zone(s);
	auto t = gen_stamp(s, 2000, 9000);
	s.note("time", t.text(true, true));
	auto a = t.make(s.irange(0, 1));
	auto const before = t.date();
	s.note("does", step(s, a, t));
	s.nontrivial_if(t.date() != before);
	check_stamp(a, t, "result");
});

static Register small("small", 600000, 30000000, "the month changes", [](Src& s) {
	gen_zone(s);
	/* Small steps around the ends of months and years */
	auto t = gen_stamp(s, 1900, 2110);
	if (s.chance(60)) {
		t.day = month_length(t.year, t.month) - s.irange(0, 3);
	}
	auto a = t.make(1);
	s.note("time", t.text(true, true));
	int const before = t.month;
	std::string does;
	int64_t n = s.irange(0, 40);
	if (s.boolean()) {
		n = -n;
	}
	switch (s.draw(3)) {
	case 0:
		a.add_days(n);
		t.set_clock(t.clock() + n * int64_t(86400000));
		does = "add_days";
		break;
	case 1:
		a.add_months(n);
		add_months(t, n);
		does = "add_months";
		break;
	case 2:
		n *= s.pick({1, 30, 60, 1440, 1439, 1441});
		a.add_minutes(n);
		t.set_clock(t.clock() + n * int64_t(60000));
		does = "add_minutes";
		break;
	default:
		n *= s.pick({1, 1000, 3600000, 86399999, 86400000, 61001});
		a.add(boost::posix_time::milliseconds(n));
		t.set_clock(t.clock() + n);
		does = "add ms";
	}
	s.note("does", does + " " + std::to_string(n));
	s.label(does);
	s.nontrivial_if(t.month != before);
	check_stamp(a, t, "result");
});

static Register history("history", 100000, 5000000, "three or more operations", [](Src& s) {
	gen_zone(s);
	auto t = gen_stamp(s, 4000, 6000);
	s.note("time", t.text(true, true));
	auto a = t.make(0);
	int n = 0;
	for (; s.more(n, 1, 8, 80); ++n) {
		if (t.year < 2000 || t.year > 9000) {
			break;
		}
		s.note("does", step(s, a, t));
		check_stamp(a, t, "after a history of operations");
	}
	s.nontrivial_if(n >= 3);
});
