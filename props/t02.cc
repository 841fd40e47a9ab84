/* Order of timestamps */

#include "civil.h"
#include "exceptions.h"
#include <algorithm>

using namespace pbt;

/** A stamp which is close to (or the same as) t in time, but perhaps in a different zone */
static Stamp near(Src& s, Stamp const& t)
{
	Stamp u = t;
	if (s.chance(70)) {
		u.offset = gen_offset(s);
	}
	static std::vector<int64_t> const unit = {0, 1, 1000, 60000, 3600000, 86400000, int64_t(86400000) * 31, int64_t(86400000) * 366};
	int64_t delta = 0;
	switch (s.weighted({30, 50, 20})) {
	case 0:
		break;
	case 1:
		delta = s.pick(unit) * s.irange(-70, 70);
		break;
	default:
		delta = s.pick(unit) * s.irange(-3, 3) + s.pick(unit) * s.irange(-70, 70);
	}
	u.set_clock(t.instant() + delta + u.offset * int64_t(60000));
	return u;
}

static void compare(dcp::LocalTime const& a, int64_t ia, dcp::LocalTime const& b, int64_t ib)
{
	check_eq(a == b, ia == ib, "==");
	check_eq(a != b, ia != ib, "!=");
	check_eq(a < b, ia < ib, "<");
	check_eq(a <= b, ia <= ib, "<=");
	check_eq(a > b, ia > ib, ">");
	check_eq(a >= b, ia >= ib, ">=");
}

static Register pairs("pairs", 800000, 20000000, "offsets differ or the times are less than a minute apart", [](Src& s) {
	gen_zone(s);
	auto const a = gen_stamp(s, 1500, 9800);
	auto const b = near(s, a);
	if (b.year < 1410 || b.year > 9950) {
		s.discard();
	}
	s.note("a", a.text(true, true));
	s.note("b", b.text(true, true));
	s.nontrivial_if(a.offset != b.offset || std::abs(a.instant() - b.instant()) < 60000);
	s.label(a.instant() == b.instant() ? "equal" : "different");
	if (a.offset != b.offset) {
		s.label("different offset");
	}
	int const how = s.irange(0, 1);
	auto x = a.make(how);
	auto y = b.make(how);
	compare(x, a.instant(), y, b.instant());
	compare(y, b.instant(), x, a.instant());
	compare(x, a.instant(), x, a.instant());
	/* Comparison does not change what is compared */
	check_stamp(x, a, "after comparison");
	check_stamp(y, b, "after comparison");
});

static Register sorting("sorting", 100000, 2000000, "at least three times, in two zones", [](Src& s) {
	gen_zone(s);
	std::vector<Stamp> stamps;
	auto const base = gen_stamp(s, 1500, 9800);
	std::set<int> zones;
	std::string n;
	while (s.more(static_cast<int>(stamps.size()), 2, 12, 80)) {
		stamps.push_back(near(s, stamps.empty() || s.chance(30) ? base : stamps[s.draw(stamps.size() - 1)]));
		if (stamps.back().year < 1410 || stamps.back().year > 9950) {
			s.discard();
		}
		zones.insert(stamps.back().offset);
		n += stamps.back().text(true, true) + " ";
	}
	s.note("times", n);
	s.nontrivial_if(stamps.size() >= 3 && zones.size() >= 2);
	std::vector<dcp::LocalTime> v;
	std::vector<int64_t> want;
	for (auto const& i: stamps) {
		v.push_back(i.make(0));
		want.push_back(i.instant());
	}
	/* A simple sort, which can't be broken by a bad operator< */
	for (size_t i = 0; i < v.size(); ++i) {
		for (size_t j = 0; j + 1 < v.size(); ++j) {
			if (v[j + 1] < v[j]) {
				std::swap(v[j], v[j + 1]);
				std::swap(stamps[j], stamps[j + 1]);
			}
		}
	}
	std::sort(want.begin(), want.end());
	for (size_t i = 0; i < v.size(); ++i) {
		check_eq(stamps[i].instant(), want[i], "instant of sorted time", std::to_string(i));
	}
});

static Register offsets("offsets", 200000, 4000000, "the hours or the minutes are the same", [](Src& s) {
	gen_zone(s);
	auto const a = gen_offset(s);
	auto b = gen_offset(s);
	if (s.chance(60)) {
		b = s.pick({a, -a, a + 60, a - 60, a + 1, a - 1, a / 60 * 60});
	}
	s.note("a", a);
	s.note("b", b);
	s.nontrivial_if(a / 60 == b / 60 || a % 60 == b % 60);
	dcp::UTCOffset const x(a / 60, a % 60);
	dcp::UTCOffset const y(b / 60, b % 60);
	check_eq(x == y, a == b, "equality of offsets");
	check_eq(x != y, a != b, "inequality of offsets");
	check_eq(x.hour(), static_cast<int>(a / 60), "hour");
	check_eq(x.minute(), static_cast<int>(a % 60), "minute");

	/* Turn one into the other, perhaps with values that aren't allowed */
	auto z = x;
	auto set = [&](bool hour, int v, int limit) {
		auto const before = z;
		try {
			if (hour) {
				z.set_hour(v);
			} else {
				z.set_minute(v);
			}
			check(std::abs(v) <= limit, "accepted " + std::to_string(v));
			check(z == (hour ? dcp::UTCOffset(v, before.minute()) : dcp::UTCOffset(before.hour(), v)), "not set to " + std::to_string(v));
		} catch (dcp::ProgrammingError&) {
			check(std::abs(v) > limit, "refused " + std::to_string(v));
			check(z == before, "changed though refused");
		}
	};
	set(true, s.edgy(-20, 20, {-15, -14, 14, 15}), 14);
	set(false, s.edgy(-70, 70, {-60, -59, 59, 60}), 59);
	set(true, b / 60, 14);
	set(false, b % 60, 59);
	check(z == y || std::abs(b / 60) > 14, "set to another offset but not equal to it");
});
