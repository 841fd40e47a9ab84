/* Timestamps from, and to, certificates' and the system's times */

#include "civil.h"

using namespace pbt;

static Register utctime("utctime", 400000, 20000000, "year is 2000 or later", [](Src& s) {
	/* The library puts 50 to 69 in this century, although certificates should not have them */
	auto t = gen_stamp(s, 1970, 2069);
	gen_zone(s);
	t.offset = t.ms = 0;
	auto text = pad(t.year % 100, 2) + pad(t.month, 2) + pad(t.day, 2) + pad(t.hour, 2) + pad(t.minute, 2) + pad(t.second, 2);
	if (s.chance(70)) {
		text += "Z";
	}
	s.note("text", text);
	s.nontrivial_if(t.year >= 2000);
	check_stamp(dcp::LocalTime::from_asn1_utc_time(text), t, "from_asn1_utc_time");
});

static Register generalized("generalized", 400000, 20000000, "every case", [](Src& s) {
	auto t = gen_stamp(s, 1402, 9990);
	gen_zone(s);
	t.offset = t.ms = 0;
	auto text = pad(t.year, 4) + pad(t.month, 2) + pad(t.day, 2) + pad(t.hour, 2) + pad(t.minute, 2) + pad(t.second, 2);
	if (s.chance(70)) {
		text += "Z";
	}
	s.note("text", text);
	s.nontrivial();
	check_stamp(dcp::LocalTime::from_asn1_generalized_time(text), t, "from_asn1_generalized_time");
});

static Register seconds("seconds", 400000, 20000000, "the offset is not zero", [](Src& s) {
	auto t = gen_stamp(s, 1971, 9990);
	gen_zone(s);
	s.note("time", t.text(true, true));
	s.nontrivial_if(t.offset != 0);
	auto const want = (t.instant() - t.ms) / 1000;
	check_eq(static_cast<int64_t>(t.make(s.irange(0, 1)).as_time_t()), want, "as_time_t");
	/* ... and against the C library */
	struct tm tm = {};
	time_t const w = want + t.offset * 60;
	gmtime_r(&w, &tm);
	check_eq(tm.tm_year + 1900, t.year, "gmtime year");
	check_eq(tm.tm_mday, t.day, "gmtime day");
});

static Register system_times("system_times", 200000, 8000000, "the local zone is not UTC", [](Src& s) {
	auto t = gen_stamp(s, 1402, 9990);
	set_zone(fixed_zone(t.offset));
	s.note("time", t.text(true, true));
	s.nontrivial_if(t.offset != 0);
	switch (s.draw(2)) {
	case 0:
	{
		s.label("struct tm");
		struct tm tm = {};
		tm.tm_year = t.year - 1900;
		tm.tm_mon = t.month - 1;
		tm.tm_mday = t.day;
		tm.tm_hour = t.hour;
		tm.tm_min = t.minute;
		tm.tm_sec = t.second;
		t.ms = 0;
		check_stamp(dcp::LocalTime(tm), t, "from struct tm");
		break;
	}
	case 1:
	{
		s.label("ptime");
		using namespace boost;
		posix_time::ptime p(
			gregorian::date(t.year, t.month, t.day),
			posix_time::hours(t.hour) + posix_time::minutes(t.minute) + posix_time::seconds(t.second)
			+ posix_time::microseconds(t.ms * 1000 + s.irange(0, 999))
			);
		check_stamp(dcp::LocalTime(p), t, "from ptime in local zone");
		/* and with a zone given */
		auto const other = gen_offset(s);
		auto u = t;
		u.offset = other;
		check_stamp(dcp::LocalTime(p, u.utc_offset()), u, "from ptime with offset");
		break;
	}
	default:
	{
		s.label("now");
		auto const before = time(nullptr);
		dcp::LocalTime now;
		auto const after = time(nullptr);
		auto text = now.as_string(true, true);
		check_eq(text.substr(text.size() - 6), t.zone(), "zone of now");
		auto const got = now.as_time_t();
		check(got >= before && got <= after, "LocalTime() is not now");
	}
	}
	set_zone(fixed_zone(0));
});
