/* A model of the Gregorian calendar which shares nothing with boost::gregorian */

#ifndef VERIF_CIVIL_H
#define VERIF_CIVIL_H

#include "pbt.h"
#include <cstdlib>
#include <ctime>
#include "local_time.h"
#include <cstdio>

inline bool leap(int y)
{
	return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}

inline int month_length(int y, int m)
{
	static int const n[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
	return m == 2 && leap(y) ? 29 : n[m - 1];
}

/** Days since 1970-01-01 */
inline int64_t days_from_civil(int64_t y, int m, int d)
{
	y -= m <= 2;
	int64_t const era = (y >= 0 ? y : y - 399) / 400;
	int64_t const yoe = y - era * 400;
	int64_t const doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
	int64_t const doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
	return era * 146097 + doe - 719468;
}

inline void civil_from_days(int64_t z, int& y, int& m, int& d)
{
	z += 719468;
	int64_t const era = (z >= 0 ? z : z - 146096) / 146097;
	int64_t const doe = z - era * 146097;
	int64_t const yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
	int64_t const doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
	int64_t const mp = (5 * doy + 2) / 153;
	d = static_cast<int>(doy - (153 * mp + 2) / 5 + 1);
	m = static_cast<int>(mp < 10 ? mp + 3 : mp - 9);
	y = static_cast<int>(yoe + era * 400 + (m <= 2));
}

/** A local time and its offset from UTC */
struct Stamp
{
	int year = 2000, month = 1, day = 1, hour = 0, minute = 0, second = 0, ms = 0;
	int offset = 0; ///< minutes

	std::string date() const
	{
		char b[64];
		snprintf(b, sizeof(b), "%04d-%02d-%02d", year, month, day);
		return b;
	}

	std::string time(bool with_second, bool with_ms) const
	{
		char b[64];
		snprintf(b, sizeof(b), "%02d:%02d", hour, minute);
		std::string s = b;
		if (with_second) {
			snprintf(b, sizeof(b), ":%02d", second);
			s += b;
		}
		if (with_ms) {
			snprintf(b, sizeof(b), ".%03d", ms);
			s += b;
		}
		return s;
	}

	std::string zone() const
	{
		char b[64];
		snprintf(b, sizeof(b), "%c%02d:%02d", offset < 0 ? '-' : '+', std::abs(offset) / 60, std::abs(offset) % 60);
		return b;
	}

	std::string text(bool with_ms, bool with_zone) const
	{
		return date() + "T" + time(true, with_ms) + (with_zone ? zone() : "");
	}

	/** ms since the epoch of the reading of the clock, ignoring the offset */
	int64_t clock() const
	{
		return (((days_from_civil(year, month, day) * 24 + hour) * 60 + minute) * 60 + second) * 1000 + ms;
	}

	/** ms since the epoch, UTC */
	int64_t instant() const
	{
		return clock() - offset * int64_t(60000);
	}

	void set_clock(int64_t t)
	{
		int64_t const day_ms = 86400000;
		int64_t days = t / day_ms;
		int64_t rem = t % day_ms;
		if (rem < 0) {
			rem += day_ms;
			--days;
		}
		civil_from_days(days, year, month, day);
		ms = rem % 1000;
		second = (rem / 1000) % 60;
		minute = (rem / 60000) % 60;
		hour = static_cast<int>(rem / 3600000);
	}

	dcp::UTCOffset utc_offset() const
	{
		return dcp::UTCOffset(offset / 60, offset % 60);
	}

	/** @param how 0 to make via text, 1 via ptime */
	dcp::LocalTime make(int how) const
	{
		if (how == 0) {
			return dcp::LocalTime(text(true, true));
		}
		using namespace boost;
		return dcp::LocalTime(
			posix_time::ptime(
				gregorian::date(year, month, day),
				posix_time::hours(hour) + posix_time::minutes(minute) + posix_time::seconds(second) + posix_time::milliseconds(ms)
				),
			utc_offset()
			);
	}
};

inline int gen_offset(pbt::Src& s)
{
	switch (s.weighted({20, 35, 30, 15})) {
	case 0:
		return 0;
	case 1:
		return s.irange(-12, 14) * 60;
	case 2:
		return s.irange(-24, 28) * 30;
	default:
		return s.irange(-12 * 60, 14 * 60);
	}
}

inline Stamp gen_stamp(pbt::Src& s, int min_year = 1402, int max_year = 9990)
{
	Stamp t;
	switch (s.weighted({50, 30, 20})) {
	case 0:
		if (min_year <= 2070) {
			t.year = s.irange(std::max(min_year, 1970), std::min(max_year, 2070));
			break;
		}
		/* fall through */
	case 1:
		t.year = s.irange(min_year, max_year);
		break;
	default:
	{
		std::vector<int> v;
		for (int i: {2000, 1999, 2001, 1970, 1900, 2100, 2004, 2024, 2023, 1600, 1700, 2400, 2038, 9000, min_year, max_year}) {
			if (i >= min_year && i <= max_year) {
				v.push_back(i);
			}
		}
		t.year = s.pick(v);
	}
	}
	t.month = static_cast<int>(s.edgy(1, 12, {2, 3}));
	t.day = static_cast<int>(s.edgy(1, month_length(t.year, t.month), {28, 29, 30, 31}));
	t.hour = static_cast<int>(s.edgy(0, 23));
	t.minute = static_cast<int>(s.edgy(0, 59, {30}));
	t.second = static_cast<int>(s.edgy(0, 59));
	t.ms = static_cast<int>(s.edgy(0, 999, {1, 9, 10, 99, 100, 500}));
	t.offset = gen_offset(s);
	return t;
}

/** Check everything that can be seen of a LocalTime */
inline void check_stamp(dcp::LocalTime const& got, Stamp const& want, char const* what)
{
	using pbt::check_eq;
	check_eq(got.as_string(true, true), want.text(true, true), what);
	check_eq(got.year(), want.year, what, "year");
	check_eq(got.month(), want.month, what, "month");
	check_eq(got.day(), want.day, what, "day");
	check_eq(got.hour(), want.hour, what, "hour");
	check_eq(got.minute(), want.minute, what, "minute");
	check_eq(got.second(), want.second, what, "second");
	check_eq(got.millisecond(), want.ms, what, "millisecond");
}

inline std::string pad(int v, int n)
{
	char b[32];
	snprintf(b, sizeof(b), "%0*d", n, v);
	return b;
}

/** @return what TZ should be for a zone that is always this many minutes ahead of UTC */
inline std::string fixed_zone(int minutes)
{
	/* POSIX has the sign the other way round */
	return std::string("XXX") + (minutes < 0 ? "+" : "-") + pad(std::abs(minutes) / 60, 2) + ":" + pad(std::abs(minutes) % 60, 2);
}

/** Set the local zone */
inline void set_zone(std::string const& tz)
{
	static std::string current;
	if (tz != current) {
		setenv("TZ", tz.c_str(), 1);
		tzset();
		current = tz;
	}
}

/** Choose a local zone, which should have no effect */
inline void gen_zone(pbt::Src& s)
{
	auto const tz = s.chance(60) ? fixed_zone(0) : s.pick<std::string>({"XXX-05:30", "XXX+03:30", "XXX-14:00", "XXX+12:00", "EST5EDT,M3.2.0,M11.1.0", "XXX-10YYY,M10.1.0,M4.1.0/3", "XXX+00:45"});
	if (tz != fixed_zone(0)) {
		s.note("zone", tz);
	}
	set_zone(tz);
}

#endif
