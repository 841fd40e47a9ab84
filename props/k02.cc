/* Times within a DCP */

#include "full.h"
#include "dcp_time.h"
#include "exceptions.h"
#include <algorithm>

using namespace pbt;
using dcp::Time;

typedef __int128 big;

static std::vector<int> const& rates()
{
	static std::vector<int> const r = { 24, 25, 30, 48, 50, 60, 72, 96, 100, 120, 250, 999, 1000, 1, 2, 23 };
	return r;
}

static int gen_rate(Src& s)
{
	return s.chance(75) ? s.pick(rates()) : s.irange(1, 1000);
}

static std::string text(Time const& t)
{
	return std::to_string(t.h) + ":" + std::to_string(t.m) + ":" + std::to_string(t.s) + ":" + std::to_string(t.e) + "@" + std::to_string(t.tcr);
}

static Time gen_time(Src& s, std::string name, int rate = 0)
{
	if (!rate) {
		rate = gen_rate(s);
	}
	auto const h = static_cast<int>(s.edgy(0, 47, { 23, 24 }));
	auto const m = static_cast<int>(s.edgy(0, 59));
	auto const sec = static_cast<int>(s.edgy(0, 59));
	auto const e = static_cast<int>(s.edgy(0, rate - 1));
	Time t(h, m, sec, e, rate);
	s.note(name, text(t));
	return t;
}

static int64_t seconds(Time const& t)
{
	return int64_t(t.h) * 3600 + t.m * 60 + t.s;
}

/** Numerator of the time over tcr */
static big units(Time const& t)
{
	return big(seconds(t)) * t.tcr + t.e;
}

static int compare(Time const& a, Time const& b)
{
	auto const x = units(a) * b.tcr;
	auto const y = units(b) * a.tcr;
	return x < y ? -1 : (x > y ? 1 : 0);
}

static void check_normal(Time const& t, std::string what)
{
	check(t.m >= 0 && t.m < 60 && t.s >= 0 && t.s < 60 && t.e >= 0 && t.e < t.tcr && t.h >= 0, what + " is not in the usual form: " + text(t));
}

static void check_comparison(Time const& a, Time const& b)
{
	auto const c = compare(a, b);
	auto const what = text(a) + " and " + text(b);
	check_eq(a == b, c == 0, "== of " + what);
	check_eq(a != b, c != 0, "!= of " + what);
	check_eq(a < b, c < 0, "< of " + what);
	check_eq(a > b, c > 0, "> of " + what);
	check_eq(a <= b, c <= 0, "<= of " + what);
	check_eq(a >= b, c >= 0, ">= of " + what);
}

static Register comparison("comparison", 200000, 4000000, "the times have different rates, or are equal", [](Src& s) {
	auto const a = gen_time(s, "a");
	Time b;
	switch (s.weighted({2, 2, 2, 1})) {
	case 0:
		b = gen_time(s, "b");
		break;
	case 1:
		/* Same instant (or nearly), different rate */
		b = Time(a.h, a.m, a.s, 0, gen_rate(s));
		b.e = static_cast<int>(int64_t(a.e) * b.tcr / a.tcr);
		if (s.chance(30) && b.e < b.tcr - 1) {
			b.e++;
		}
		s.note("b", text(b));
		break;
	case 2:
	{
		/* An exact multiple of the rate */
		int const k = s.irange(1, 40);
		b = Time(a.h, a.m, a.s, a.e * k, a.tcr * k);
		s.note("b", text(b));
		break;
	}
	case 3:
		b = gen_time(s, "b", a.tcr);
		break;
	}
	s.nontrivial_if(a.tcr != b.tcr || compare(a, b) == 0);
	check_comparison(a, b);
	check_comparison(b, a);
	/* Times with big rates are made by adding times with different rates */
	auto const c = gen_time(s, "c");
	auto const d = gen_time(s, "d");
	check_comparison(a + b, c);
	check_comparison(a + b, c + d);
	auto const same_second = Time(c.h, c.m, c.s, static_cast<int>(s.edgy(0, c.tcr - 1)), c.tcr);
	check_comparison(d + c, same_second + d);
	check_comparison(d + c, d + same_second);
});

static Register sorting("sorting", 15000, 300000, "at least 4 times with at least 2 rates", [](Src& s) {
	std::vector<Time> times;
	std::set<int> used;
	for (int n = 0; s.more(n, 2, 12, 85); ++n) {
		times.push_back(s.chance(40) ? Time(0, 0, s.irange(0, 1), 0, gen_rate(s)) : gen_time(s, "t"));
		auto& t = times.back();
		t.e = s.irange(0, std::min(t.tcr - 1, 60));
		used.insert(t.tcr);
	}
	s.nontrivial_if(times.size() >= 4 && used.size() >= 2);
	std::sort(times.begin(), times.end());
	for (size_t i = 1; i < times.size(); ++i) {
		check(compare(times[i - 1], times[i]) <= 0, "out of order after sorting: " + text(times[i - 1]) + " before " + text(times[i]));
	}
});

static Register arithmetic("arithmetic", 200000, 4000000, "a carry or borrow is needed, or the rates differ", [](Src& s) {
	auto const a = gen_time(s, "a");
	auto const b = s.boolean() ? gen_time(s, "b", a.tcr) : gen_time(s, "b");
	s.nontrivial_if(a.tcr != b.tcr || a.e + b.e >= a.tcr || a.s + b.s >= 60 || a.m + b.m >= 60);

	auto const sum = a + b;
	check_normal(sum, "sum");
	check(units(sum) * a.tcr * b.tcr == (units(a) * b.tcr + units(b) * a.tcr) * sum.tcr, "wrong sum " + text(sum));
	if (a.tcr == b.tcr) {
		check_eq(sum.tcr, a.tcr, "rate of sum");
	}
	auto acc = a;
	acc += b;
	check(acc == sum && acc.tcr == sum.tcr, "+= differs from +");

	auto const& big_one = compare(a, b) >= 0 ? a : b;
	auto const& small_one = compare(a, b) >= 0 ? b : a;
	auto const difference = big_one - small_one;
	check_normal(difference, "difference");
	check(units(difference) * a.tcr * b.tcr == (units(big_one) * small_one.tcr - units(small_one) * big_one.tcr) * difference.tcr, "wrong difference " + text(difference));
	acc = big_one;
	acc -= small_one;
	check(acc == difference && acc.tcr == difference.tcr, "-= differs from -");

	check(sum - b == a, "(a + b) - b is not a");

	auto const sa = static_cast<double>(units(a)) / a.tcr;
	auto const sb = static_cast<double>(units(b)) / b.tcr;
	check(std::fabs(a.as_seconds() - sa) < 1e-9 * (1 + sa), "as_seconds of " + text(a) + " gave " + show(a.as_seconds()));
	if (sb > 0) {
		auto const ratio = a / b;
		check(std::fabs(ratio - sa / sb) <= 1e-5 * (sa / sb), "a / b gave " + show(ratio) + ", expected " + show(sa / sb));
	}
});

static Register counts("counts", 200000, 4000000, "the new rate differs from the time's own", [](Src& s) {
	auto const a = gen_time(s, "a");
	auto const r = gen_rate(s);
	s.note("rate", r);
	s.nontrivial_if(r != a.tcr);
	auto const exact = units(a);
	check(a.as_editable_units() == exact, "as_editable_units gave " + show(a.as_editable_units()));
	auto const scaled = exact * r;
	big const floor = scaled / a.tcr;
	big const ceil = (scaled + a.tcr - 1) / a.tcr;
	check(a.as_editable_units_floor(r) == floor, "as_editable_units_floor gave " + show(a.as_editable_units_floor(r)));
	check(a.as_editable_units_ceil(r) == ceil, "as_editable_units_ceil gave " + show(a.as_editable_units_ceil(r)));

	auto const b = a.rebase(r);
	check_eq(b.tcr, r, "rate after rebase");
	check_normal(b, "rebased time");
	/* The nearest time at the new rate */
	auto const error = units(b) * a.tcr - scaled;
	check((error < 0 ? -error : error) * 2 <= a.tcr, "rebase gave " + text(b) + " which is not the nearest");
	check(a.rebase(a.tcr) == a, "rebase to the same rate");
	/* Going to a multiple of the rate loses nothing */
	int const k = s.irange(1, 10);
	if (a.tcr * k <= 1000) {
		check(a.rebase(a.tcr * k) == a, "rebase to a multiple of the rate");
		check(a.rebase(a.tcr * k).rebase(a.tcr) == a, "rebase to a multiple of the rate and back");
	}
});

static Register from_frames("from_frames", 200000, 4000000, "more than a second, and not a whole number of seconds", [](Src& s) {
	/* Frame counts and seconds */
	auto const tcr = gen_rate(s);
	if (s.boolean()) {
		auto const fps = s.pick<double>({ 24, 25, 30, 48, 50, 60, 23.976, 29.97, 96, 100, 120 });
		auto const frame = static_cast<int>(s.weighted({1, 1}) ? s.skewed(0, 5000000) : s.edgy(0, 2000000, { 24, 1439, 1440, 1441, 86399, 86400 }));
		s.note("frame", frame);
		s.note("fps", fps);
		s.note("rate", tcr);
		Time t(frame, fps, tcr);
		s.nontrivial_if(frame > fps && std::fmod(frame, fps) != 0);
		check_eq(t.tcr, tcr, "rate");
		check_normal(t, "time of frame");
		auto const error = std::fabs(static_cast<double>(units(t)) - frame / fps * tcr);
		check(error <= 0.5 + 1e-4, "time of frame is " + text(t) + ", " + show(error) + " editable units out");
		if (fps == tcr) {
			check(units(t) == frame, "frame count does not survive at its own rate: " + text(t));
			check(t.as_editable_units_floor(tcr) == frame && t.as_editable_units_ceil(tcr) == frame, "frame count does not come back");
		}
	} else {
		auto const secs = s.chance(30) ? s.irange(0, 200000) - 1.0 / s.irange(3, 5000) : s.real(0, 200000);
		if (secs < 0) {
			s.discard();
		}
		s.note("seconds", secs);
		s.note("rate", tcr);
		Time t(secs, tcr);
		s.nontrivial_if(secs > 1 && secs != std::floor(secs));
		check_eq(t.tcr, tcr, "rate");
		check_normal(t, "time of seconds");
		auto const error = std::fabs(static_cast<double>(units(t)) - secs * tcr);
		check(error <= 0.5 + 1e-4, "time of " + show(secs) + " seconds is " + text(t) + ", " + show(error) + " editable units out");
	}
});

static std::string pad(int v, int n)
{
	auto t = std::to_string(v);
	return std::string(std::max(0, n - static_cast<int>(t.size())), '0') + t;
}

static Register strings("strings", 200000, 4000000, "hours, minutes, seconds and editable units are not all zero", [](Src& s) {
	auto const interop = s.boolean();
	auto const t = gen_time(s, "time", interop ? 250 : 0);
	s.note("interop", interop);
	s.nontrivial_if(t.h || t.m || t.s || t.e);
	auto const str = t.as_string(interop ? dcp::Standard::INTEROP : dcp::Standard::SMPTE);
	check_eq(str, pad(t.h, 2) + ":" + pad(t.m, 2) + ":" + pad(t.s, 2) + ":" + pad(t.e, interop ? 3 : 2), "text");
	Time back(str, interop ? boost::optional<int>() : boost::optional<int>(t.tcr));
	check(back.h == t.h && back.m == t.m && back.s == t.s && back.e == t.e && back.tcr == t.tcr, "reading " + str + " gave " + text(back));

	/* Interop times can also be written with milliseconds */
	int const ms = s.irange(0, 999);
	auto const with_ms = pad(t.h, 2) + ":" + pad(t.m, 2) + ":" + pad(t.s, 2) + "." + pad(ms, 3);
	Time read(with_ms, boost::none);
	check(read.h == t.h && read.m == t.m && read.s == t.s && read.e == ms && read.tcr == 1000, "reading " + with_ms + " gave " + text(read));

	/* Fields can be shorter than they might be */
	auto const brief = std::to_string(t.h) + ":" + std::to_string(t.m) + ":" + std::to_string(t.s) + ":" + std::to_string(t.e);
	Time quick(brief, interop ? boost::optional<int>() : boost::optional<int>(t.tcr));
	check(quick.h == t.h && quick.m == t.m && quick.s == t.s && quick.e == t.e && quick.tcr == t.tcr, "reading " + brief + " gave " + text(quick));
});

static Register bad_strings("bad_strings", 100000, 2000000, "all", [](Src& s) {
	/* Any number of fields, of any length */
	bool const interop = s.boolean();
	std::vector<std::string> fields;
	for (int n = 0; s.more(n, 1, 6, 75); ++n) {
		fields.push_back(s.str("0123456789", s.chance(80) ? 1 : 0, s.chance(80) ? 2 : 4));
	}
	if (s.chance(50) && fields.size() > 1) {
		fields.back() += "." + s.str("0123456789", 0, 4);
		if (s.chance(10)) {
			fields.back() += ".";
		}
	}
	std::string t;
	for (auto const& f: fields) {
		t += (&f == &fields[0] ? "" : ":") + f;
	}
	s.note("text", t);
	s.note("interop", interop);
	s.nontrivial();
	auto ok = [](std::string const& f, size_t max) {
		return !f.empty() && f.size() <= max && std::all_of(f.begin(), f.end(), [](char c) { return c >= '0' && c <= '9'; });
	};
	int want_e = 0;
	int want_rate = interop ? 250 : 24;
	bool good = fields.size() >= 3 && ok(fields[0], 2) && ok(fields[1], 2);
	if (good && fields.size() == 4) {
		/* Something like 00:00:00:1.5 is not in a documented form but nothing says what happens to it */
		if (fields[3].find('.') != std::string::npos && fields[3].size() <= 3) {
			s.discard();
		}
		good = ok(fields[2], 2) && ok(fields[3], 3);
		want_e = good ? std::stoi(fields[3]) : 0;
	} else if (good && fields.size() == 3 && interop) {
		auto const dot = fields[2].find('.');
		good = dot != std::string::npos && ok(fields[2].substr(0, dot), 2) && ok(fields[2].substr(dot + 1), 3);
		if (good) {
			if (fields[2].size() - dot - 1 < 3) {
				/* Not clear what .5 means */
				s.discard();
			}
			want_e = std::stoi(fields[2].substr(dot + 1));
			want_rate = 1000;
			fields[2] = fields[2].substr(0, dot);
		}
	} else {
		good = false;
	}
	s.label(good ? "good" : "bad");
	try {
		Time r(t, interop ? boost::optional<int>() : boost::optional<int>(24));
		check(good, "accepted " + t + " as " + text(r));
		check(r.h == std::stoi(fields[0]) && r.m == std::stoi(fields[1]) && r.s == std::stoi(fields[2]) && r.e == want_e && r.tcr == want_rate, "read as " + text(r));
	} catch (dcp::ReadError& e) {
		check(!good, "refused " + t + ": " + e.what());
	}
});
