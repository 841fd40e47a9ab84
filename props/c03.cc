/* Named standards, and comparison of conversions */

#include "colour.h"

using namespace pbt;
using namespace dcp;

static Register standards("standards", 20000, 400000, "every case: one of the nine standards at some depth", [](Src& s) {
	auto const& p = s.pick(presets());
	s.note("preset", p.name);
	auto const& c = p.get();
	s.nontrivial();
	auto chroma = [](Chromaticity c, double const* w, std::string what) {
		close(c.x, w[0], 1e-12, what + ".x");
		close(c.y, w[1], 1e-12, what + ".y");
	};
	chroma(c.red(), p.r, "red");
	chroma(c.green(), p.g, "green");
	chroma(c.blue(), p.b, "blue");
	chroma(c.white(), p.w, "white");
	check(c.yuv_to_rgb() == p.yuv, "YUV to RGB");
	check(!c.adjusted_white(), "adjusted white");
	check(static_cast<bool>(c.in()) && static_cast<bool>(c.out()), "transfer functions");

	/* What the functions do, rather than what they are */
	Fn in;
	if (p.gamma > 0) {
		in.power = p.gamma;
	} else if (p.gamma == 0) {
		in.type = Fn::MODIFIED;
		in.power = 2.4;
		in.threshold = 0.04045;
		in.A = 0.055;
		in.B = 12.92;
	} else {
		in.type = Fn::SLOG3;
	}
	Fn out;
	if (p.out > 0) {
		out.power = p.out;
	} else {
		out.type = Fn::IDENTITY;
	}
	int const depth = s.irange(1, 10);
	bool const inverse = s.boolean();
	s.note("depth", depth);
	s.note("inverse", inverse);
	auto const n = size_t(1) << depth;
	auto const a = c.in()->double_lut(0, 1, depth, inverse);
	auto const b = c.out()->double_lut(0, 1, depth, inverse);
	check_eq(a.size(), n, "size of input LUT");
	check_eq(b.size(), n, "size of output LUT");
	for (size_t i = 0; i < n; ++i) {
		double const x = double(i) / (n - 1);
		close(a[i], in.value(x, inverse), 1e-12, "input LUT");
		close(b[i], out.value(x, inverse), 1e-12, "output LUT");
	}
	/* Each standard is equal to itself and no other */
	for (auto const& q: presets()) {
		bool const same = std::string(p.name) == q.name;
		check_eq(c.about_equal(q.get(), 1e-4), same, "about_equal with another standard", q.name);
	}
});

/** A change which is well inside, or well outside, a tolerance */
static double nudge(Src& s, double eps, bool within)
{
	double const d = within ? s.real(0, 0.9) * eps : s.real(1.1, 20) * eps;
	return s.boolean() ? -d : d;
}

static Register comparison("comparison", 300000, 8000000, "at least one part differs", [](Src& s) {
	float const eps = s.pick({1e-6f, 1e-4f, 1e-3f, 1e-2f});
	auto g = gen_gamut(s);
	Fn const in = gen_fn(s);
	Fn const out = gen_fn(s);
	boost::optional<Chromaticity> adjusted;
	if (s.boolean()) {
		adjusted = gen_chromaticity(s);
	}
	auto const yuv = static_cast<YUVToRGB>(s.irange(0, 2));
	ColourConversion const a(in.make(), yuv, g.r, g.g, g.b, g.w, adjusted, out.make());

	/* Make a copy, part by part, and perhaps change some of it */
	bool want = true;
	std::string changes;
	auto change = [&](char const* what) -> int {
		/* 0: same, 1: a little different, 2: different */
		int const c = s.weighted({82, 12, 6});
		if (c) {
			changes += std::string(what) + (c == 1 ? "~ " : "! ");
			s.nontrivial();
		}
		if (c == 2) {
			want = false;
		}
		return c;
	};
	auto number = [&](double& v, char const* what) {
		if (int c = change(what)) {
			v += nudge(s, eps, c == 1);
		}
	};
	auto function = [&](Fn f, char const* what) -> Fn {
		switch (f.type) {
		case Fn::GAMMA:
			number(f.power, what);
			break;
		case Fn::MODIFIED:
			number(f.power, what);
			number(f.threshold, what);
			number(f.A, what);
			number(f.B, what);
			break;
		default:
			break;
		}
		if (s.chance(5)) {
			/* A different sort of function altogether */
			Fn h;
			h.type = static_cast<Fn::Type>((f.type + 1 + s.draw(2)) % 4);
			h.power = f.power;
			changes += std::string(what) + "-type! ";
			want = false;
			s.nontrivial();
			return h;
		}
		return f;
	};
	auto chroma = [&](Chromaticity c, char const* what) {
		number(c.x, what);
		number(c.y, what);
		return c;
	};
	ColourConversion b;
	b.set_in(function(in, "in").make());
	b.set_out(function(out, "out").make());
	b.set_red(chroma(g.r, "red"));
	b.set_green(chroma(g.g, "green"));
	b.set_blue(chroma(g.b, "blue"));
	b.set_white(chroma(g.w, "white"));
	auto y = yuv;
	if (s.chance(5)) {
		y = static_cast<YUVToRGB>((int(yuv) + 1 + s.draw(1)) % 3);
		want = false;
		changes += "yuv! ";
		s.nontrivial();
	}
	b.set_yuv_to_rgb(y);
	if (adjusted) {
		if (s.chance(5)) {
			changes += "adjusted-removed! ";
			want = false;
			s.nontrivial();
		} else {
			b.set_adjusted_white(chroma(*adjusted, "adjusted"));
		}
	} else if (s.chance(5)) {
		changes += "adjusted-added! ";
		want = false;
		s.nontrivial();
		b.set_adjusted_white(gen_chromaticity(s));
	}
	s.note("in", in.name());
	s.note("out", out.name());
	s.note("gamut", g.name);
	s.note("epsilon", eps);
	s.note("changes", changes);
	s.label(want ? "equal" : "not equal");
	check_eq(a.about_equal(b, eps), want, "a.about_equal(b)");
	check_eq(b.about_equal(a, eps), want, "b.about_equal(a)");
	check_eq(a.about_equal(a, eps), true, "a.about_equal(a)");
	/* Setters and getters agree */
	check(b.yuv_to_rgb() == y, "yuv_to_rgb()");
});
