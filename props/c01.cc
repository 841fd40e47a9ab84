/* RGB to XYZ and back */

#include "colour.h"

using namespace pbt;

static void check_gamut(Src& s, dcp::ColourConversion const& c, Gamut const& g)
{
	auto const want = model_rgb_to_xyz(g.r, g.g, g.b, g.w);
	auto const inv = invert(want);
	double const scale = norm(want) * norm(inv);
	if (scale > 1e6) {
		s.discard();
	}
	double const tol = 1e-12 * scale * std::max(1.0, norm(want));
	auto const got = from_ublas(c.rgb_to_xyz());
	close(got, want, tol, "rgb_to_xyz");

	/* White in, white out */
	auto const w = xyz(g.w);
	auto const white = mul(got, V3{{1, 1, 1}});
	for (int i = 0; i < 3; ++i) {
		close(white[i], w[i], tol * 10, "XYZ of white " + std::to_string(i));
	}

	/* Each primary keeps its chromaticity */
	for (int j = 0; j < 3; ++j) {
		auto const p = j == 0 ? g.r : (j == 1 ? g.g : g.b);
		double const total = got[0][j] + got[1][j] + got[2][j];
		close(got[0][j] / total, p.x, 1e-9, "x of primary " + std::to_string(j));
		close(got[1][j] / total, p.y, 1e-9, "y of primary " + std::to_string(j));
	}

	auto const back = from_ublas(c.xyz_to_rgb());
	close(back, inv, 1e-12 * scale * std::max(1.0, norm(inv)) * 10, "xyz_to_rgb");
	M3 const identity = {{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};
	close(mul(got, back), identity, 1e-11 * scale, "rgb_to_xyz * xyz_to_rgb");
	close(mul(back, got), identity, 1e-11 * scale, "xyz_to_rgb * rgb_to_xyz");
}

static Register gamuts("gamuts", 400000, 10000000, "the primaries are not those of a named standard", [](Src& s) {
	auto const g = gen_gamut(s);
	s.note("gamut", g.name);
	s.nontrivial_if(!g.preset);
	check_gamut(s, make_conversion(g), g);
});

static Register setters("setters", 100000, 3000000, "every case: conversion changed from one gamut to another", [](Src& s) {
	/* A conversion which has been changed and used before behaves as one made afresh */
	auto const a = gen_gamut(s);
	auto const b = gen_gamut(s);
	s.note("from", a.name);
	s.note("to", b.name);
	auto c = make_conversion(a);
	if (s.boolean()) {
		c.rgb_to_xyz();
		c.xyz_to_rgb();
	}
	s.nontrivial();
	c.set_red(b.r);
	c.set_green(b.g);
	c.set_blue(b.b);
	c.set_white(b.w);
	/* This is nothing to do with these matrices */
	if (s.boolean()) {
		c.set_adjusted_white(gen_chromaticity(s));
	}
	check_gamut(s, c, b);
});

static Register history("history", 60000, 1500000, "something was changed after it had been used", [](Src& s) {
	/* As above, but changing some parts (perhaps only slightly) between uses */
	auto g = gen_gamut(s);
	auto c = make_conversion(g);
	std::string log = g.name;
	bool used = false;
	int n = 0;
	for (; s.more(n, 1, 6, 70); ++n) {
		if (s.chance(70)) {
			c.rgb_to_xyz();
			used = true;
		}
		auto const other = gen_gamut(s);
		auto const change = [&](dcp::Chromaticity& x, dcp::Chromaticity const& y) {
			if (s.boolean()) {
				double const by = s.pick({1e-2, 1e-3, 1e-4, 1e-5});
				x.x += by * s.irange(-1, 1);
				x.y += by * s.irange(-1, 1);
			} else {
				x = y;
			}
			log += " " + show_c(x);
		};
		int const what = s.draw(5);
		s.nontrivial_if(used && what < 4);
		switch (what) {
		case 0:
			change(g.r, other.r);
			c.set_red(g.r);
			break;
		case 1:
			change(g.g, other.g);
			c.set_green(g.g);
			break;
		case 2:
			change(g.b, other.b);
			c.set_blue(g.b);
			break;
		case 3:
			change(g.w, other.w);
			c.set_white(g.w);
			break;
		case 4:
		{
			/* A copy is no different */
			auto const d = c;
			c = make_conversion(other);
			c.rgb_to_xyz();
			c = d;
			break;
		}
		default:
			try {
				c.xyz_to_rgb();
			} catch (std::exception&) {
				/* There is no inverse, as this isn't a gamut */
			}
		}
	}
	s.note("gamuts", log);
	/* Not every mixture is a gamut, so all that we ask is that it's the same as a new one */
	auto const fresh = make_conversion(g);
	auto const want = from_ublas(fresh.rgb_to_xyz());
	if (!(norm(want) < 1e3)) {
		s.discard();
	}
	close(from_ublas(c.rgb_to_xyz()), want, 1e-12 * std::max(1.0, norm(want)), "rgb_to_xyz");
	/* There is something which can be inverted */
	double det = 0;
	for (int i = 0; i < 3; ++i) {
		det += want[0][i] * (want[1][(i + 1) % 3] * want[2][(i + 2) % 3] - want[1][(i + 2) % 3] * want[2][(i + 1) % 3]);
	}
	if (std::fabs(det) < 1e-3) {
		return;
	}
	auto const inverse = from_ublas(fresh.xyz_to_rgb());
	close(from_ublas(c.xyz_to_rgb()), inverse, 1e-12 * std::max(1.0, norm(inverse)), "xyz_to_rgb");
});

static Register colours("colours", 200000, 5000000, "a colour which isn't black, white or a primary", [](Src& s) {
	/* Additivity: luminance of a mix is that of its parts, and every colour comes back */
	auto const g = gen_gamut(s);
	auto const c = make_conversion(g);
	V3 const rgb = {{s.real(0, 1), s.real(0, 1), s.real(0, 1)}};
	s.note("gamut", g.name);
	s.note("rgb", show(rgb[0]) + "," + show(rgb[1]) + "," + show(rgb[2]));
	auto const a = from_ublas(c.rgb_to_xyz());
	auto const b = from_ublas(c.xyz_to_rgb());
	double const scale = norm(a) * norm(b);
	if (scale > 1e6) {
		s.discard();
	}
	s.nontrivial_if(rgb[0] > 0 && rgb[1] > 0 && rgb[2] > 0);
	auto const back = mul(b, mul(a, rgb));
	for (int i = 0; i < 3; ++i) {
		close(back[i], rgb[i], 1e-11 * scale, "RGB -> XYZ -> RGB " + std::to_string(i));
	}
});
