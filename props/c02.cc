/* Chromatic adaptation */

#include "colour.h"

using namespace pbt;

static M3 const identity = {{{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}};

/* From Lindbloom / the Bradford transform as published */
static M3 const bradford_ma = {{{{0.8951, 0.2664, -0.1614}}, {{-0.7502, 1.7135, 0.0367}}, {{0.0389, -0.0685, 1.0296}}}};

static dcp::Chromaticity gen_white(Src& s)
{
	switch (s.weighted({45, 20, 20, 15})) {
	case 0:
		return gen_chromaticity(s, 0.2, 0.5, 0.2, 0.5);
	case 1:
		return s.pick<dcp::Chromaticity>({{0.3127, 0.329}, {0.314, 0.351}, {0.32168, 0.33767}, {0.447576324, 0.407443172}, {1.0 / 3, 1.0 / 3}, {0.34567, 0.3585}});
	case 2:
		return gen_chromaticity(s, 0.1, 0.6, 0.12, 0.6);
	default:
		/* Strongly coloured light */
		return gen_chromaticity(s, 0.001, 0.7, 0.03, 0.85);
	}
}

static Register adapts("adapts", 400000, 10000000, "the whites differ", [](Src& s) {
	Gamut g = gen_gamut(s);
	g.w = gen_white(s);
	auto const to = gen_white(s);
	s.note("from", show_c(g.w));
	s.note("to", show_c(to));
	s.nontrivial_if(g.w.x != to.x || g.w.y != to.y);
	auto const G = mul(bradford_ma, xyz(g.w));
	auto const H = mul(bradford_ma, xyz(to));
	for (int i = 0; i < 3; ++i) {
		if (std::fabs(G[i]) < 0.05 || std::fabs(H[i]) < 0.05) {
			/* Not a white for which the transform is defined */
			s.discard();
		}
	}
	auto c = make_conversion(g);
	/* Either way of saying what to adapt to */
	if (s.boolean()) {
		c = make_conversion(g, to);
	} else {
		if (s.boolean()) {
			c.set_adjusted_white(gen_white(s));
			c.bradford();
		}
		c.set_adjusted_white(to);
	}
	auto const got = from_ublas(c.bradford());
	M3 const d = {{{{H[0] / G[0], 0, 0}}, {{0, H[1] / G[1], 0}}, {{0, 0, H[2] / G[2]}}}};
	auto const want = mul(invert(bradford_ma), mul(d, bradford_ma));
	double const scale = std::max(1.0, norm(d));
	/* The code has its inverse matrix to 10 places */
	close(got, want, 1e-8 * scale, "bradford");

	/* The old white becomes the new one */
	auto const w = mul(got, xyz(g.w));
	auto const t = xyz(to);
	for (int i = 0; i < 3; ++i) {
		close(w[i], t[i], 1e-7 * scale * 10, "adapted white " + std::to_string(i));
	}

	/* and the way back undoes it */
	Gamut h = g;
	h.w = to;
	auto const back = from_ublas(make_conversion(h, g.w).bradford());
	close(mul(back, got), identity, 1e-7 * std::max(1.0, norm(got)) * std::max(1.0, norm(back)), "there and back");
});

static Register none("none", 100000, 2000000, "the conversion previously had something to adapt to", [](Src& s) {
	/* No adaptation asked for: identity */
	auto g = gen_gamut(s);
	s.note("gamut", g.name);
	auto c = make_conversion(g);
	switch (s.draw(3)) {
	case 0:
		break;
	case 1:
		c.set_adjusted_white(gen_white(s));
		s.nontrivial();
		s.label("set and unset");
		c.bradford();
		c.unset_adjusted_white();
		check(!c.adjusted_white(), "adjusted white still there after being unset");
		break;
	case 2:
		/* The same white */
		g.w = gen_white(s);
		c.set_white(g.w);
		c.set_adjusted_white(g.w);
		s.nontrivial();
		s.label("same white");
		close(from_ublas(c.bradford()), identity, 1e-8, "adapting to the same white");
		return;
	default:
		/* The "unset" values that old configurations have */
		c.set_adjusted_white(dcp::Chromaticity(0, 0));
		s.label("zero");
	}
	close(from_ublas(c.bradford()), identity, 0, "no adaptation");
});
