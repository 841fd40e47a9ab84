/* Two-part lookup tables */

#include "colour.h"
#include "piecewise_lut.h"

using namespace pbt;

static Register lookups("lookups", 60000, 1500000, "a boundary which isn't halfway, and values on both sides of it", [](Src& s) {
	auto const f = gen_fn(s, true);
	double const boundary = s.boolean() ? s.pick({0.062, 0.5, 0.1, 0.25}) : s.real(0.01, 0.95);
	int const low = s.irange(2, 12);
	int const high = s.irange(2, 12);
	bool const inverse = s.boolean();
	int const scale = s.pick({1, 255, 4095, 65535, 1000000});
	s.note("function", f.name());
	s.note("boundary", boundary);
	s.note("bits", std::to_string(low) + "/" + std::to_string(high));
	s.note("inverse", inverse);
	s.note("scale", scale);
	auto const fn = f.make();
	if (s.boolean()) {
		/* Other tables made from the same function make no difference */
		fn->int_lut(0, 1, low, inverse, scale);
		fn->int_lut(0, boundary, high, inverse, scale);
	}
	dcp::PiecewiseLUT2 const lut(fn, boundary, low, high, inverse, scale);
	std::vector<double> xs = {0, 1, boundary, std::nextafter(boundary, 0.0), std::nextafter(boundary, 1.0)};
	int below = 0, above = 0;
	for (int i = 0; i < 30; ++i) {
		xs.push_back(s.boolean() ? s.real(0, boundary) : s.real(boundary, 1));
		++(xs.back() < boundary ? below : above);
	}
	s.nontrivial_if(below && above && boundary != 0.5);
	for (auto x: xs) {
		auto const got = lut.lookup(x);
		/* The nearest point in whichever table covers this value */
		double const start = x < boundary ? 0 : boundary;
		double const end = x < boundary ? boundary : 1;
		int const n = (1 << (x < boundary ? low : high)) - 1;
		double const where = (x - start) / (end - start) * n;
		double best = 1e300;
		for (double k = std::floor(where - 1e-6); k <= std::ceil(where + 1e-6); k += 1) {
			if (k < 0 || k > n || std::fabs(k - where) > 0.5 + 1e-6) {
				continue;
			}
			double const at = start + (end - start) * k / n;
			best = std::min(best, std::fabs(got - f.value(at, inverse) * scale));
		}
		if (!(best <= 0.5 + 1e-6 * scale)) {
			fail("lookup(" + show(x) + ") = " + std::to_string(got) + ", f(x) = " + show(f.value(x, inverse) * scale));
		}
	}
});

static Register order("order", 60000, 1500000, "every case: two different values", [](Src& s) {
	auto const f = gen_fn(s, true);
	double const boundary = s.real(0.01, 0.95);
	int const scale = s.pick({255, 4095, 65535});
	bool const inverse = s.boolean();
	dcp::PiecewiseLUT2 const lut(f.make(), boundary, s.irange(2, 10), s.irange(2, 10), inverse, scale);
	double a = s.real(0, 1), b = s.boolean() ? s.real(0, 1) : boundary;
	if (a > b) {
		std::swap(a, b);
	}
	s.note("function", f.name());
	s.note("boundary", boundary);
	s.note("a", a);
	s.note("b", b);
	s.nontrivial_if(a != b);
	check(lut.lookup(a) <= lut.lookup(b) + 1, "lookup goes down");
});
