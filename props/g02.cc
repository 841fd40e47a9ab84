/* Transfer functions can be undone, and keep the order of values */

#include "colour.h"

using namespace pbt;

/** The function at one point: a table from x to x has nothing else in it */
static double at(dcp::TransferFunction const& f, double x, bool inverse)
{
	auto const l = f.double_lut(x, x, 1, inverse);
	check_eq(l.size(), size_t(2), "size");
	check(l[0] == l[1], "two values for the same input");
	return l[0];
}

static Register undo("undo", 600000, 15000000, "x is not 0 or 1", [](Src& s) {
	auto const f = gen_fn(s, true);
	auto const fn = f.make();
	double const x = s.weighted({70, 15, 15}) == 0 ? s.real(0, 1) : s.real(0, 0.2);
	bool const inverse_first = s.boolean();
	s.note("function", f.name());
	s.note("x", x);
	s.note("inverse_first", inverse_first);
	s.nontrivial_if(x != 0 && x != 1);
	double const y = at(*fn, x, inverse_first);
	double const z = at(*fn, y, !inverse_first);
	/* S-Log3's inverse of the smallest code values is below zero; that is still undone exactly.
	   sRGB's published constants leave a step of about 1e-7 at the join.
	*/
	double tol = 1e-6;
	if (f.type == Fn::GAMMA && y < 1e-200) {
		/* so small as to have lost precision */
		s.discard();
	}
	close(z, x, tol, "there and back");
});

static Register monotone("monotone", 30000, 800000, "depth of at least 4", [](Src& s) {
	auto const f = gen_fn(s, true);
	int const depth = s.irange(1, 12);
	bool const inverse = s.boolean();
	double a = s.real(0, 1), b = s.real(0, 1);
	if (s.boolean()) {
		a = 0;
		b = 1;
	}
	if (a > b) {
		std::swap(a, b);
	}
	s.note("function", f.name());
	s.note("from", a);
	s.note("to", b);
	s.note("depth", depth);
	s.note("inverse", inverse);
	s.nontrivial_if(depth >= 4);
	auto const lut = f.make()->double_lut(a, b, depth, inverse);
	for (size_t i = 1; i < lut.size(); ++i) {
		check(lut[i] >= lut[i - 1] - 1e-7, "table goes down at " + std::to_string(i));
	}
	/* the ends of the range are the ends of the table */
	auto const fn = f.make();
	close(lut.front(), at(*fn, a, inverse), 1e-6, "start of table");
	close(lut.back(), at(*fn, b, inverse), 1e-6, "end of table");
});
