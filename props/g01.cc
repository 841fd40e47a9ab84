/* Transfer function tables hold the documented function */

#include "colour.h"

using namespace pbt;

static Register tables("tables", 60000, 1500000, "the range is not 0 to 1, or the function has more than one part", [](Src& s) {
	auto const f = gen_fn(s);
	double from = 0, to = 1;
	switch (s.weighted({30, 40, 15, 15})) {
	case 1:
		from = s.real(0, 1);
		to = s.real(0, 1);
		break;
	case 2:
		to = s.real(0.01, 1);
		break;
	case 3:
		from = s.real(0, 0.99);
		break;
	}
	int const depth = s.weighted({0, 1, 2, 2, 2, 2, 2, 2, 3, 2, 2, 1, 1}) ;
	bool const inverse = s.boolean();
	s.note("function", f.name());
	s.note("from", from);
	s.note("to", to);
	s.note("depth", depth);
	s.note("inverse", inverse);
	s.nontrivial_if(from != 0 || to != 1 || f.type == Fn::MODIFIED || f.type == Fn::SLOG3);
	s.label(f.name().substr(0, 4));
	auto const lut = f.make()->double_lut(from, to, depth, inverse);
	size_t const n = size_t(1) << depth;
	check_eq(lut.size(), n, "size");
	for (size_t i = 0; i < n; ++i) {
		double const x = from + (to - from) * i / (n - 1);
		if (f.on_edge(x, inverse)) {
			continue;
		}
		double const want = f.value(x, inverse);
		/* a rounding error in x of about 1e-16 can be made larger by a steep function */
		double const tol = 1e-11 * std::max(1.0, std::fabs(want)) + (x < 1e-6 ? std::fabs(f.value(x + 1e-15, inverse) - want) * 4 : 0);
		close(lut[i], want, tol, "entry " + std::to_string(i));
	}
});

static Register big_tables("big_tables", 400, 10000, "every case: a table of 2^13 to 2^18 entries", [](Src& s) {
	auto const f = gen_fn(s);
	int const depth = 13 + s.weighted({30, 20, 20, 20, 5, 5});
	bool const inverse = s.boolean();
	s.note("function", f.name());
	s.note("depth", depth);
	s.note("inverse", inverse);
	s.nontrivial();
	auto const lut = f.make()->double_lut(0, 1, depth, inverse);
	size_t const n = size_t(1) << depth;
	check_eq(lut.size(), n, "size");
	for (size_t i = 0; i < n; ++i) {
		double const x = double(i) / (n - 1);
		if (!f.on_edge(x, inverse)) {
			close(lut[i], f.value(x, inverse), 1e-11, "entry " + std::to_string(i));
		}
	}
});

static Register integers("integers", 60000, 1500000, "scale is more than 1", [](Src& s) {
	auto const f = gen_fn(s);
	int const depth = s.irange(1, 10);
	bool const inverse = s.boolean();
	int const scale = static_cast<int>(s.pick({1, 255, 1023, 4095, 65535, 0}));
	int const k = scale ? scale : static_cast<int>(s.skewed(1, 1000000));
	double const from = s.chance(70) ? 0 : s.real(0, 1), to = s.chance(70) ? 1 : s.real(0, 1);
	s.note("function", f.name());
	s.note("from", from);
	s.note("to", to);
	s.note("depth", depth);
	s.note("inverse", inverse);
	s.note("scale", k);
	s.nontrivial_if(k > 1);
	auto fn = f.make();
	auto const lut = fn->int_lut(from, to, depth, inverse, k);
	size_t const n = size_t(1) << depth;
	check_eq(lut.size(), n, "size");
	for (size_t i = 0; i < n; ++i) {
		double const x = from + (to - from) * i / (n - 1);
		if (f.on_edge(x, inverse)) {
			continue;
		}
		double const want = f.value(x, inverse) * k;
		close(lut[i], want, 0.5 + 1e-6 * std::max(1.0, std::fabs(want)) * (x < 1e-6 ? 1000 : 1e-3), "entry " + std::to_string(i));
	}
});
