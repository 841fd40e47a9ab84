/* What a table holds does not depend on what was asked for before, or by whom */

#include "colour.h"
#include <cstring>

using namespace pbt;

struct Request
{
	double from, to;
	int depth;
	bool inverse;
	int scale; ///< 0 for a double LUT

	std::string name() const
	{
		return "(" + show(from) + "," + show(to) + "," + std::to_string(depth) + (inverse ? ",inv" : "") + (scale ? ",x" + std::to_string(scale) : "") + ")";
	}
};

/** Requests which are often the same or nearly the same as each other */
static Request gen_request(Src& s, std::vector<Request> const& before)
{
	static std::vector<double> const ends = {0, 1, 0.5, 0.062, 0.1, 0.25};
	Request r;
	r.from = s.pick(ends);
	r.to = s.pick(ends);
	r.depth = s.irange(1, 6);
	r.inverse = s.boolean();
	r.scale = s.pick({0, 0, 1, 2, 3, 4, 255, 4095});
	if (!before.empty() && s.chance(60)) {
		/* The same as an earlier one, perhaps with one difference */
		auto const& o = s.pick(before);
		int const different = s.draw(9);
		auto near = [&](double x, double y) {
			switch (s.draw(3)) {
			case 0: return std::nextafter(x, 2);
			case 1: return x + 1e-7;
			case 2: return x + 1e-4;
			default: return y;
			}
		};
		r.from = different == 1 ? near(o.from, r.from) : o.from;
		r.to = different == 2 ? near(o.to, r.to) : o.to;
		r.depth = different == 3 ? r.depth : o.depth;
		r.inverse = different == 4 ? r.inverse : o.inverse;
		r.scale = different == 5 ? r.scale : o.scale;
	}
	return r;
}

static void same(std::vector<double> const& a, std::vector<double> const& b, std::string const& what)
{
	check_eq(a.size(), b.size(), "size", what);
	for (size_t i = 0; i < a.size(); ++i) {
		check(memcmp(&a[i], &b[i], sizeof(double)) == 0, what + ": entry " + std::to_string(i) + " is " + show(a[i]) + " not " + show(b[i]));
	}
}

static void same(std::vector<int> const& a, std::vector<int> const& b, std::string const& what)
{
	check_eq(a.size(), b.size(), "size", what);
	for (size_t i = 0; i < a.size(); ++i) {
		check_eq(a[i], b[i], "entry", what);
	}
}

static Register history("history", 60000, 1500000, "at least four requests, one of them a repeat", [](Src& s) {
	auto const f = gen_fn(s);
	auto const fn = f.make();
	std::vector<std::pair<Request, std::vector<double> const*>> doubles;
	std::vector<std::pair<Request, std::vector<int> const*>> ints;
	std::vector<Request> requests;
	std::string all;
	std::set<std::string> seen;
	bool repeat = false;
	int n = 0;
	for (; s.more(n, 2, 40, 93); ++n) {
		auto const r = gen_request(s, requests);
		requests.push_back(r);
		all += r.name();
		repeat = !seen.insert(r.name()).second || repeat;
		if (r.scale) {
			ints.push_back({r, &fn->int_lut(r.from, r.to, r.depth, r.inverse, r.scale)});
		} else {
			doubles.push_back({r, &fn->double_lut(r.from, r.to, r.depth, r.inverse)});
		}
	}
	s.note("function", f.name());
	s.note("requests", all);
	s.nontrivial_if(n >= 4 && repeat);
	/* Look at them all afterwards: earlier tables must still be there and unchanged */
	for (auto const& i: doubles) {
		auto const& r = i.first;
		same(*i.second, f.make()->double_lut(r.from, r.to, r.depth, r.inverse), "double LUT " + r.name());
	}
	for (auto const& i: ints) {
		auto const& r = i.first;
		same(*i.second, f.make()->int_lut(r.from, r.to, r.depth, r.inverse, r.scale), "int LUT " + r.name());
		auto const d = f.make()->double_lut(r.from, r.to, r.depth, r.inverse);
		for (size_t j = 0; j < d.size(); ++j) {
			/* What a whole number should be where there is no answer (e.g. rounding has
			   put the end of a range just below 0) is not claimed.
			*/
			if (!std::isnan(d[j])) {
				close((*i.second)[j], d[j] * r.scale, 0.5 + 1e-9 * std::fabs(d[j] * r.scale), "int LUT against double LUT");
			}
		}
	}
});
