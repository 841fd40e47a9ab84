/* Frequency-shift keying */

#include "pbt.h"
#include "fsk.h"
#include <cstdlib>

using namespace pbt;

static Register decode("decode", 300000, 8000000, "both values of bit, in at least two lots of data", [](Src& s) {
	dcp::FSK fsk;
	int const packets = 1 + s.draw(3);
	int32_t last = 0;
	bool have_last = false;
	bool zeros = false, ones = false;
	std::string text;
	int lots = 0;
	for (int p = 0; p < packets; ++p) {
		std::vector<bool> data;
		int n = 0;
		int const bias = s.pick({50, 10, 90});
		for (; s.more(n, 1, 100, 94); ++n) {
			data.push_back(s.chance(bias));
			(data.back() ? ones : zeros) = true;
		}
		/* Perhaps stop before the end */
		size_t const use = s.chance(80) ? data.size() : 1 + s.draw(data.size() - 1);
		for (size_t i = 0; i < data.size(); ++i) {
			text += i == use ? "|" : "";
			text += data[i] ? '1' : '0';
		}
		text += " ";
		fsk.set_data(data);
		++lots;
		for (size_t i = 0; i < use; ++i) {
			int32_t x[4];
			for (auto& j: x) {
				j = fsk.get();
				check(j > -8388608 && j < 8388608, "sample too big for 24 bits");
			}
			/* What a receiver does: a 1 changes sign in the middle, a 0 doesn't */
			bool const got = (x[1] < 0) != (x[2] < 0);
			if (got != data[i]) {
				fail("bit " + std::to_string(i) + " of packet " + std::to_string(p) + " of " + text + " is received wrongly");
			}
			/* The size of the samples */
			for (int j = 0; j < 4; ++j) {
				double const size = data[i] ? 0.07071 : (j == 0 || j == 3 ? 0.03827 : 0.09239);
				if (std::abs(x[j]) != static_cast<int>(size * 8388608)) {
					fail("size of sample " + std::to_string(j) + " of bit " + std::to_string(i) + " of " + text + " is " + std::to_string(x[j]));
				}
			}
			if ((x[0] < 0) != (x[1] < 0) || (x[2] < 0) != (x[3] < 0)) {
				fail("sign changes in the wrong place in bit " + std::to_string(i) + " of " + text);
			}
			/* It's a continuous wave, so there is a change of sign between bits */
			if (have_last && (last < 0) == (x[0] < 0)) {
				fail("no change of sign at the start of bit " + std::to_string(i) + " of packet " + std::to_string(p) + " of " + text);
			}
			last = x[3];
			have_last = true;
		}
		if (use < data.size() && s.boolean()) {
			/* Part of a bit, which is dropped when there is new data */
			int const part = s.irange(1, 3);
			text += "(" + std::to_string(part) + " samples more) ";
			for (int i = 0; i < part; ++i) {
				fsk.get();
			}
			have_last = false;
		}
	}
	s.note("data", text);
	s.nontrivial_if(zeros && ones && lots >= 2);
});

static Register independent("independent", 100000, 2000000, "both have some data", [](Src& s) {
	/* Two encoders used at once don't affect each other, and the same data gives the same samples */
	auto gen = [&]() {
		std::vector<bool> d;
		int n = 0;
		for (; s.more(n, 1, 30, 90); ++n) {
			d.push_back(s.boolean());
		}
		return d;
	};
	auto const x = gen(), y = gen();
	dcp::FSK a, b, c;
	a.set_data(x);
	b.set_data(y);
	c.set_data(x);
	std::vector<int32_t> from_a, from_c;
	size_t i = 0, j = 0;
	while (i < x.size() * 4 || j < y.size() * 4) {
		if (j >= y.size() * 4 || (i < x.size() * 4 && s.boolean())) {
			from_a.push_back(a.get());
			++i;
		} else {
			b.get();
			++j;
		}
	}
	for (size_t k = 0; k < x.size() * 4; ++k) {
		from_c.push_back(c.get());
	}
	std::string text;
	for (bool k: x) {
		text += k ? '1' : '0';
	}
	s.note("data", text);
	s.nontrivial();
	check(from_a == from_c, "same data, different samples");
});
