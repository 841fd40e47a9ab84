/* As g03, with several threads using the same function; built with the thread sanitizer */

#include "colour.h"
#include <thread>
#include <atomic>
#include <cstring>

using namespace pbt;

struct Request
{
	double from, to;
	int depth;
	bool inverse;
	int scale;
};

static Register sched_threads("sched_threads", 600, 12000, "every case: at least two threads and six requests", [](Src& s) {
	auto const f = gen_fn(s);
	auto const fn = f.make();
	static std::vector<double> const ends = {0, 1, 0.5, 0.062};
	int const threads = s.irange(2, 6);
	std::vector<std::vector<Request>> work(threads);
	std::string all;
	for (auto& w: work) {
		int const n = s.irange(3, 16);
		for (int i = 0; i < n; ++i) {
			w.push_back({s.pick(ends), s.pick(ends), s.irange(1, 8), s.boolean(), s.pick({0, 0, 1, 255, 4095})});
			auto const& r = w.back();
			all += show(r.from) + "-" + show(r.to) + "/" + std::to_string(r.depth) + (r.inverse ? "i" : "") + "*" + std::to_string(r.scale) + " ";
		}
		all += "| ";
	}
	s.note("function", f.name());
	s.note("requests", all);
	s.nontrivial();

	std::atomic<int> ready(0);
	std::atomic<bool> bad(false);
	std::vector<std::thread> pool;
	for (auto const& w: work) {
		pool.emplace_back([&]() {
			++ready;
			while (ready < threads) {}
			std::vector<std::pair<Request, std::vector<double> const*>> doubles;
			std::vector<std::pair<Request, std::vector<int> const*>> ints;
			for (auto const& r: w) {
				if (r.scale) {
					ints.push_back({r, &fn->int_lut(r.from, r.to, r.depth, r.inverse, r.scale)});
					bad = bad || ints.back().second->size() != size_t(1) << r.depth;
				} else {
					doubles.push_back({r, &fn->double_lut(r.from, r.to, r.depth, r.inverse)});
					bad = bad || doubles.back().second->size() != size_t(1) << r.depth;
				}
			}
			auto const fresh = f.make();
			for (auto const& i: doubles) {
				auto const& r = i.first;
				auto const want = fresh->double_lut(r.from, r.to, r.depth, r.inverse);
				if (want.size() != i.second->size() || memcmp(want.data(), i.second->data(), want.size() * sizeof(double))) {
					bad = true;
				}
			}
			for (auto const& i: ints) {
				auto const& r = i.first;
				auto const want = fresh->int_lut(r.from, r.to, r.depth, r.inverse, r.scale);
				if (want != *i.second) {
					bad = true;
				}
			}
		});
	}
	for (auto& t: pool) {
		t.join();
	}
	check(!bad, "a thread got a table which differs from that of an unshared function");
});
