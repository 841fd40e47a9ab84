/* Scope guards run exactly once */

#include "pbt.h"
#include "scope_guard.h"
#include <map>
#include <memory>

using namespace pbt;
using dcp::ScopeGuard;

namespace {

struct Oops {};

/** One run of a random program which uses guards, and what should happen */
struct Machine
{
	explicit Machine(Src& s) : s(s) {}

	Src& s;
	std::vector<int> got;
	std::vector<int> want;
	int next = 0;
	int budget = 25;
	std::string text;
	int moves = 0, cancels = 0, throws = 0;
	std::shared_ptr<int> resource = std::make_shared<int>(0);

	struct Holder
	{
		std::unique_ptr<ScopeGuard> guard;
		int id = -1; ///< what it should do on destruction; -1 for nothing
	};

	/* What the actions of these guards do, if it is not just to say that they have been run */
	std::map<int, std::vector<int>> nested;

	ScopeGuard make(int id)
	{
		auto r = resource;
		auto const inner = s.weighted({80, 12, 8});
		if (inner == 0) {
			return ScopeGuard([this, id, r]() { got.push_back(id); });
		}
		/* An action may have guards of its own */
		text += "(nested" + std::to_string(inner) + ") ";
		bool const cancel = s.chance(25);
		nested[id].push_back(id);
		if (inner > 1) {
			nested[id].push_back(id + 2000);
		}
		if (!cancel) {
			nested[id].push_back(id + 1000);
		}
		return ScopeGuard([this, id, r, inner, cancel]() {
			ScopeGuard one([this, id]() { got.push_back(id + 1000); });
			std::unique_ptr<ScopeGuard> two;
			if (inner > 1) {
				two.reset(new ScopeGuard([this, id]() { got.push_back(id + 2000); }));
			}
			got.push_back(id);
			if (cancel) {
				one.cancel();
			}
		});
	}

	void expect(int id)
	{
		auto i = nested.find(id);
		if (i == nested.end()) {
			want.push_back(id);
		} else {
			want.insert(want.end(), i->second.begin(), i->second.end());
		}
	}

	/* A block of the program, which may throw */
	void block(int depth)
	{
		/* Guards are destroyed in the opposite order to that in which they were made */
		struct Locals
		{
			Machine& m;
			std::vector<Holder> v;
			explicit Locals(Machine& m) : m(m) {}
			~Locals()
			{
				while (!v.empty()) {
					if (v.back().id >= 0) {
						m.expect(v.back().id);
					}
					v.back().guard.reset();
					v.pop_back();
				}
			}
		} locals(*this);
		auto& v = locals.v;
		while (budget-- > 0 && s.chance(88)) {
			auto const op = s.weighted({35, 15, 15, 12, 8, 8, 7});
			switch (op) {
			case 0:
			{
				Holder h;
				h.id = next++;
				text += "make" + std::to_string(h.id) + " ";
				h.guard.reset(new ScopeGuard(make(h.id)));
				v.push_back(std::move(h));
				break;
			}
			case 1:
				if (!v.empty()) {
					auto& h = v[s.draw(v.size() - 1)];
					text += "cancel" + std::to_string(h.id) + " ";
					h.guard->cancel();
					if (s.chance(20)) {
						h.guard->cancel();
					}
					h.id = -1;
					++cancels;
				}
				break;
			case 2:
				if (!v.empty()) {
					auto const i = s.draw(v.size() - 1);
					text += "move" + std::to_string(v[i].id) + " ";
					Holder h;
					h.guard.reset(new ScopeGuard(std::move(*v[i].guard)));
					h.id = v[i].id;
					v[i].id = -1;
					++moves;
					if (s.chance(30)) {
						/* What's left over can be cancelled, without any effect */
						v[i].guard->cancel();
					}
					v.push_back(std::move(h));
				}
				break;
			case 3:
				if (!v.empty()) {
					/* Destroy one early */
					auto const i = s.draw(v.size() - 1);
					text += "destroy" + std::to_string(v[i].id) + " ";
					if (v[i].id >= 0) {
						expect(v[i].id);
					}
					v.erase(v.begin() + i);
				}
				break;
			case 4:
				if (depth < 4) {
					text += "{ ";
					block(depth + 1);
					text += "} ";
				}
				break;
			case 5:
				if (depth < 4) {
					text += "try { ";
					try {
						block(depth + 1);
					} catch (Oops&) {
						text += "caught ";
					}
					text += "} ";
				}
				break;
			case 6:
				text += "throw ";
				++throws;
				throw Oops();
			}
			check(got == want, "actions run after " + text + ": " + list(got) + " expected " + list(want));
		}
	}

	static std::string list(std::vector<int> const& v)
	{
		std::string o = "[";
		for (auto i: v) {
			o += std::to_string(i) + " ";
		}
		return o + "]";
	}
};

}

static Register program("program", 400000, 10000000, "a guard is moved or cancelled, or an exception is thrown past one", [](Src& s) {
	Machine m(s);
	try {
		m.block(0);
	} catch (Oops&) {
	}
	s.note("program", m.text);
	s.nontrivial_if(m.next && (m.moves || m.cancels || m.throws));
	check(m.got == m.want, "actions run by the end of " + m.text + ": " + Machine::list(m.got) + " expected " + Machine::list(m.want));
	check_eq(m.resource.use_count(), 1L, "references held to something captured by an action");
});

static ScopeGuard pass(ScopeGuard g)
{
	return g;
}

static Register passing("passing", 200000, 4000000, "passed on at least twice", [](Src& s) {
	/* In and out of functions by value */
	int const n = s.draw(6);
	bool const cancel_before = s.chance(30);
	bool const cancel_after = s.chance(30);
	s.note("times", n);
	s.note("cancel", std::string(cancel_before ? "before " : "") + (cancel_after ? "after" : ""));
	s.nontrivial_if(n >= 2);
	int runs = 0;
	{
		std::unique_ptr<ScopeGuard> g(new ScopeGuard([&]() { ++runs; }));
		if (cancel_before) {
			g->cancel();
		}
		for (int i = 0; i < n; ++i) {
			std::unique_ptr<ScopeGuard> next(new ScopeGuard(pass(std::move(*g))));
			g = std::move(next);
			check_eq(runs, 0, "runs while the guard is still alive");
		}
		if (cancel_after) {
			g->cancel();
		}
		check_eq(runs, 0, "runs while the guard is still alive");
	}
	check_eq(runs, cancel_before || cancel_after ? 0 : 1, "runs at the end");
});
