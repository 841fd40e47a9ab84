/*  A small property-based testing engine.
 *
 *  A case is a sequence of choices (unsigned integers).  A property draws its input from a
 *  Src, which makes fresh choices from a seeded generator, or plays back a recorded sequence.
 *  Recording choices rather than values means that any failing case (including one that
 *  crashes) can be replayed and made smaller without knowing what the property generates.
 *
 *  Every case has its own generator, seeded by (VERIF_SEED, facet name, case index), so a run is
 *  a function of the code and the seed alone, however many processes share the work.
 */

#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Failure
{
	std::string message;
};

struct Discard {};

std::string quote(std::string const& s);

template <class T> std::string show(T const& t)
{
	std::ostringstream o;
	o.precision(17);
	o << t;
	return o.str();
}

inline std::string show(std::string const& t) { return quote(t); }
inline std::string show(char const* t) { return quote(t); }
inline std::string show(bool const& t) { return t ? "true" : "false"; }
inline std::string show(uint8_t const& t) { return std::to_string(int(t)); }
inline std::string show(signed char const& t) { return std::to_string(int(t)); }

template <class T> std::string show(std::vector<T> const& v)
{
	std::string o = "[";
	size_t n = 0;
	for (auto const& i: v) {
		if (n) {
			o += ", ";
		}
		if (n == 40) {
			o += "... " + std::to_string(v.size()) + " in all";
			break;
		}
		T const x = i;
		o += show(x);
		++n;
	}
	return o + "]";
}

uint64_t hash_string(std::string const& s, uint64_t h = 1469598103934665603ULL);

class Src
{
public:
	/* Generate */
	explicit Src(uint64_t seed);
	/* Play back */
	explicit Src(std::vector<uint64_t> const& choices);

	/** @return a choice in [0, max]; 0 is the simplest */
	uint64_t draw(uint64_t max);

	/** @return uniform in [lo, hi]; shrinks towards lo */
	int64_t range(int64_t lo, int64_t hi);
	int irange(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
	/** @return [lo, hi] with extra weight on the ends and on special values; shrinks towards lo */
	int64_t edgy(int64_t lo, int64_t hi, std::vector<int64_t> special = {});
	/** @return an integer which is small more often than large: [lo, hi] on a log-ish scale */
	int64_t skewed(int64_t lo, int64_t hi);
	/** @return true with probability percent / 100; shrinks to false */
	bool chance(int percent);
	bool boolean() { return chance(50); }
	/** @return index, weights as given; shrinks towards the first */
	size_t weighted(std::initializer_list<int> weights);
	/** uniform real in [lo, hi]; shrinks towards lo */
	double real(double lo, double hi);

	template <class T> T const& pick(std::vector<T> const& v)
	{
		return v[draw(v.size() - 1)];
	}

	template <class T> T pick(std::initializer_list<T> v)
	{
		return *(v.begin() + draw(v.size() - 1));
	}

	/** A string of between min and max of the characters in alphabet */
	std::string str(std::string const& alphabet, int min, int max);
	/** As str(), with each "character" being a string */
	std::string str(std::vector<std::string> const& alphabet, int min, int max);
	std::vector<uint8_t> bytes(int min, int max);
	/** For length-like things: start a list whose length is drawn element by element so that
	 *  elements can be deleted while shrinking */
	bool more(int done, int min, int max, int percent = 75);

	/** Describe the case */
	template <class T> void note(std::string const& key, T const& value)
	{
		add_note(key, show(value));
	}
	void add_note(std::string const& key, std::string const& value);

	/** Record a feature of this case, for the distribution in the evidence */
	void label(std::string const& l) { _labels.insert(l); }
	/** Say that this case is not trivial (by the facet's rule) */
	void nontrivial() { _nontrivial = true; }
	void nontrivial_if(bool c) { if (c) { _nontrivial = true; } }
	/** Stop here and don't count this case */
	void discard() { throw Discard(); }

	/** @return path of an empty scratch directory for this case, removed when it finishes */
	std::string scratch();

	std::vector<uint64_t> const& choices() const { return _choices; }
	std::string notes() const { return _notes; }
	std::set<std::string> const& labels() const { return _labels; }
	bool is_nontrivial() const { return _nontrivial; }
	bool replaying() const { return _replay; }

	~Src();

private:
	uint64_t next();

	bool _replay = false;
	uint64_t _state[2] = {0, 0};
	std::vector<uint64_t> _given;
	std::vector<uint64_t> _choices;
	std::string _notes;
	std::set<std::string> _labels;
	bool _nontrivial = false;
	std::string _scratch;
};

typedef std::function<void (Src&)> Case;

struct Facet
{
	std::string name;
	int quick;      ///< cases in the quick tier
	int thorough;   ///< cases in the thorough tier
	std::string rule;
	Case fn;
	bool serial;    ///< use only one process for this facet
};

/** Registers a facet of the property which this binary decides */
struct Register
{
	Register(std::string name, int quick, int thorough, std::string rule, Case fn, bool serial = false);
};

[[noreturn]] void fail(std::string message);

/** Root scratch directory for this process */
std::string scratch_root();

/** Give up root's privileges (if we have them) for the rest of the life of the process that is running
 *  this case, so that if the code under test goes wrong it can't reach anything but scratch files.
 */
void unprivileged();

template <class A, class B>
void check_eq(A const& a, B const& b, char const* what, std::string const& more = "");

template <class A, class B>
void check_eq(A const& a, B const& b, std::string const& what, std::string const& more = "")
{
	check_eq(a, b, what.c_str(), more);
}

template <class A, class B>
void check_eq(A const& a, B const& b, char const* what, std::string const& more)
{
	if (!(a == b)) {
		fail(std::string(what) + ": got " + show(a) + ", expected " + show(b) + (more.empty() ? "" : " (" + more + ")"));
	}
}

inline void check(bool c, std::string const& what)
{
	if (!c) {
		fail(what);
	}
}

/** Hook which a harness can set to run before each case (in whichever process runs the case) */
extern std::function<void ()> before_case;
extern std::function<void ()> at_start;

}

#endif
