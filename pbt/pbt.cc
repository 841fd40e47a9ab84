#include "pbt.h"
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>

using namespace pbt;
using std::string;
using std::vector;

namespace pbt {
__attribute__((init_priority(200))) std::function<void ()> before_case;
__attribute__((init_priority(200))) std::function<void ()> at_start;
}

static vector<Facet>& facets()
{
	static vector<Facet> f;
	return f;
}

Register::Register(string name, int quick, int thorough, string rule, Case fn, bool serial)
{
	facets().push_back({name, quick, thorough, rule, fn, serial});
}

void pbt::fail(string message)
{
	throw Failure{message};
}

string pbt::quote(string const& s)
{
	string o = "\"";
	for (unsigned char c: s) {
		char b[8];
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c == '\n') {
			o += "\\n";
		} else if (c < 32 || c == 127) {
			snprintf(b, sizeof(b), "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o + "\"";
}

uint64_t pbt::hash_string(string const& s, uint64_t h)
{
	for (unsigned char c: s) {
		h ^= c;
		h *= 1099511628211ULL;
	}
	return h;
}

static uint64_t splitmix(uint64_t& x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

Src::Src(uint64_t seed)
{
	_state[0] = splitmix(seed);
	_state[1] = splitmix(seed);
}

Src::Src(vector<uint64_t> const& choices)
	: _replay(true)
	, _given(choices)
{
}

static void remove_tree(string const& path)
{
	struct stat st;
	if (lstat(path.c_str(), &st)) {
		return;
	}
	if (S_ISDIR(st.st_mode)) {
		chmod(path.c_str(), 0700);
		if (auto d = opendir(path.c_str())) {
			while (auto e = readdir(d)) {
				string const n = e->d_name;
				if (n != "." && n != "..") {
					remove_tree(path + "/" + n);
				}
			}
			closedir(d);
		}
		rmdir(path.c_str());
	} else {
		unlink(path.c_str());
	}
}

Src::~Src()
{
	if (!_scratch.empty()) {
		if (chdir("/")) {}
		remove_tree(_scratch);
	}
}

uint64_t Src::next()
{
	/* xorshift128+ */
	uint64_t x = _state[0];
	uint64_t const y = _state[1];
	_state[0] = y;
	x ^= x << 23;
	_state[1] = x ^ y ^ (x >> 17) ^ (y >> 26);
	return _state[1] + y;
}

/* The choices of the running case are kept in shared memory so that they survive a crash */
struct Shared
{
	volatile int64_t index;
	volatile uint64_t count;
	char notes[4096];
	uint64_t choices[1 << 20];
};
static Shared* shared = nullptr;

uint64_t Src::draw(uint64_t max)
{
	uint64_t v = 0;
	if (_replay) {
		if (_choices.size() < _given.size()) {
			v = std::min(_given[_choices.size()], max);
		}
	} else if (max == std::numeric_limits<uint64_t>::max()) {
		v = next();
	} else {
		v = (static_cast<unsigned __int128>(next()) * (max + 1)) >> 64;
	}
	_choices.push_back(v);
	if (shared && _choices.size() <= (1 << 20)) {
		shared->choices[_choices.size() - 1] = v;
		shared->count = _choices.size();
	}
	return v;
}

int64_t Src::range(int64_t lo, int64_t hi)
{
	return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo)));
}

int64_t Src::edgy(int64_t lo, int64_t hi, vector<int64_t> special)
{
	switch (weighted({60, 25, 15})) {
	case 0:
		return range(lo, hi);
	case 1:
	{
		vector<int64_t> v = {lo, hi, lo, hi};
		if (hi > lo) {
			v[2] = lo + 1;
			v[3] = hi - 1;
		}
		for (auto s: special) {
			if (s >= lo && s <= hi) {
				v.push_back(s);
			}
		}
		return pick(v);
	}
	default:
		return skewed(lo, hi);
	}
}

int64_t Src::skewed(int64_t lo, int64_t hi)
{
	uint64_t const span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo);
	int bits = 0;
	while (bits < 64 && (span >> bits)) {
		++bits;
	}
	int const b = irange(0, bits);
	uint64_t const cap = b >= 64 ? span : std::min(span, (uint64_t(1) << b) - 1);
	return lo + static_cast<int64_t>(draw(cap));
}

bool Src::chance(int percent)
{
	return draw(99) >= static_cast<uint64_t>(100 - percent);
}

size_t Src::weighted(std::initializer_list<int> weights)
{
	int total = 0;
	for (auto w: weights) {
		total += w;
	}
	int v = static_cast<int>(draw(total - 1));
	size_t n = 0;
	for (auto w: weights) {
		if (v < w) {
			return n;
		}
		v -= w;
		++n;
	}
	return 0;
}

double Src::real(double lo, double hi)
{
	/* 2^40 steps: fine enough, and the shrinker can get to round numbers */
	uint64_t const steps = uint64_t(1) << 40;
	return lo + (hi - lo) * (static_cast<double>(draw(steps)) / static_cast<double>(steps));
}

bool Src::more(int done, int min, int max, int percent)
{
	if (done < min) {
		return true;
	}
	if (done >= max) {
		return false;
	}
	return chance(percent);
}

string Src::str(string const& alphabet, int min, int max)
{
	string o;
	int const p = pick({50, 75, 90, 97});
	while (more(static_cast<int>(o.size()), min, max, p)) {
		o += alphabet[draw(alphabet.size() - 1)];
	}
	return o;
}

string Src::str(vector<string> const& alphabet, int min, int max)
{
	string o;
	int n = 0;
	int const p = pick({50, 75, 90, 97});
	while (more(n++, min, max, p)) {
		o += pick(alphabet);
	}
	return o;
}

vector<uint8_t> Src::bytes(int min, int max)
{
	int const n = static_cast<int>(skewed(min, max));
	vector<uint8_t> o(n);
	/* One choice for a whole block of bytes when there are many of them */
	if (n > 256) {
		uint64_t seed = draw(std::numeric_limits<uint32_t>::max());
		for (auto& i: o) {
			i = static_cast<uint8_t>(splitmix(seed));
		}
	} else {
		for (auto& i: o) {
			i = static_cast<uint8_t>(draw(255));
		}
	}
	return o;
}

void Src::add_note(string const& key, string const& value)
{
	if (!_notes.empty()) {
		_notes += ", ";
	}
	_notes += key + "=" + value;
	if (shared) {
		strncpy(shared->notes, _notes.c_str(), sizeof(shared->notes) - 1);
	}
}

void pbt::unprivileged()
{
	static bool done = false;
	if (done || geteuid() != 0) {
		return;
	}
	done = true;
	if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) {
		std::cerr << "HARNESS: could not give up privileges\n";
		_exit(70);
	}
	umask(022);
}

string pbt::scratch_root()
{
	auto e = getenv("VERIF_SCRATCH");
	return e ? e : "/tmp";
}

string Src::scratch()
{
	if (_scratch.empty()) {
		auto t = scratch_root() + "/case-XXXXXX";
		vector<char> b(t.begin(), t.end());
		b.push_back(0);
		if (!mkdtemp(b.data())) {
			std::cerr << "HARNESS: could not make scratch directory\n";
			_exit(70);
		}
		_scratch = b.data();
	}
	return _scratch;
}

/* ---- running cases ---- */

enum class Status { PASS, FAIL, DISCARD, CRASH };

struct Outcome
{
	Status status = Status::PASS;
	string message;
	string notes;
	vector<uint64_t> choices;
	std::set<string> labels;
	bool nontrivial = false;
};

static string demangle(char const* n)
{
	int s = 0;
	char* d = abi::__cxa_demangle(n, nullptr, nullptr, &s);
	string r = d ? d : n;
	free(d);
	return r;
}

static Outcome run_case(Facet const& f, Src& src)
{
	Outcome o;
	try {
		if (before_case) {
			before_case();
		}
		f.fn(src);
	} catch (Failure const& e) {
		o.status = Status::FAIL;
		o.message = e.message;
	} catch (Discard const&) {
		o.status = Status::DISCARD;
	} catch (std::bad_alloc const& e) {
		o.status = Status::FAIL;
		o.message = string("unexpected exception std::bad_alloc");
	} catch (std::exception const& e) {
		o.status = Status::FAIL;
		o.message = "unexpected exception " + demangle(typeid(e).name()) + ": " + e.what();
	} catch (...) {
		o.status = Status::FAIL;
		o.message = "unexpected exception of unknown type";
	}
	o.notes = src.notes();
	o.choices = src.choices();
	o.labels = src.labels();
	o.nontrivial = src.is_nontrivial();
	return o;
}

static uint64_t case_seed(uint64_t seed, Facet const& f, int64_t index)
{
	uint64_t h = hash_string(f.name, 1469598103934665603ULL ^ (seed * 0x9e3779b97f4a7c15ULL));
	h ^= static_cast<uint64_t>(index) * 0xd6e8feb86659fd93ULL;
	return splitmix(h);
}

static int const case_time_limit = 180;

static string read_file(string const& p)
{
	std::ifstream f(p, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}

static string tail_of_stderr(string const& p)
{
	auto s = read_file(p);
	auto i = s.find("ERROR: ");
	if (i == string::npos) {
		i = s.find("runtime error: ");
		if (i != string::npos) {
			auto j = s.rfind('\n', i);
			i = j == string::npos ? 0 : j + 1;
		}
	}
	if (i == string::npos) {
		i = s.find("WARNING: ThreadSanitizer");
	}
	if (i == string::npos) {
		i = s.size() > 400 ? s.size() - 400 : 0;
	}
	return s.substr(i, 600);
}

static string describe_status(int st)
{
	if (WIFSIGNALED(st)) {
		return string("killed by signal ") + std::to_string(WTERMSIG(st)) + (WTERMSIG(st) == SIGALRM ? " (time limit)" : "");
	}
	return "process exited with status " + std::to_string(WEXITSTATUS(st));
}

static void put(string& o, string const& s)
{
	uint64_t n = s.size();
	o.append(reinterpret_cast<char*>(&n), 8);
	o += s;
}

static string get(string const& s, size_t& p)
{
	uint64_t n = 0;
	if (p + 8 > s.size()) {
		throw std::runtime_error("short message from worker");
	}
	memcpy(&n, s.data() + p, 8);
	p += 8;
	if (p + n > s.size()) {
		throw std::runtime_error("short message from worker");
	}
	auto r = s.substr(p, n);
	p += n;
	return r;
}

static void write_all(int fd, string const& s)
{
	size_t d = 0;
	while (d < s.size()) {
		auto n = ::write(fd, s.data() + d, s.size() - d);
		if (n < 0) {
			if (errno == EINTR) {
				continue;
			}
			_exit(71);
		}
		d += n;
	}
}

static Shared* make_shared_memory()
{
	auto p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		std::cerr << "HARNESS: mmap failed\n";
		_exit(70);
	}
	return static_cast<Shared*>(p);
}

static void redirect_stderr(string const& p)
{
	int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd >= 0) {
		dup2(fd, 2);
		dup2(fd, 1);
		close(fd);
	}
}

/** Seeds of cases to run before any that is run by run_isolated(), for failures which need something to have happened before them */
static vector<uint64_t> history;

/** Run one case, given by its choices, in a process of its own */
static Outcome run_isolated(Facet const& f, vector<uint64_t> const& choices)
{
	int fds[2];
	if (pipe(fds)) {
		_exit(70);
	}
	auto const err = scratch_root() + "/stderr-" + std::to_string(getpid());
	auto sh = make_shared_memory();
	auto pid = fork();
	if (pid == 0) {
		close(fds[0]);
		redirect_stderr(err);
		shared = sh;
		for (auto h: history) {
			alarm(case_time_limit);
			Src src(h);
			run_case(f, src);
		}
		shared->count = 0;
		shared->notes[0] = 0;
		alarm(case_time_limit);
		Outcome o;
		{
			Src src(choices);
			o = run_case(f, src);
		}
		string m;
		m += static_cast<char>(o.status);
		put(m, o.message);
		put(m, o.notes);
		put(m, string(reinterpret_cast<char const*>(o.choices.data()), o.choices.size() * 8));
		write_all(fds[1], m);
		_exit(0);
	}
	close(fds[1]);
	string m;
	char b[65536];
	while (true) {
		auto n = read(fds[0], b, sizeof(b));
		if (n < 0 && errno == EINTR) {
			continue;
		}
		if (n <= 0) {
			break;
		}
		m.append(b, n);
	}
	close(fds[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	Outcome o;
	if (st == 0 && !m.empty()) {
		o.status = static_cast<Status>(m[0]);
		size_t p = 1;
		o.message = get(m, p);
		o.notes = get(m, p);
		auto c = get(m, p);
		o.choices.resize(c.size() / 8);
		if (!c.empty()) {
			memcpy(o.choices.data(), c.data(), o.choices.size() * 8);
		}
	} else {
		o.status = Status::CRASH;
		o.message = describe_status(st) + ": " + tail_of_stderr(err);
		o.choices.assign(sh->choices, sh->choices + std::min<uint64_t>(uint64_t(sh->count), 1 << 20));
		o.notes = sh->notes;
	}
	munmap(sh, sizeof(Shared));
	unlink(err.c_str());
	return o;
}

static bool bad(Outcome const& o)
{
	return o.status == Status::FAIL || o.status == Status::CRASH;
}

static bool simpler(vector<uint64_t> const& a, vector<uint64_t> const& b)
{
	if (a.size() != b.size()) {
		return a.size() < b.size();
	}
	return a < b;
}

/** Find which of the cases that the same worker ran before a failing one are needed to make it fail, and put them in history.
 *  @param index Index of the failing case.
 *  @param step Difference between the indices of the cases that the worker ran.
 */
static Outcome find_history(Facet const& f, uint64_t seed, int64_t index, int64_t step, vector<uint64_t> const& choices)
{
	Outcome best;
	for (int64_t n = 1; ; n *= 4) {
		history.clear();
		for (int64_t i = std::min(n, index / step); i > 0; --i) {
			history.push_back(case_seed(seed, f, index - i * step));
		}
		best = run_isolated(f, choices);
		if (bad(best)) {
			break;
		}
		if (n >= index / step) {
			history.clear();
			return best;
		}
	}

	auto const start = std::chrono::steady_clock::now();
	for (size_t k = std::max<size_t>(1, history.size() / 2); k > 0; k /= 2) {
		for (size_t i = 0; i < history.size() && std::chrono::steady_clock::now() - start < std::chrono::seconds(60); ) {
			auto const old = history;
			history.erase(history.begin() + i, history.begin() + std::min(history.size(), i + k));
			auto o = run_isolated(f, choices);
			if (bad(o)) {
				best = o;
			} else {
				history = old;
				i += k;
			}
		}
	}
	return best;
}

/** Make a failing case smaller */
static Outcome shrink(Facet const& f, Outcome best)
{
	int budget = 1500;
	auto const start = std::chrono::steady_clock::now();
	auto out_of_time = [&]() {
		return budget <= 0 || std::chrono::steady_clock::now() - start > std::chrono::seconds(60);
	};

	auto attempt = [&](vector<uint64_t> const& c) {
		if (out_of_time() || c == best.choices) {
			return false;
		}
		--budget;
		auto o = run_isolated(f, c);
		if (bad(o) && simpler(o.choices, best.choices)) {
			best = o;
			return true;
		}
		return false;
	};

	bool changed = true;
	while (changed && !out_of_time()) {
		changed = false;
		/* Delete blocks */
		for (size_t k: {64, 32, 16, 8, 4, 3, 2, 1}) {
			if (best.choices.size() < k) {
				continue;
			}
			for (size_t i = best.choices.size() - k + 1; i-- > 0 && !out_of_time();) {
				if (i + k > best.choices.size()) {
					continue;
				}
				auto c = best.choices;
				c.erase(c.begin() + i, c.begin() + i + k);
				if (attempt(c)) {
					changed = true;
				}
			}
		}
		/* Zero blocks */
		for (size_t k: {32, 8, 2}) {
			for (size_t i = 0; i + k <= best.choices.size() && !out_of_time(); i += k) {
				auto c = best.choices;
				std::fill(c.begin() + i, c.begin() + i + k, 0);
				if (attempt(c)) {
					changed = true;
				}
			}
		}
		/* Make single choices smaller */
		for (size_t i = 0; i < best.choices.size() && !out_of_time(); ++i) {
			if (best.choices[i] == 0) {
				continue;
			}
			auto c = best.choices;
			c[i] = 0;
			if (attempt(c)) {
				changed = true;
				continue;
			}
			uint64_t lo = 0;
			while (i < best.choices.size() && best.choices[i] - lo > 1 && !out_of_time()) {
				c = best.choices;
				uint64_t const hi = best.choices[i];
				c[i] = lo + (hi - lo) / 2;
				uint64_t const tried = c[i];
				if (attempt(c)) {
					changed = true;
				} else {
					lo = tried;
				}
			}
		}
	}
	return best;
}

struct FacetResult
{
	int64_t cases = 0;
	int64_t discards = 0;
	int64_t nontrivial = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<string, int64_t> labels;
	std::map<int64_t, string> samples;
	bool failed = false;
	int64_t failed_index = -1;
	Outcome failure;
};

static string json(string const& s)
{
	/* Make sure that what we write is valid UTF-8 */
	string o;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 1 : (c >= 0xc2 && c < 0xe0) ? 2 : (c >= 0xe0 && c < 0xf0) ? 3 : (c >= 0xf0 && c < 0xf5) ? 4 : 0;
		bool ok = n > 0 && i + n <= s.size();
		for (int j = 1; ok && j < n; ++j) {
			ok = (static_cast<unsigned char>(s[i + j]) & 0xc0) == 0x80;
		}
		if (!ok) {
			char b[8];
			snprintf(b, sizeof(b), "<%02x>", c);
			o += b;
			++i;
		} else {
			o += s.substr(i, n);
			i += n;
		}
	}
	return quote(o);
}

struct Options
{
	string tier = "quick";
	uint64_t seed = 1;
	int jobs = 8;
	string out;
	string facet;
	vector<uint64_t> replay;
	bool have_replay = false;
	double scale = 1;
	bool no_shrink = false;
};

struct Job
{
	size_t facet;
	int64_t from, step, total;
	pid_t pid = 0;
	int fd = -1;
	Shared* shared = nullptr;
	string data;
	string err;
	bool done = false;
};

static void worker(Options const& opt, Facet const& f, Job& job)
{
	shared = job.shared;
	redirect_stderr(job.err);
	string m;
	FacetResult r;
	for (int64_t i = job.from; i < job.total; i += job.step) {
		shared->index = i;
		shared->count = 0;
		shared->notes[0] = 0;
		alarm(case_time_limit);
		Outcome o;
		{
			Src src(case_seed(opt.seed, f, i));
			o = run_case(f, src);
		}
		++r.cases;
		if (o.status == Status::FAIL) {
			r.failed = true;
			r.failed_index = i;
			r.failure = o;
			break;
		}
		if (o.status == Status::DISCARD) {
			++r.discards;
			continue;
		}
		for (auto const& l: o.labels) {
			r.labels[l]++;
		}
		if (o.nontrivial) {
			++r.nontrivial;
			string k = o.notes;
			if (k.empty()) {
				k.assign(reinterpret_cast<char const*>(o.choices.data()), o.choices.size() * 8);
			}
			r.distinct.insert(hash_string(k));
			if (r.samples.size() < 2) {
				r.samples[i] = o.notes.substr(0, 1500);
			}
		}
	}
	alarm(0);
	put(m, std::to_string(r.cases));
	put(m, std::to_string(r.discards));
	put(m, std::to_string(r.nontrivial));
	string d;
	for (auto h: r.distinct) {
		d.append(reinterpret_cast<char*>(&h), 8);
	}
	put(m, d);
	put(m, std::to_string(r.labels.size()));
	for (auto const& l: r.labels) {
		put(m, l.first);
		put(m, std::to_string(l.second));
	}
	put(m, std::to_string(r.samples.size()));
	for (auto const& s: r.samples) {
		put(m, std::to_string(s.first));
		put(m, s.second);
	}
	put(m, r.failed ? "1" : "0");
	if (r.failed) {
		put(m, std::to_string(r.failed_index));
		put(m, r.failure.message);
		put(m, r.failure.notes);
		put(m, string(reinterpret_cast<char const*>(r.failure.choices.data()), r.failure.choices.size() * 8));
	}
	write_all(job.fd, m);
	_exit(0);
}

static void merge(FacetResult& r, Job const& job, int st)
{
	if (st != 0) {
		/* Something in there crashed */
		auto const i = job.shared->index;
		r.cases += (i - job.from) / job.step + 1;
		if (!r.failed || i < r.failed_index) {
			r.failed = true;
			r.failed_index = i;
			r.failure = {};
			r.failure.status = Status::CRASH;
			r.failure.message = describe_status(st) + ": " + tail_of_stderr(job.err);
			r.failure.choices.assign(job.shared->choices, job.shared->choices + std::min<uint64_t>(uint64_t(job.shared->count), 1 << 20));
			r.failure.notes = job.shared->notes;
		}
		return;
	}
	size_t p = 0;
	auto const& m = job.data;
	r.cases += std::stoll(get(m, p));
	r.discards += std::stoll(get(m, p));
	r.nontrivial += std::stoll(get(m, p));
	auto d = get(m, p);
	for (size_t i = 0; i + 8 <= d.size(); i += 8) {
		uint64_t h;
		memcpy(&h, d.data() + i, 8);
		r.distinct.insert(h);
	}
	int n = std::stoi(get(m, p));
	for (int i = 0; i < n; ++i) {
		auto l = get(m, p);
		r.labels[l] += std::stoll(get(m, p));
	}
	n = std::stoi(get(m, p));
	for (int i = 0; i < n; ++i) {
		auto k = std::stoll(get(m, p));
		r.samples[k] = get(m, p);
	}
	if (get(m, p) == "1") {
		auto i = std::stoll(get(m, p));
		Outcome o;
		o.status = Status::FAIL;
		o.message = get(m, p);
		o.notes = get(m, p);
		auto c = get(m, p);
		o.choices.resize(c.size() / 8);
		if (!c.empty()) {
			memcpy(o.choices.data(), c.data(), o.choices.size() * 8);
		}
		if (!r.failed || i < r.failed_index) {
			r.failed = true;
			r.failed_index = i;
			r.failure = o;
		}
	}
}

static string outcome_name(Status s)
{
	switch (s) {
	case Status::PASS: return "pass";
	case Status::FAIL: return "fail";
	case Status::DISCARD: return "discard";
	case Status::CRASH: return "crash";
	}
	return "?";
}

static string choices_json(vector<uint64_t> const& c)
{
	string o = "[";
	for (size_t i = 0; i < c.size(); ++i) {
		o += (i ? "," : "") + std::to_string(c[i]);
	}
	return o + "]";
}

#ifndef PBT_NO_MAIN
int main(int argc, char* argv[])
{
	Options opt;
	for (int i = 1; i < argc; ++i) {
		string a = argv[i];
		auto value = [&]() -> string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--tier") {
			opt.tier = value();
		} else if (a == "--seed") {
			opt.seed = std::stoull(value());
		} else if (a == "--jobs") {
			opt.jobs = std::stoi(value());
		} else if (a == "--out") {
			opt.out = value();
		} else if (a == "--facet") {
			opt.facet = value();
		} else if (a == "--scale") {
			opt.scale = std::stod(value());
		} else if (a == "--no-shrink") {
			opt.no_shrink = true;
		} else if (a == "--list") {
			for (auto const& f: facets()) {
				std::cout << f.name << "\n";
			}
			return 0;
		} else if (a == "--replay") {
			std::istringstream s(value());
			uint64_t v;
			while (s >> v) {
				opt.replay.push_back(v);
			}
			opt.have_replay = true;
		} else if (a == "--history") {
			std::istringstream s(value());
			uint64_t v;
			while (s >> v) {
				history.push_back(v);
			}
		} else {
			std::cerr << "HARNESS: unknown option " << a << "\n";
			return 70;
		}
	}

	signal(SIGPIPE, SIG_IGN);
	if (at_start) {
		at_start();
	}

	if (opt.have_replay) {
		for (auto const& f: facets()) {
			if (f.name == opt.facet) {
				auto o = run_isolated(f, opt.replay);
				std::cout << outcome_name(o.status) << "\n" << o.message << "\n" << o.notes << "\n";
				return bad(o) ? 1 : 0;
			}
		}
		std::cerr << "HARNESS: no facet " << opt.facet << "\n";
		return 70;
	}

	auto const& all = facets();
	vector<FacetResult> results(all.size());
	vector<double> walls(all.size(), 0);
	vector<Job> jobs;
	vector<int> splits(all.size(), 1);
	for (size_t f = 0; f < all.size(); ++f) {
		if (!opt.facet.empty() && all[f].name != opt.facet) {
			continue;
		}
		int64_t n = std::max<int64_t>(1, static_cast<int64_t>((opt.tier == "thorough" ? all[f].thorough : all[f].quick) * opt.scale));
		int const split = all[f].serial ? 1 : std::min<int64_t>(opt.jobs, n);
		splits[f] = split;
		for (int s = 0; s < split; ++s) {
			Job j;
			j.facet = f;
			j.from = s;
			j.step = split;
			j.total = n;
			jobs.push_back(j);
		}
	}

	/* Run them, no more than opt.jobs at a time */
	size_t next = 0;
	int running = 0;
	std::map<pid_t, std::chrono::steady_clock::time_point> started;
	while (next < jobs.size() || running > 0) {
		while (running < opt.jobs && next < jobs.size()) {
			auto& j = jobs[next];
			j.shared = make_shared_memory();
			j.err = scratch_root() + "/worker-" + std::to_string(getpid()) + "-" + std::to_string(next);
			int fds[2];
			if (pipe(fds)) {
				return 70;
			}
			auto pid = fork();
			if (pid < 0) {
				std::cerr << "HARNESS: fork failed\n";
				return 70;
			}
			if (pid == 0) {
				close(fds[0]);
				for (auto const& k: jobs) {
					if (k.fd >= 0) {
						close(k.fd);
					}
				}
				j.fd = fds[1];
				worker(opt, all[j.facet], j);
			}
			close(fds[1]);
			j.fd = fds[0];
			j.pid = pid;
			started[pid] = std::chrono::steady_clock::now();
			++running;
			++next;
		}
		vector<pollfd> p;
		vector<size_t> which;
		for (size_t i = 0; i < jobs.size(); ++i) {
			if (jobs[i].fd >= 0) {
				p.push_back({jobs[i].fd, POLLIN, 0});
				which.push_back(i);
			}
		}
		poll(p.data(), p.size(), -1);
		for (size_t i = 0; i < p.size(); ++i) {
			if (!p[i].revents) {
				continue;
			}
			auto& j = jobs[which[i]];
			char b[65536];
			auto n = read(j.fd, b, sizeof(b));
			if (n > 0) {
				j.data.append(b, n);
			} else if (n == 0 || errno != EINTR) {
				close(j.fd);
				j.fd = -1;
				int st = 0;
				waitpid(j.pid, &st, 0);
				merge(results[j.facet], j, st);
				walls[j.facet] += std::chrono::duration<double>(std::chrono::steady_clock::now() - started[j.pid]).count();
				munmap(j.shared, sizeof(Shared));
				unlink(j.err.c_str());
				--running;
			}
		}
	}

	bool any = false;
	std::ostringstream o;
	o << "{\"facets\": [";
	bool first = true;
	for (size_t f = 0; f < all.size(); ++f) {
		auto& r = results[f];
		if (r.cases == 0) {
			continue;
		}
		if (r.failed) {
			any = true;
			if (!opt.no_shrink) {
				/* Start from an isolated run, so that we know that it can be replayed */
				history.clear();
				auto again = run_isolated(all[f], r.failure.choices);
				if (!bad(again)) {
					/* Perhaps it depends on what was done before */
					again = find_history(all[f], opt.seed, r.failed_index, splits[f], r.failure.choices);
				}
				if (bad(again)) {
					r.failure = shrink(all[f], again);
				} else {
					r.failure.message += " [not repeated in isolation]";
				}
			}
		}
		o << (first ? "" : ",") << "\n {\"name\": " << json(all[f].name)
		  << ", \"rule\": " << json(all[f].rule)
		  << ", \"cases\": " << r.cases
		  << ", \"discards\": " << r.discards
		  << ", \"nontrivial\": " << r.nontrivial
		  << ", \"distinct_nontrivial\": " << r.distinct.size()
		  << ", \"cpu_s\": " << walls[f]
		  << ", \"labels\": {";
		first = false;
		bool fl = true;
		for (auto const& l: r.labels) {
			o << (fl ? "" : ", ") << json(l.first) << ": " << l.second;
			fl = false;
		}
		o << "}, \"samples\": [";
		int ns = 0;
		for (auto const& s: r.samples) {
			if (ns == 3) {
				break;
			}
			o << (ns ? ", " : "") << json(s.second);
			++ns;
		}
		o << "]";
		if (r.failed) {
			o << ", \"failure\": {\"index\": " << r.failed_index
			  << ", \"kind\": " << json(outcome_name(r.failure.status))
			  << ", \"message\": " << json(r.failure.message)
			  << ", \"notes\": " << json(r.failure.notes)
			  << ", \"history\": " << choices_json(history)
			  << ", \"choices\": " << choices_json(r.failure.choices) << "}";
		}
		o << "}";
	}
	o << "\n]}\n";
	if (opt.out.empty()) {
		std::cout << o.str();
	} else {
		std::ofstream s(opt.out);
		s << o.str();
	}
	return any ? 1 : 0;
}
#endif
