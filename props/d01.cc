/* Blocks of data on disk */

#include "blob.h"
#include "exceptions.h"
#include <sys/stat.h>

using namespace pbt;

static Register roundtrip("roundtrip", 60000, 1000000, "some data, written over an existing file", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	Blob a(gen_blob(s));
	bool const via_temp = s.boolean();
	bool const existing = s.boolean();
	auto const file = dir + "/" + gen_name(s);
	auto const temp = dir + "/temp";
	Bytes old;
	if (existing) {
		old = gen_blob(s);
		put_file(file, old);
		if (via_temp && s.boolean()) {
			put_file(temp, gen_blob(s));
		}
	}
	s.note("size", a.bytes.size());
	s.note("hash", hash_bytes(a.bytes));
	s.note("via_temp", via_temp);
	s.note("old", existing ? std::to_string(old.size()) : "none");
	s.nontrivial_if(!a.bytes.empty() && existing);
	auto const before = a.bytes;
	if (via_temp) {
		a.write_via_temp(temp, file);
		check(!there(temp), "temporary file still there");
	} else {
		a.write(file);
	}
	check(a.bytes == before, "writing changed the data");
	check(get_file(file) == a.bytes, "file does not hold what was written");
	/* Nothing else appeared */
	check_eq(count_entries(dir), 1, "files in directory");
});

/** Part of a blob, using its memory */
class Part : public dcp::Data
{
public:
	Part(Blob& blob, int from, int length)
		: _data(blob.data() + from)
		, _length(length)
	{}

	uint8_t const* data() const override {
		return _data;
	}

	uint8_t* data() override {
		return _data;
	}

	int size() const override {
		return _length;
	}

private:
	uint8_t* _data;
	int _length;
};

static Register equality("equality", 400000, 5000000, "both have data in and are of the same length", [](Src& s) {
	Blob a(gen_blob(s));
	Blob b(a.bytes);
	int const how = s.weighted({30, 40, 10, 10, 10});
	switch (how) {
	case 0:
		break;
	case 1:
		if (!b.bytes.empty()) {
			b.bytes[s.edgy(0, b.bytes.size() - 1)] ^= 1 << s.draw(7);
		}
		break;
	case 2:
		b.bytes.push_back(static_cast<uint8_t>(s.draw(255)));
		break;
	case 3:
		if (!b.bytes.empty()) {
			b.bytes.pop_back();
		}
		break;
	default:
		b.bytes = gen_blob(s);
	}
	s.note("a", a.bytes.size());
	s.note("b", b.bytes.size());
	s.note("hash", hash_bytes(a.bytes) + "/" + hash_bytes(b.bytes));
	s.nontrivial_if(!a.bytes.empty() && a.bytes.size() == b.bytes.size());
	bool const want = a.bytes == b.bytes;
	s.label(want ? "same" : "different");
	dcp::Data const& x = a;
	dcp::Data const& y = b;
	check_eq(x == y, want, "==");
	check_eq(y == x, want, "== the other way round");
	check_eq(x != y, !want, "!=");
	check_eq(y != x, !want, "!= the other way round");
	check(x == x && !(x != x), "not equal to itself");

	/* Parts of the same memory */
	int const n = static_cast<int>(a.bytes.size());
	int const from = s.irange(0, n), length = s.chance(30) ? n - from : s.irange(0, n - from);
	Part const part(a, from, length);
	bool const same = length == n;
	check_eq(x == part, same, "== with part of itself");
	check_eq(part == x, same, "part of itself ==");
	check_eq(x != part, !same, "!= with part of itself");
	check_eq(part != x, !same, "part of itself !=");
});

static Register refused("refused", 40000, 600000, "every case", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	Blob a(gen_blob(s));
	bool const via_temp = s.boolean();
	auto const final = dir + "/final";
	auto const old = gen_blob(s);
	put_file(final, old);
	std::string bad;
	int const how = s.draw(2);
	switch (how) {
	case 0:
		bad = dir + "/no/such/directory/x";
		break;
	case 1:
		bad = dir + "/d";
		mkdir(bad.c_str(), 0700);
		break;
	default:
		bad = dir + "/r";
		put_file(bad, {1, 2, 3});
		chmod(bad.c_str(), 0400);
		if (geteuid() == 0) {
			s.discard();
		}
	}
	s.note("why", how == 0 ? "no directory" : (how == 1 ? "is a directory" : "read-only"));
	s.note("size", a.bytes.size());
	s.note("via_temp", via_temp);
	s.nontrivial();
	bool threw = false;
	try {
		if (via_temp) {
			a.write_via_temp(bad, final);
		} else {
			a.write(bad);
		}
	} catch (dcp::FileError& e) {
		threw = true;
		check_eq(e.filename().string(), bad, "file in the error");
	}
	check(threw, "no error when the file could not be written");
	check(get_file(final) == old, "another file changed");
	if (how == 2) {
		check(get_file(bad) == Bytes({1, 2, 3}), "read-only file changed");
	}
});
