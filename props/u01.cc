/* Digests, encodings and identifiers */

#include "full.h"
#include "array_data.h"
#include "exceptions.h"
#include "local_time.h"
#include <algorithm>
#include <fstream>

using namespace pbt;

static full::Setup setup;

/* SHA-1 and base64 from their specifications */

static std::vector<uint8_t> sha1(std::vector<uint8_t> m)
{
	uint32_t h[5] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0 };
	uint64_t const bits = uint64_t(m.size()) * 8;
	m.push_back(0x80);
	while (m.size() % 64 != 56) {
		m.push_back(0);
	}
	for (int i = 7; i >= 0; --i) {
		m.push_back(static_cast<uint8_t>(bits >> (i * 8)));
	}
	auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
	for (size_t b = 0; b < m.size(); b += 64) {
		uint32_t w[80];
		for (int i = 0; i < 16; ++i) {
			w[i] = (uint32_t(m[b + i * 4]) << 24) | (m[b + i * 4 + 1] << 16) | (m[b + i * 4 + 2] << 8) | m[b + i * 4 + 3];
		}
		for (int i = 16; i < 80; ++i) {
			w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		}
		uint32_t a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
		for (int i = 0; i < 80; ++i) {
			uint32_t f, k;
			if (i < 20) {
				f = (bb & c) | (~bb & d);
				k = 0x5a827999;
			} else if (i < 40) {
				f = bb ^ c ^ d;
				k = 0x6ed9eba1;
			} else if (i < 60) {
				f = (bb & c) | (bb & d) | (c & d);
				k = 0x8f1bbcdc;
			} else {
				f = bb ^ c ^ d;
				k = 0xca62c1d6;
			}
			uint32_t const t = rol(a, 5) + f + e + k + w[i];
			e = d;
			d = c;
			c = rol(bb, 30);
			bb = a;
			a = t;
		}
		h[0] += a;
		h[1] += bb;
		h[2] += c;
		h[3] += d;
		h[4] += e;
	}
	std::vector<uint8_t> out;
	for (auto i: h) {
		for (int j = 3; j >= 0; --j) {
			out.push_back(static_cast<uint8_t>(i >> (j * 8)));
		}
	}
	return out;
}

static std::string base64(std::vector<uint8_t> const& d)
{
	static char const* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < d.size(); i += 3) {
		uint32_t v = d[i] << 16;
		if (i + 1 < d.size()) {
			v |= d[i + 1] << 8;
		}
		if (i + 2 < d.size()) {
			v |= d[i + 2];
		}
		o += a[v >> 18];
		o += a[(v >> 12) & 63];
		o += i + 1 < d.size() ? a[(v >> 6) & 63] : '=';
		o += i + 2 < d.size() ? a[v & 63] : '=';
	}
	return o;
}

static std::vector<uint8_t> pattern(uint64_t seed, size_t n)
{
	std::vector<uint8_t> d(n);
	for (auto& i: d) {
		seed = seed * 6364136223846793005ULL + 1442695040888963407ULL;
		i = static_cast<uint8_t>(seed >> 56);
	}
	return d;
}

static void write_file(std::string path, std::vector<uint8_t> const& d)
{
	std::ofstream f(path, std::ios::binary);
	f.write(reinterpret_cast<char const*>(d.data()), d.size());
}

static Register digests("digests", 4000, 60000, "longer than one block of the digest, or of the reader's buffer", [](Src& s) {
	size_t const n = s.weighted({3, 3, 2}) == 0 ? s.draw(200) : s.edgy(0, 300000, { 63, 64, 65, 65535, 65536, 65537, 131071, 131072, 131073, 196608 });
	auto const d = pattern(s.draw(1000000), n);
	s.note("size", n);
	s.nontrivial_if(n > 64);
	s.label(n > 65536 ? "more than one read" : "one read");
	auto const want = base64(sha1(d));
	check_eq(dcp::make_digest(dcp::ArrayData(d.data(), static_cast<int>(n))), want, "digest of data");

	auto const file = s.scratch() + "/f";
	write_file(file, d);
	std::vector<int64_t> calls;
	check_eq(dcp::make_digest(boost::filesystem::path(file), [&](int64_t done, int64_t total) {
		check_eq(total, static_cast<int64_t>(n), "total given to progress");
		check(done >= 0 && done <= total, "progress is out of range");
		check(calls.empty() || done >= calls.back(), "progress goes backwards");
		calls.push_back(done);
	}), want, "digest of file");
	check(n == 0 || !calls.empty(), "no progress reported");
	check_eq(dcp::make_digest(boost::filesystem::path(file), boost::function<void (int64_t, int64_t)>()), want, "digest of file without progress");

	/* Change one bit */
	if (n > 0) {
		auto changed = d;
		changed[s.draw(n - 1)] ^= 1 << s.draw(7);
		write_file(file, changed);
		check(dcp::make_digest(boost::filesystem::path(file), boost::function<void (int64_t, int64_t)>()) != want, "digest does not depend on all of the file");
	}
	bool threw = false;
	try {
		dcp::make_digest(boost::filesystem::path(file + "x"), boost::function<void (int64_t, int64_t)>());
	} catch (dcp::FileError&) {
		threw = true;
	}
	check(threw, "no error for a file which does not exist");
});

static Register base64s("base64", 60000, 1000000, "has line breaks", [](Src& s) {
	auto const d = s.bytes(0, 120);
	auto const plain = base64(d);
	std::string t;
	bool broken = false;
	for (auto c: plain) {
		if (s.chance(5)) {
			t += s.boolean() ? "\n" : "\r\n";
			broken = true;
		}
		t += c;
	}
	if (s.chance(50)) {
		t += "\n";
	}
	s.note("text", t);
	s.nontrivial_if(broken);
	std::vector<uint8_t> out(d.size() + 8, 0xaa);
	auto const n = dcp::base64_decode(t, out.data(), static_cast<int>(out.size()));
	if (d.empty()) {
		check(n <= 0, "something decoded from nothing");
	} else {
		check_eq(n, static_cast<int>(d.size()), "length decoded");
		check(std::equal(d.begin(), d.end(), out.begin()), "decoded data is wrong");
	}
	for (size_t i = d.size(); i < out.size(); ++i) {
		check_eq(out[i], 0xaa, "written beyond the result");
	}
});

static Register fingerprints("fingerprints", 5000, 100000, "more than one line", [](Src& s) {
	auto const d = pattern(s.draw(1000000), s.edgy(1, 3000, { 48, 49, 1192, 2350 }));
	auto const plain = base64(d);
	std::string const ending = s.boolean() ? "\n" : "\r\n";
	std::string const name = s.boolean() ? "RSA PRIVATE KEY" : "PRIVATE KEY";
	std::string t = "-----BEGIN " + name + "-----" + ending;
	for (size_t i = 0; i < plain.size(); i += 64) {
		t += plain.substr(i, 64) + ending;
	}
	t += "-----END " + name + "-----" + ending;
	s.note("size", d.size());
	s.note("name", name);
	s.note("Windows", ending.size() > 1);
	s.nontrivial_if(plain.size() > 64);
	check_eq(dcp::private_key_fingerprint(t), base64(sha1(d)), "fingerprint");
});

static Register identifiers("identifiers", 60000, 1000000, "IDs differ only in case or surrounding space, or not by that", [](Src& s) {
	auto const id = full::uuid(s);
	auto other = id;
	bool same = true;
	if (s.chance(50)) {
		for (auto& c: other) {
			c = static_cast<char>(s.boolean() ? toupper(c) : c);
		}
	}
	if (s.chance(30)) {
		other = s.str(" \n\t", 0, 3) + other + s.str(" \n\t", 0, 3);
	}
	if (s.chance(40)) {
		auto const i = s.draw(other.size() - 1);
		if (isxdigit(static_cast<unsigned char>(other[i]))) {
			other[i] = other[i] == '0' ? '1' : '0';
			same = false;
		}
	}
	s.note("a", id);
	s.note("b", other);
	s.nontrivial_if(id != other);
	check_eq(dcp::ids_equal(id, other), same, "ids_equal");
	check_eq(dcp::ids_equal(other, id), same, "ids_equal");

	check_eq(dcp::remove_urn_uuid("urn:uuid:" + id), id, "ID without its URN");
	check(dcp::remove_urn_uuid(boost::optional<std::string>("urn:uuid:" + id)) == boost::optional<std::string>(id), "optional ID without its URN");
	check(!dcp::remove_urn_uuid(boost::optional<std::string>()), "no ID");
	std::string bad = "urn:uuid:";
	bad[s.draw(bad.size() - 1)] = s.pick<char>({ 'x', 'U', ' ' });
	for (auto const& b: { bad + id, id, std::string("urn:uuid").substr(0, s.draw(8)) }) {
		bool threw = false;
		try {
			dcp::remove_urn_uuid(b);
		} catch (dcp::BadURNUUIDError&) {
			threw = true;
		}
		check(threw, "accepted " + b);
	}

	/* New IDs are UUIDs, and different */
	std::set<std::string> made;
	int const n = s.irange(2, 20);
	for (int i = 0; i < n; ++i) {
		auto const u = dcp::make_uuid();
		check_eq(u.size(), size_t(36), "length of ID");
		for (int j = 0; j < 36; ++j) {
			check(j == 8 || j == 13 || j == 18 || j == 23 ? u[j] == '-' : (isdigit(static_cast<unsigned char>(u[j])) || (u[j] >= 'a' && u[j] <= 'f')), "malformed ID " + u);
		}
		check(u[14] == '4', "not a version 4 UUID: " + u);
		made.insert(u);
	}
	check_eq(made.size(), static_cast<size_t>(n), "different IDs");
});

static Register uniques("unique_strings", 30000, 500000, "some names are taken", [](Src& s) {
	auto const base = s.pick<std::string>({ "font", "", "a", "font1", "0", "%1", "_" });
	std::vector<std::string> existing;
	for (int n = 0; s.more(n, 0, 15, 85); ++n) {
		existing.push_back(s.boolean() ? base + std::to_string(s.irange(0, 14)) : s.pick<std::string>({ "font", "x", "", "0", "1", base }));
	}
	s.note("base", base);
	s.note("existing", existing);
	s.nontrivial_if(std::any_of(existing.begin(), existing.end(), [&](std::string const& i) { return i.size() > base.size() && i.substr(0, base.size()) == base; }));
	auto const u = dcp::unique_string(existing, base);
	check(u.substr(0, base.size()) == base, "does not start with base: " + u);
	check(std::find(existing.begin(), existing.end(), u) == existing.end(), "is taken: " + u);
});

static Register text_files("text_files", 6000, 100000, "has a zero byte or line endings", [](Src& s) {
	std::string t;
	for (int n = 0; s.more(n, 0, 60, 92); ++n) {
		t += s.pick<std::string>({ "a", "\n", "\r\n", "\r", "hello", std::string(1, '\0'), "\xc3\xa9", "\xff", "%s", std::string(500, 'x') });
	}
	s.note("text", t);
	s.nontrivial_if(t.find_first_of(std::string("\r\n\0", 3)) != std::string::npos);
	boost::filesystem::path const file = s.scratch() + "/f";
	if (s.boolean()) {
		dcp::write_string_to_file(std::string(s.irange(0, 2000), 'z'), file);
	}
	dcp::write_string_to_file(t, file);
	check_eq(boost::filesystem::file_size(file), t.size(), "size of file");
	check(dcp::file_to_string(file) == t, "file does not have what was written");
	auto const limit = s.edgy(0, static_cast<int64_t>(t.size()) + 10, { static_cast<int64_t>(t.size()), static_cast<int64_t>(t.size()) - 1 });
	if (limit < 0) {
		return;
	}
	bool threw = false;
	try {
		check(dcp::file_to_string(file, limit) == t, "file does not have what was written");
	} catch (dcp::MiscError&) {
		threw = true;
	}
	check_eq(threw, static_cast<int64_t>(t.size()) > limit, "refused for being too long");
	/* Nowhere to put it */
	threw = false;
	try {
		dcp::write_string_to_file(t, file / "x");
	} catch (dcp::FileError&) {
		threw = true;
	}
	check(threw, "no error writing to an impossible place");
	threw = false;
	try {
		dcp::write_string_to_file(t, "/dev/full");
	} catch (std::exception&) {
		threw = true;
	}
	check(threw || t.empty(), "no error writing to a full disk");
});

static Register paths("relative_paths", 60000, 1000000, "the file is in the root, or nearly", [](Src& s) {
	std::vector<std::string> const parts = { "a", "b", "ab", "a b", ".x", "c.mxf" };
	std::vector<std::string> root;
	for (int n = 0; s.more(n, 1, 4, 70); ++n) {
		root.push_back(s.pick(parts));
	}
	auto file = root;
	bool inside = true;
	if (s.chance(40)) {
		auto const i = s.draw(file.size() - 1);
		file[i] = s.pick(parts);
		if (file[i] != root[i]) {
			inside = false;
		}
	}
	if (s.chance(15)) {
		file.resize(s.draw(file.size()));
		if (file.size() < root.size()) {
			inside = false;
		}
	}
	auto const at = file.size();
	std::string rest;
	for (int n = 0; s.more(n, 0, 3, 70); ++n) {
		auto const p = s.pick(parts);
		file.push_back(p);
		rest += (rest.empty() ? "" : "/") + p;
	}
	if (at < root.size()) {
		/* Make sure of it */
		inside = file.size() >= root.size() && std::equal(root.begin(), root.end(), file.begin());
		if (inside) {
			s.discard();
		}
	}
	auto join = [](std::vector<std::string> const& v) {
		std::string o;
		for (auto const& i: v) {
			o += "/" + i;
		}
		return o.empty() ? "/" : o;
	};
	s.note("root", join(root));
	s.note("file", join(file));
	s.nontrivial_if(at >= root.size());
	auto const got = dcp::relative_to_root(join(root), join(file));
	check_eq(static_cast<bool>(got), inside, "inside");
	if (inside) {
		check_eq(got->generic_string(), rest, "path relative to root");
	}
});

static Register lengths("utf8_lengths", 60000, 1000000, "some characters are not ASCII", [](Src& s) {
	std::string t;
	size_t n = 0;
	bool wide = false;
	while (s.more(static_cast<int>(n), 0, 40, 90)) {
		uint32_t const c = s.weighted({3, 2, 2, 2}) == 0 ? s.range(1, 0x7f) : s.pick<uint32_t>({ 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x5d0, 0x20ac, 0xac00, 0x1f3ac, 0x2ffff, 0x40000, 0xbffff });
		if (c < 0x80) {
			t += static_cast<char>(c);
		} else if (c < 0x800) {
			t += static_cast<char>(0xc0 | (c >> 6));
			t += static_cast<char>(0x80 | (c & 0x3f));
		} else if (c < 0x10000) {
			t += static_cast<char>(0xe0 | (c >> 12));
			t += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
			t += static_cast<char>(0x80 | (c & 0x3f));
		} else {
			t += static_cast<char>(0xf0 | (c >> 18));
			t += static_cast<char>(0x80 | ((c >> 12) & 0x3f));
			t += static_cast<char>(0x80 | ((c >> 6) & 0x3f));
			t += static_cast<char>(0x80 | (c & 0x3f));
		}
		wide = wide || c > 0x7f;
		++n;
	}
	s.note("text", t);
	s.nontrivial_if(wide);
	check_eq(dcp::utf8_strlen(t), n, "length");
});

static Register days("days", 60000, 1000000, "the days are the same or adjacent in one field", [](Src& s) {
	auto make = [&](int y, int m, int d) {
		return dcp::LocalTime(y, m, d, s.irange(0, 23), s.irange(0, 59), dcp::UTCOffset(s.irange(-11, 11), 0));
	};
	int y = s.irange(2000, 2030), m = s.irange(1, 12), d = s.irange(1, 28);
	auto const a = make(y, m, d);
	int const before = y * 10000 + m * 100 + d;
	int* const f = s.pick<int*>({ &y, &m, &d });
	*f = s.chance(20) ? *f : *f + s.irange(-1, 1);
	if (s.chance(20)) {
		y = s.irange(2000, 2030);
		m = s.irange(1, 12);
		d = s.irange(1, 28);
	}
	m = std::min(12, std::max(1, m));
	d = std::min(28, std::max(1, d));
	int const after = y * 10000 + m * 100 + d;
	auto const b = make(y, m, d);
	s.note("a", a.as_string());
	s.note("b", b.as_string());
	s.nontrivial_if(before - after < 101 && after - before < 101);
	check_eq(dcp::day_less_than_or_equal(a, b), before <= after, "day_less_than_or_equal");
	check_eq(dcp::day_greater_than_or_equal(a, b), before >= after, "day_greater_than_or_equal");
});
