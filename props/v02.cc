/* What is said about JPEG2000 codestreams */

#include "codestream.h"
#include "array_data.h"
#include "verify.h"
#include "verify_j2k.h"
#include <map>

using namespace pbt;
using codestream::Bytes;
using std::make_shared;
using std::map;
using std::string;
using std::vector;
using dcp::VerificationNote;
typedef VerificationNote::Code Code;

static full::Setup setup;

/** Note as text, with everything that it says about the codestream (but not the wording of any error) */
static string describe(VerificationNote const& n)
{
	string d = "code " + std::to_string(static_cast<int>(n.code()));
	auto add = [&d](char const* name, boost::optional<int> v) {
		if (v) {
			d += string(" ") + name + "=" + std::to_string(*v);
		}
	};
	if (n.code() != Code::INVALID_JPEG2000_TILE_PART_SIZE) {
		add("frame", n.frame());
	}
	add("guard_bits", n.guard_bits());
	add("width", n.code_block_width());
	add("height", n.code_block_height());
	add("poc_markers", n.poc_markers());
	add("tile_parts", n.tile_parts());
	add("capabilities", n.capabilities());
	add("component", n.component());
	if (n.size_in_bytes()) {
		d += " size=" + std::to_string(*n.size_in_bytes());
	}
	return d;
}

struct Model
{
	Bytes bytes;
	vector<VerificationNote> notes;
	bool invalid = false;

	void add(Bytes const& b)
	{
		bytes.insert(bytes.end(), b.begin(), b.end());
	}

	/** Add a note if nothing so bad has happened that the rest is not looked at */
	void note(VerificationNote const& n)
	{
		if (!invalid) {
			notes.push_back(n);
		}
	}
};

static void compare(Model const& m, int start, int index, int rate)
{
	auto want = m.notes;
	if (m.invalid) {
		want.push_back(VerificationNote(Code::INVALID_JPEG2000_CODESTREAM).set_frame(start + index));
	}
	vector<VerificationNote> got;
	dcp::verify_j2k(make_shared<dcp::ArrayData>(m.bytes.data(), static_cast<int>(m.bytes.size())), start, index, rate, got);
	vector<string> g;
	vector<string> w;
	for (auto const& i: got) {
		g.push_back(describe(i));
		if (i.code() == Code::INVALID_JPEG2000_CODESTREAM) {
			check(i.error() && !i.error()->empty(), "no details of an invalid codestream");
			check(i.frame_rate() && *i.frame_rate() == dcp::Fraction(rate, 1), "wrong frame rate in note");
		}
		check(!dcp::note_to_string(i).empty(), "note without text");
	}
	for (auto const& i: want) {
		w.push_back(describe(i));
	}
	std::sort(g.begin(), g.end());
	std::sort(w.begin(), w.end());
	check_eq(g, w, "notes about codestream");
}

static Bytes image_data(Src& s)
{
	/* Nothing that looks like a marker, but with plenty of bytes that nearly do */
	Bytes b;
	for (int n = 0; s.more(n, 0, 20, 70); ++n) {
		if (s.chance(25)) {
			b.push_back(0xff);
			b.push_back(s.draw(0x8f));
		} else {
			b.push_back(s.draw(0xfe));
		}
	}
	return b;
}

/** Generate a codestream with, often, a few things wrong with it */
static Model generate(Src& s, int rate, string& faults)
{
	Model m;
	auto wrong = [&s, &faults](char const* what, int percent) {
		if (!s.chance(percent)) {
			return false;
		}
		faults += string(faults.empty() ? "" : " ") + what;
		return true;
	};
	auto const p = s.pick({0, 1, 2, 5, 15});
	auto bad = [&]() {
		m.invalid = true;
	};
	/* change some byte of a segment that must be as it is */
	auto spoil = [&](Bytes& b, int at, char const* what) {
		if (wrong(what, p)) {
			b[at] ^= 1 + s.draw(254);
			bad();
		}
	};

	Bytes soc;
	codestream::marker(soc, 0x4f);
	spoil(soc, 0, "soc0");
	spoil(soc, 1, "soc1");
	m.add(soc);

	codestream::Size siz;
	if (s.boolean()) {
		siz.width = s.pick({2049, 3996, 4096, 8192});
		siz.height = s.pick({1716, 2160});
	} else {
		siz.width = s.pick({1998, 2048, 1, 640});
		siz.height = s.pick({858, 1080, 1, 3000});
	}
	bool const fourk = siz.fourk();
	siz.tile_width = siz.width;
	siz.tile_height = siz.height;
	siz.rsiz = fourk ? 4 : 3;
	if (wrong("siz length", p)) {
		siz.length = s.edgy(0, 65535, {46, 48, 47, 44});
		if (siz.length != 47) {
			bad();
		}
	}
	if (wrong("rsiz", p)) {
		siz.rsiz = s.edgy(0, 65535, {0, 3, 4, 5});
		if (siz.rsiz != (fourk ? 4 : 3)) {
			m.note(VerificationNote(fourk ? Code::INVALID_JPEG2000_RSIZ_FOR_4K : Code::INVALID_JPEG2000_RSIZ_FOR_2K).set_capabilities(siz.rsiz));
		}
	}
	if (wrong("x", p)) {
		siz.x = 1 + s.draw(0xfffffffe);
		bad();
	}
	if (wrong("y", p)) {
		siz.y = 1 + s.draw(0xfffffffe);
		bad();
	}
	bool const tw = wrong("tile width", p);
	bool const th = wrong("tile height", p);
	if (tw) {
		siz.tile_width += s.boolean() ? 1 : -1;
	}
	if (th) {
		siz.tile_height += s.boolean() ? 1 : -1;
	}
	if (tw || th) {
		m.note(VerificationNote(Code::INVALID_JPEG2000_TILE_SIZE));
	}
	if (wrong("tile x", p)) {
		siz.tile_x = 1 + s.draw(1000);
		bad();
	}
	if (wrong("tile y", p)) {
		siz.tile_y = 1 + s.draw(1000);
		bad();
	}
	if (wrong("components", p)) {
		siz.components = s.edgy(0, 65535, {1, 2, 4, 259});
		if (siz.components != 3) {
			bad();
		}
	}
	for (int i = 0; i < 9; ++i) {
		if (wrong("component", p / 4)) {
			siz.component[i] ^= 1 + s.draw(254);
			bad();
		}
	}
	auto siz_bytes = siz.bytes();
	spoil(siz_bytes, 0, "siz0");
	if (wrong("siz1", p)) {
		siz_bytes[1] = s.pick({0x52, 0x50, 0x4f});
		/* Anything wrong inside it will not be seen */
		m.notes.clear();
		bad();
	}
	if (siz_bytes[0] != 0xff || siz.length != 47) {
		/* This comes before the other things */
		m.notes.clear();
	} else if (m.invalid) {
		/* Which of the notes comes before the problem is up to the order in which things are looked at, and it is as they are written */
		m.notes.clear();
		if (siz_bytes[1] == 0x51 && soc[0] == 0xff && soc[1] == 0x4f) {
			if (siz.rsiz != (fourk ? 4 : 3)) {
				m.notes.push_back(VerificationNote(fourk ? Code::INVALID_JPEG2000_RSIZ_FOR_4K : Code::INVALID_JPEG2000_RSIZ_FOR_2K).set_capabilities(siz.rsiz));
			}
			if (!siz.x && !siz.y && (tw || th)) {
				m.notes.push_back(VerificationNote(Code::INVALID_JPEG2000_TILE_SIZE));
			}
		}
	}
	m.add(siz_bytes);

	/* Now the segments, in some order */
	vector<int> order;
	enum { COD, QCD, COC, QCC, TLM, COM, POC, SIZ, UNKNOWN };
	int counts[3] = {1, 1, 1};
	for (int i = 0; i < 3; ++i) {
		if (wrong(i == 0 ? "cod count" : i == 1 ? "qcd count" : "tlm count", p)) {
			counts[i] = s.pick({0, 2, 3});
		}
	}
	order.insert(order.end(), counts[0], COD);
	order.insert(order.end(), counts[1], QCD);
	order.insert(order.end(), counts[2], TLM);
	if (!fourk && s.chance(20)) {
		order.insert(order.end(), 1 + s.draw(2), COC);
	}
	if (s.chance(20)) {
		order.insert(order.end(), 1 + s.draw(2), QCC);
	}
	if (s.chance(30)) {
		order.insert(order.end(), 1 + s.draw(2), COM);
	}
	int pocs = fourk ? 1 : 0;
	if (wrong("poc count", p)) {
		pocs = s.pick({0, 1, 2});
	}
	order.insert(order.end(), pocs, POC);
	if (wrong("extra siz", p / 2)) {
		order.push_back(SIZ);
	}
	if (wrong("unknown marker", p / 2)) {
		order.push_back(UNKNOWN);
	}
	for (size_t i = 1; i < order.size(); ++i) {
		std::swap(order[i], order[s.draw(i)]);
	}

	auto add_poc = [&]() {
		auto b = codestream::poc();
		/* Things that are wrong here are remarked upon, but not serious; there is one remark for each of the 13 fields */
		static int const field[13][2] = { {2, 2}, {4, 1}, {5, 1}, {6, 2}, {8, 1}, {9, 1}, {10, 1}, {11, 1}, {12, 1}, {13, 2}, {15, 1}, {16, 1}, {17, 1} };
		for (auto const& f: field) {
			if (wrong("poc field", p / 3)) {
				b[f[0] + s.draw(f[1] - 1)] ^= 1 + s.draw(254);
				m.note(VerificationNote(Code::INCORRECT_JPEG2000_POC_MARKER));
			}
		}
		m.add(b);
	};

	auto add_com = [&](uint8_t which) {
		Bytes c;
		for (int n = 0; s.more(n, 0, 40, 80); ++n) {
			/* including things that look like markers */
			c.push_back(s.chance(20) ? 0xff : s.chance(20) ? s.pick({0x51, 0x52, 0x5c, 0x5f, 0x90, 0x93}) : s.draw(255));
		}
		if (s.chance(2)) {
			c.resize(c.size() + s.edgy(0, 65000, {255, 256, 257, 32766, 32767, 32768}), 0xff);
		}
		m.add(codestream::filler(which, c));
	};

	for (auto const o: order) {
		/* The first byte of any of these must be right */
		auto const at = m.bytes.size();
		bool const lost = wrong("marker start", p / 3);
		if (lost) {
			bad();
		}
		switch (o) {
		case COD: {
			auto b = codestream::cod(fourk);
			/* The length is not looked at */
			for (size_t i = 4; i < b.size(); ++i) {
				if (i == 10 || i == 11) {
					if (wrong(i == 10 ? "code block width" : "code block height", p)) {
						/* These are to be added to 2 to get a power of 2 */
						b[i] = s.pick({0, 1, 2, 4, 5, 6, 7, 8});
						m.note(i == 10 ?
							VerificationNote(Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH).set_code_block_width(1 << (b[i] + 2)) :
							VerificationNote(Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT).set_code_block_height(1 << (b[i] + 2)));
					}
				} else {
					if (wrong("cod field", p / 4)) {
						b[i] ^= 1 + s.draw(254);
						bad();
					}
				}
			}
			m.add(b);
			break;
		}
		case QCD: {
			int guard = fourk ? 2 : 1;
			if (wrong("guard bits", p)) {
				guard = s.draw(7);
				if (guard != (fourk ? 2 : 1)) {
					m.note(VerificationNote(fourk ? Code::INVALID_JPEG2000_GUARD_BITS_FOR_4K : Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K).set_guard_bits(guard));
				}
			}
			m.add(codestream::qcd(fourk, guard));
			break;
		}
		case COC: {
			auto b = codestream::coc(s.draw(2));
			if (wrong("coc component", p)) {
				b[4] = 3 + s.draw(252);
				bad();
			}
			for (size_t i = 5; i < b.size(); ++i) {
				if (wrong("coc field", p / 4)) {
					b[i] ^= 1 + s.draw(254);
					bad();
				}
			}
			m.add(b);
			break;
		}
		case QCC:
			add_com(0x5d);
			break;
		case TLM:
			add_com(0x55);
			break;
		case COM:
			add_com(0x64);
			break;
		case POC:
			add_poc();
			break;
		case SIZ:
			m.add(siz.bytes());
			bad();
			break;
		case UNKNOWN:
			m.add(codestream::filler(s.pick({0x00, 0x50, 0x54, 0x57, 0x58, 0x60, 0x91, 0x92, 0xff, 0xfe}), s.bytes(0, 4)));
			bad();
			break;
		}
		if (lost) {
			m.bytes[at] ^= 1 + s.draw(254);
		}
	}

	int late_pocs = 0;
	int const right_parts = fourk ? 6 : 3;
	int number = right_parts;
	if (s.chance(20)) {
		number = s.draw(8);
	}
	for (int i = 0; i < number; ++i) {
		int parts = right_parts;
		if (wrong("tile parts", p)) {
			parts = s.draw(255);
		}
		/* Each part must be within 200Mbit/s */
		uint32_t length = s.edgy(0, 2000000, {0, 14});
		auto too_long = [rate](uint32_t l) { return uint64_t(l) * 8 * rate > 200000000; };
		while (too_long(length)) {
			length /= 2;
		}
		if (wrong("tile part length", p)) {
			length = 200000000 / (8 * rate) + 2 - s.draw(4);
			if (s.chance(20)) {
				length = s.edgy(0, 0xffffffff, {0x7fffffff, 0x80000000});
			}
		}
		auto b = codestream::sot(i, parts, length);
		if (wrong("sot length", p / 4)) {
			b[2 + s.draw(1)] ^= 1 + s.draw(254);
			bad();
		}
		if (parts != right_parts) {
			m.note(VerificationNote(fourk ? Code::INVALID_JPEG2000_TILE_PARTS_FOR_4K : Code::INVALID_JPEG2000_TILE_PARTS_FOR_2K).set_tile_parts(parts));
		}
		if (too_long(length)) {
			m.note(VerificationNote(Code::INVALID_JPEG2000_TILE_PART_SIZE).set_component(i).set_size_in_bytes(length));
		}
		m.add(b);
		if (wrong("late poc", p / 4)) {
			++late_pocs;
			add_poc();
		}
		m.add(codestream::sod());
		m.add(image_data(s));
	}
	if (number && wrong("junk at end", p / 2)) {
		/* 0xff and then something which must be a marker, because of its value */
		m.bytes.push_back(0xff);
		m.bytes.push_back(s.pick({0x91, 0x92, 0x94, 0xa0, 0xd8, 0xda, 0xff}));
		m.bytes.push_back(0);
		bad();
	}
	Bytes eoc;
	codestream::marker(eoc, 0xd9);
	m.add(eoc);

	/* Now whole-codestream things, serious ones first */
	if (counts[0] != 1 || counts[1] != 1) {
		bad();
	}
	if (pocs != (fourk ? 1 : 0)) {
		m.note(VerificationNote(fourk ? Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K : Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K).set_poc_markers(pocs));
	}
	if (late_pocs) {
		m.note(VerificationNote(Code::INVALID_JPEG2000_POC_MARKER_LOCATION));
	}
	if (!counts[2]) {
		m.note(VerificationNote(Code::MISSING_JPEG2000_TLM_MARKER));
	}
	return m;
}

static Register codestreams("codestreams", 60000, 1500000, "the codestream has something wrong with it", [](Src& s) {
	int const rate = s.pick({24, 25, 30, 48, 50, 60, 96});
	int const start = s.edgy(0, 1000000, {0, 24});
	int const index = s.edgy(0, 1000000, {0, 1});
	string faults;
	auto const m = generate(s, rate, faults);
	s.note("faults", faults);
	s.note("size", m.bytes.size());
	s.note("frame rate", rate);
	s.label(m.invalid ? "invalid" : m.notes.empty() ? "good" : "not serious");
	s.nontrivial_if(!faults.empty());
	compare(m, start, index, rate);
});

/* Part of a codestream is never accepted without comment, unless only the image data has been cut */
static Register truncated("truncated", 20000, 600000, "the codestream is cut somewhere", [](Src& s) {
	bool const fourk = s.boolean();
	auto const whole = codestream::good(fourk ? 3996 : 1998, fourk ? 2160 : 1080, 0, s.draw(0xffffffff));
	dcp::ArrayData d(whole.data(), static_cast<int>(whole.size()));
	vector<VerificationNote> notes;
	dcp::verify_j2k(make_shared<dcp::ArrayData>(d), 0, 0, 24, notes);
	check(notes.empty(), "good codestream was not liked");
	/* The main header and the first SOT */
	size_t header = 0;
	while (whole[header] != 0xff || whole[header + 1] != 0x90) {
		++header;
	}
	size_t const at = s.draw(header - 1);
	s.note("cut at", at);
	s.nontrivial();
	notes.clear();
	dcp::verify_j2k(make_shared<dcp::ArrayData>(whole.data(), static_cast<int>(at)), 0, 0, 24, notes);
	/* A cut in just the right place leaves segments out, and otherwise it's noticed that there's one cut up */
	check(!notes.empty(), "part of a codestream was accepted");
});

/* Anything at all can be looked at */
static Register anything("anything", 60000, 2000000, "some bytes are changed", [](Src& s) {
	bool const fourk = s.boolean();
	auto b = codestream::good(fourk ? 3996 : 1998, fourk ? 2160 : 1080, 0, s.draw(0xffffffff));
	for (int n = 0; s.more(n, 1, 6, 60); ++n) {
		switch (s.weighted({50, 20, 20, 10})) {
		case 0:
			b[s.draw(b.size() - 1)] = s.edgy(0, 255, {0, 1, 0x7f, 0x80, 0xff});
			break;
		case 1:
			b.erase(b.begin() + s.draw(b.size() - 1));
			break;
		case 2:
			b.insert(b.begin() + s.draw(b.size()), s.draw(255));
			break;
		case 3:
			b.resize(1 + s.draw(b.size() - 1));
			break;
		}
		if (b.empty()) {
			b.push_back(0xff);
		}
	}
	s.nontrivial();
	s.note("codestream", show(b));
	vector<VerificationNote> a;
	vector<VerificationNote> c;
	/* on the heap, to find any reading outside it */
	auto d = make_shared<dcp::ArrayData>(b.data(), static_cast<int>(b.size()));
	dcp::verify_j2k(d, 0, 3, 24, a);
	dcp::verify_j2k(d, 0, 3, 24, c);
	check_eq(a.size(), c.size(), "notes when looking at the same thing twice");
	for (size_t i = 0; i < a.size(); ++i) {
		check(a[i] == c[i], "different notes when looking at the same thing twice");
		check(!dcp::note_to_string(a[i]).empty(), "note without text");
	}
});
