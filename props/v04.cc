/* V04: notes about a DCP, what they say, and the reports made from them */

#include "full.h"
#include "media.h"
#include "cpl.h"
#include "dcp.h"
#include "html_formatter.h"
#include "text_formatter.h"
#include "pdf_formatter.h"
#include "reel.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "verify.h"
#include "verify_report.h"
#include <map>
#include <set>

using pbt::Src;
using std::map;
using std::string;
using std::vector;
using boost::optional;
using dcp::VerificationNote;
typedef dcp::VerificationNote::Code Code;

static full::Setup setup;

namespace {

int const last_code = static_cast<int>(Code::INVALID_PKL_NAMESPACE);

#define STRINGS(X) X(asset_id) X(asset_map_id) X(cpl_id) X(pkl_id) X(annotation_text) X(calculated_hash) X(content_kind) X(content_version) X(error) \
	X(issue_date) X(language) X(load_font_id) X(other_asset_id) X(reference_hash) X(territory) X(xml_namespace)
#define INTEGERS(X) X(component) X(frame) X(reel_index) X(bit_depth) X(capabilities) X(code_block_height) X(code_block_width) X(duration) X(guard_bits) \
	X(other_duration) X(poc_marker) X(poc_markers) X(size_in_bytes) X(tile_parts)
#define SIZES(X) X(size_in_pixels) X(main_picture_active_area)

/** What is in a note */
struct Contents
{
	int code = 0;
	optional<string> file;
	optional<int64_t> line;
	map<string, string> strings;
	map<string, int64_t> integers;
	map<string, std::pair<int, int>> sizes;
	optional<std::pair<int, int>> frame_rate;
	optional<std::pair<int, int>> time;

	bool operator==(Contents const& o) const
	{
		return code == o.code && file == o.file && line == o.line && strings == o.strings && integers == o.integers && sizes == o.sizes && frame_rate == o.frame_rate && time == o.time;
	}

	VerificationNote note() const
	{
		auto const c = static_cast<Code>(code);
		auto n = line ? VerificationNote(c, *file, *line) : file ? VerificationNote(c, *file) : VerificationNote(c);
#define SET_STRING(f) if (strings.count(#f)) { n.set_##f(strings.at(#f)); }
		STRINGS(SET_STRING)
#define SET_INTEGER(f) if (integers.count(#f)) { n.set_##f(integers.at(#f)); }
		INTEGERS(SET_INTEGER)
#define SET_SIZE(f) if (sizes.count(#f)) { n.set_##f(dcp::Size(sizes.at(#f).first, sizes.at(#f).second)); }
		SIZES(SET_SIZE)
		if (frame_rate) {
			n.set_frame_rate(dcp::Fraction(frame_rate->first, frame_rate->second));
		}
		if (time) {
			n.set_time(dcp::Time(0, 0, time->first, time->second, 24));
		}
		return n;
	}

	void compare(VerificationNote const& n) const
	{
		pbt::check_eq(static_cast<int>(n.code()), code, "code");
		pbt::check(bool(n.file()) == bool(file) && (!file || n.file()->string() == *file), "file is different");
		pbt::check(bool(n.line()) == bool(line) && (!line || int64_t(*n.line()) == *line), "line is different");
#define COMPARE_STRING(f) \
		pbt::check(bool(n.f()) == bool(strings.count(#f)), string("presence of ") + #f); \
		if (n.f()) { \
			pbt::check_eq(*n.f(), strings.at(#f), #f); \
		}
		STRINGS(COMPARE_STRING)
#define COMPARE_INTEGER(f) \
		pbt::check(bool(n.f()) == bool(integers.count(#f)), string("presence of ") + #f); \
		if (n.f()) { \
			pbt::check_eq(int64_t(*n.f()), integers.at(#f), #f); \
		}
		INTEGERS(COMPARE_INTEGER)
#define COMPARE_SIZE(f) \
		pbt::check(bool(n.f()) == bool(sizes.count(#f)), string("presence of ") + #f); \
		if (n.f()) { \
			pbt::check(n.f()->width == sizes.at(#f).first && n.f()->height == sizes.at(#f).second, #f); \
		}
		SIZES(COMPARE_SIZE)
		pbt::check(bool(n.frame_rate()) == bool(frame_rate) && (!frame_rate || *n.frame_rate() == dcp::Fraction(frame_rate->first, frame_rate->second)), "frame rate is different");
		pbt::check(bool(n.time()) == bool(time) && (!time || *n.time() == dcp::Time(0, 0, time->first, time->second, 24)), "time is different");

		/* Things which say where something is can also be asked for in another way */
		typedef VerificationNote::Location Location;
		map<Location, string> want;
		auto string_place = [&](Location l, string name) {
			if (strings.count(name)) {
				want[l] = strings.at(name);
			}
		};
		auto integer_place = [&](Location l, string name) {
			if (integers.count(name)) {
				want[l] = std::to_string(integers.at(name));
			}
		};
		string_place(Location::ASSET_ID, "asset_id");
		string_place(Location::ASSET_MAP_ID, "asset_map_id");
		integer_place(Location::COMPONENT, "component");
		string_place(Location::CPL_ID, "cpl_id");
		if (file) {
			want[Location::FILE] = *file;
		}
		integer_place(Location::FRAME, "frame");
		if (line) {
			want[Location::LINE] = std::to_string(*line);
		}
		string_place(Location::PKL_ID, "pkl_id");
		integer_place(Location::REEL_INDEX, "reel_index");
		auto const locations = n.locations();
		pbt::check_eq(locations.size(), want.size(), "number of locations");
		for (auto l: locations) {
			pbt::check(want.count(l), "there is a location which was not set");
			pbt::check_eq(n.location_as_string(l), want[l], "location");
		}
	}

	string show() const
	{
		string r = std::to_string(code);
		if (file) {
			r += " " + *file;
		}
		if (line) {
			r += ":" + std::to_string(*line);
		}
		for (auto const& i: strings) {
			r += " " + i.first + "=" + i.second;
		}
		for (auto const& i: integers) {
			r += " " + i.first + "=" + std::to_string(i.second);
		}
		for (auto const& i: sizes) {
			r += " " + i.first + "=" + std::to_string(i.second.first) + "x" + std::to_string(i.second.second);
		}
		if (frame_rate) {
			r += " rate=" + std::to_string(frame_rate->first) + "/" + std::to_string(frame_rate->second);
		}
		if (time) {
			r += " time=" + std::to_string(time->first) + ":" + std::to_string(time->second);
		}
		return r;
	}
};

string const string_names[] = {
#define NAME(f) #f,
	STRINGS(NAME)
};

string const integer_names[] = {
	INTEGERS(NAME)
};

string const size_names[] = {
	SIZES(NAME)
};

/** Change one thing about a note */
void change(Src& s, Contents& c)
{
	switch (s.weighted({ 10, 10, 10, 40, 40, 10, 10, 10 })) {
	case 0:
		c.code = s.draw(last_code);
		break;
	case 1:
		c.file = s.pick<string>({ "/a/b", "/a/c", "b" });
		break;
	case 2:
		if (c.file) {
			c.line = s.range(1, 3);
		}
		break;
	case 3:
		c.strings[string_names[s.draw(sizeof(string_names) / sizeof(string_names[0]) - 1)]] = s.pick<string>({ "", "a", "b", "aa", "B", "\xc3\xa9" });
		break;
	case 4:
		c.integers[integer_names[s.draw(sizeof(integer_names) / sizeof(integer_names[0]) - 1)]] = s.pick<int64_t>({ 0, 1, 2, 10, 0x7fffffff });
		break;
	case 5:
		c.sizes[size_names[s.draw(1)]] = { s.range(1, 2), s.range(1, 2) };
		break;
	case 6:
		c.frame_rate = std::pair<int, int>(s.range(24, 26), 1);
		break;
	case 7:
		c.time = std::pair<int, int>(s.range(0, 1), s.range(0, 1));
		break;
	}
}

pbt::Register order("order", 25000, 600000, "some of the notes are the same as or like others", [](Src& s) {
	/* Several notes, many of which are nearly the same as others */
	vector<Contents> c;
	for (int n = 0; s.more(n, 2, 6, 70); ++n) {
		Contents i;
		if (!c.empty() && s.chance(80)) {
			i = s.pick(c);
		}
		for (int m = 0; s.more(m, 0, 6, 50); ++m) {
			change(s, i);
		}
		c.push_back(i);
		s.note("note", i.show());
	}
	vector<VerificationNote> notes;
	for (auto const& i: c) {
		notes.push_back(i.note());
		i.compare(notes.back());
	}
	bool same = false;
	for (size_t i = 0; i < c.size(); ++i) {
		for (size_t j = 0; j < c.size(); ++j) {
			bool const eq = c[i] == c[j];
			same = same || (eq && i != j);
			pbt::check_eq(notes[i] == notes[j], eq, "whether two notes are the same", "");
			pbt::check_eq(notes[i] != notes[j], !eq, "whether two notes are different", "");
			pbt::check_eq((notes[i] < notes[j]) + (notes[j] < notes[i]), eq ? 0 : 1, "number of ways round that two notes can be put", "");
			for (size_t k = 0; k < c.size(); ++k) {
				pbt::check(!(notes[i] < notes[j] && notes[j] < notes[k]) || notes[i] < notes[k], "the order of three notes goes round in a circle");
			}
		}
	}
	s.nontrivial_if(same);
	/* More serious ones come together */
	auto sorted = notes;
	std::sort(sorted.begin(), sorted.end());
	for (size_t i = 1; i < sorted.size(); ++i) {
		pbt::check(!(sorted[i].type() < sorted[i - 1].type()), "notes of one type are not together after sorting");
	}
});

/** What should be mentioned by the description of notes.  Mostly taken from the comments in verify.h. */
map<Code, vector<string>> const& mentions()
{
	static map<Code, vector<string>> m = {
		{ Code::FAILED_READ, { "error" } },
		{ Code::MISMATCHED_CPL_HASHES, { "reference_hash", "cpl_id", "calculated_hash" } },
		{ Code::INVALID_PICTURE_FRAME_RATE, { "frame_rate" } },
		{ Code::INCORRECT_PICTURE_HASH, { "calculated_hash", "file", "reference_hash" } },
		{ Code::CORRECT_PICTURE_HASH, { "file" } },
		{ Code::MISMATCHED_PICTURE_HASHES, { "file" } },
		{ Code::INCORRECT_SOUND_HASH, { "calculated_hash", "file", "reference_hash" } },
		{ Code::MISMATCHED_SOUND_HASHES, { "file" } },
		{ Code::MISSING_ASSET, { "file" } },
		{ Code::INVALID_XML, { "error", "file", "line" } },
		{ Code::INVALID_INTRINSIC_DURATION, { "asset_id" } },
		{ Code::INVALID_DURATION, { "asset_id" } },
		{ Code::VALID_PICTURE_FRAME_SIZES_IN_BYTES, { "file" } },
		{ Code::INVALID_PICTURE_FRAME_SIZE_IN_BYTES, { "file", "frame", "timecode" } },
		{ Code::NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES, { "file", "frame", "timecode" } },
		{ Code::EXTERNAL_ASSET, { "asset_id" } },
		{ Code::THREED_ASSET_MARKED_AS_TWOD, { "file" } },
		{ Code::INVALID_LANGUAGE, { "language" } },
		{ Code::VALID_RELEASE_TERRITORY, { "territory" } },
		{ Code::INVALID_PICTURE_SIZE_IN_PIXELS, { "size_in_pixels", "file" } },
		{ Code::INVALID_PICTURE_FRAME_RATE_FOR_2K, { "frame_rate", "file" } },
		{ Code::INVALID_PICTURE_FRAME_RATE_FOR_4K, { "frame_rate", "file" } },
		{ Code::INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, { "size_in_bytes", "file" } },
		{ Code::INVALID_TIMED_TEXT_SIZE_IN_BYTES, { "size_in_bytes", "file" } },
		{ Code::INVALID_TIMED_TEXT_FONT_SIZE_IN_BYTES, { "size_in_bytes", "file" } },
		{ Code::MISSING_SUBTITLE_LANGUAGE, { "file" } },
		{ Code::MISSING_SUBTITLE_START_TIME, { "file" } },
		{ Code::INVALID_SUBTITLE_START_TIME, { "file" } },
		{ Code::INVALID_SOUND_BIT_DEPTH, { "file", "bit_depth" } },
		{ Code::MISSING_CPL_ANNOTATION_TEXT, { "cpl_id" } },
		{ Code::MISMATCHED_CPL_ANNOTATION_TEXT, { "cpl_id" } },
		{ Code::VALID_CPL_ANNOTATION_TEXT, { "annotation_text" } },
		{ Code::MISSING_SUBTITLE_ENTRY_POINT, { "asset_id" } },
		{ Code::INCORRECT_SUBTITLE_ENTRY_POINT, { "asset_id" } },
		{ Code::MISSING_CLOSED_CAPTION_ENTRY_POINT, { "asset_id" } },
		{ Code::INCORRECT_CLOSED_CAPTION_ENTRY_POINT, { "asset_id" } },
		{ Code::MISSING_HASH, { "asset_id" } },
		{ Code::INCORRECT_FFOC, { "time" } },
		{ Code::INCORRECT_LFOC, { "time" } },
		{ Code::MISSING_CPL_METADATA, { "cpl_id" } },
		{ Code::MISSING_CPL_METADATA_VERSION_NUMBER, { "cpl_id" } },
		{ Code::MISSING_EXTENSION_METADATA, { "cpl_id" } },
		{ Code::INVALID_EXTENSION_METADATA, { "error" } },
		{ Code::UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT, { "cpl_id" } },
		{ Code::UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT, { "pkl_id" } },
		{ Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, { "pkl_id" } },
		{ Code::INVALID_JPEG2000_CODESTREAM, { "frame", "timecode", "error" } },
		{ Code::INVALID_JPEG2000_GUARD_BITS_FOR_2K, { "guard_bits" } },
		{ Code::INVALID_JPEG2000_GUARD_BITS_FOR_4K, { "guard_bits" } },
		{ Code::INVALID_JPEG2000_CODE_BLOCK_WIDTH, { "code_block_width" } },
		{ Code::INVALID_JPEG2000_CODE_BLOCK_HEIGHT, { "code_block_height" } },
		{ Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_2K, { "poc_markers" } },
		{ Code::INCORRECT_JPEG2000_POC_MARKER_COUNT_FOR_4K, { "poc_markers" } },
		{ Code::INCORRECT_JPEG2000_POC_MARKER, { "error" } },
		{ Code::INVALID_JPEG2000_TILE_PARTS_FOR_2K, { "tile_parts" } },
		{ Code::INVALID_JPEG2000_TILE_PARTS_FOR_4K, { "tile_parts" } },
		{ Code::INVALID_JPEG2000_RSIZ_FOR_2K, { "capabilities" } },
		{ Code::INVALID_JPEG2000_RSIZ_FOR_4K, { "capabilities" } },
		{ Code::MISMATCHED_TIMED_TEXT_DURATION, { "other_duration", "duration" } },
		{ Code::INVALID_CONTENT_KIND, { "content_kind" } },
		{ Code::VALID_CONTENT_KIND, { "content_kind" } },
		{ Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, { "error" } },
		{ Code::VALID_MAIN_PICTURE_ACTIVE_AREA, { "size_in_pixels" } },
		{ Code::DUPLICATE_ASSET_ID_IN_PKL, { "pkl_id" } },
		{ Code::DUPLICATE_ASSET_ID_IN_ASSETMAP, { "asset_map_id" } },
		{ Code::MISSING_SUBTITLE, { "asset_id" } },
		{ Code::INVALID_SUBTITLE_ISSUE_DATE, { "issue_date" } },
		{ Code::MISMATCHED_SOUND_CHANNEL_COUNTS, { "file" } },
		{ Code::INVALID_MAIN_SOUND_CONFIGURATION, { "error" } },
		{ Code::MISSING_FONT, { "load_font_id" } },
		{ Code::INVALID_JPEG2000_TILE_PART_SIZE, { "frame", "component", "size_in_bytes" } },
		{ Code::INCORRECT_SUBTITLE_NAMESPACE_COUNT, { "asset_id" } },
		{ Code::MISSING_LOAD_FONT_FOR_FONT, { "load_font_id" } },
		{ Code::MISSING_LOAD_FONT, { "asset_id" } },
		{ Code::MISMATCHED_ASSET_MAP_ID, { "asset_id", "other_asset_id" } },
		{ Code::EMPTY_CONTENT_VERSION_LABEL_TEXT, { "cpl_id" } },
		{ Code::VALID_CONTENT_VERSION_LABEL_TEXT, { "content_version" } },
		{ Code::INVALID_CPL_NAMESPACE, { "xml_namespace", "file" } },
		{ Code::MISSING_CPL_CONTENT_VERSION, { "cpl_id" } },
		{ Code::INVALID_PKL_NAMESPACE, { "xml_namespace", "file" } },
	};
	return m;
}

/** Fill in everything that could be in a note with different things */
Contents everything(Src& s, int code, bool awkward)
{
	Contents c;
	c.code = code;
	c.file = "/some/place/" + s.str("abcdef", 3, 6) + ".xml";
	c.line = s.range(1000, 9999);
	vector<string> pieces = { "a", "b", "c", "-", "0", " ", "\xc3\xa9" };
	if (awkward) {
		for (auto i: { "%1", "%2", "%", "{}", "{0}", "%%", "\\" }) {
			pieces.push_back(i);
		}
	}
	int n = 0;
	for (auto const& i: string_names) {
		c.strings[i] = "<" + std::to_string(n++) + s.str(pieces, 1, 6) + ">";
	}
	for (auto const& i: integer_names) {
		c.integers[i] = s.range(10000, 99999) * 100 + n++;
	}
	for (auto const& i: size_names) {
		c.sizes[i] = { s.range(1000, 9999), s.range(1000, 9999) };
	}
	c.integers["frame"] = s.range(0, 200000);
	c.frame_rate = std::pair<int, int>(s.pick({ 24, 25, 30, 48, 60 }), 1);
	c.time = std::pair<int, int>(s.range(10, 59), s.range(10, 23));
	return c;
}

string timecode(int frame, int rate)
{
	char b[64];
	snprintf(b, sizeof(b), "%02d:%02d:%02d:%02d", frame / (3600 * rate), (frame / (60 * rate)) % 60, (frame / rate) % 60, frame % rate);
	return b;
}

pbt::Register words("words", 40000, 1000000, "the note should mention some details", [](Src& s) {
	int const code = s.draw(last_code);
	bool const awkward = s.boolean();
	auto const c = everything(s, code, awkward);
	s.note("note", c.show());
	auto const note = c.note();
	c.compare(note);
	auto const plain = dcp::note_to_string(note);
	s.note("text", plain);
	pbt::check(!plain.empty(), "nothing is said");
	auto const m = mentions().find(static_cast<Code>(code));
	if (m != mentions().end()) {
		s.nontrivial();
		for (auto const& i: m->second) {
			string want;
			if (i == "file") {
				want = boost::filesystem::path(*c.file).filename().string();
			} else if (i == "line") {
				want = std::to_string(*c.line);
			} else if (i == "frame_rate") {
				want = std::to_string(c.frame_rate->first) + "/" + std::to_string(c.frame_rate->second);
			} else if (i == "timecode") {
				want = timecode(c.integers.at("frame"), c.frame_rate->first);
			} else if (i == "time") {
				want = timecode(c.time->first * 24 + c.time->second, 24);
			} else if (c.strings.count(i)) {
				want = c.strings.at(i);
			} else if (c.integers.count(i)) {
				want = std::to_string(c.integers.at(i));
			} else {
				want = std::to_string(c.sizes.at(i).first) + "x" + std::to_string(c.sizes.at(i).second);
			}
			pbt::check(plain.find(want) != string::npos, "the " + i + " (" + want + ") is not mentioned in: " + plain);
		}
	}
	/* Writing to a stream says the same and where */
	std::ostringstream o;
	o << note;
	pbt::check(o.str().find(plain) == 0, "description in a stream starts differently");
	pbt::check(o.str().find(*c.file) != string::npos, "file is not in stream");
	pbt::check(o.str().find(std::to_string(*c.line)) != string::npos, "line is not in stream");
	/* Processing of filenames */
	auto const marked = dcp::note_to_string(note, [](string t) { return t; }, [](string f) { return "[[" + f + "]]"; });
	string unmarked = marked;
	for (string i: { "[[", "]]" }) {
		size_t p;
		while ((p = unmarked.find(i)) != string::npos) {
			unmarked.erase(p, 2);
		}
	}
	if (static_cast<Code>(code) != Code::INVALID_PKL_NAMESPACE) {
		pbt::check_eq(unmarked, plain, "description with its filenames marked", "");
	}
});

class Recorder : public dcp::Formatter
{
public:
	struct Item
	{
		string text;
		optional<string> type;
		int depth;
	};

	class Level : public Wrap
	{
	public:
		Level(int& d)
			: _d(d)
		{
			++_d;
		}

		~Level()
		{
			--_d;
		}

	private:
		int& _d;
	};

	void heading(string const& t) override { headings.push_back(t); }
	void subheading(string const& t) override { headings.push_back(t); }
	std::unique_ptr<Wrap> unordered_list() override { return std::unique_ptr<Wrap>(new Level(depth)); }
	void list_item(string const& t, optional<string> type = {}) override { items.push_back({ t, type, depth }); }
	std::function<string (string)> process_string() override { return [](string t) { return t; }; }
	std::function<string (string)> fixed_width() override { return [](string t) { return "`" + t + "`"; }; }

	int depth = 0;
	vector<string> headings;
	vector<Item> items;
};

string type_name(VerificationNote const& n)
{
	switch (n.type()) {
	case VerificationNote::Type::OK:
		return "ok";
	case VerificationNote::Type::WARNING:
		return "warning";
	case VerificationNote::Type::ERROR:
		return "error";
	case VerificationNote::Type::BV21_ERROR:
		return "bv21-error";
	}
	return "";
}

pbt::Register reports("reports", 2000, 40000, "there is at least one note", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	boost::filesystem::path const dir = s.scratch();
	vector<dcp::VerificationResult> results;
	vector<vector<string>> cpl_ids;
	vector<string> assets;
	for (int r = 0; s.more(r, 1, 2, 30); ++r) {
		dcp::VerificationResult result;
		cpl_ids.push_back({});
		for (int d = 0; s.more(d, 1, 2, 30); ++d) {
			auto const place = dir / std::to_string(r * 10 + d);
			boost::filesystem::create_directories(place);
			auto dcp = std::make_shared<dcp::DCP>(place);
			for (int i = 0; s.more(i, 0, 2, 60); ++i) {
				auto cpl = std::make_shared<dcp::CPL>("Title", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE);
				if (s.boolean()) {
					cpl->set_annotation_text("Annotation " + std::to_string(i));
				}
				for (int j = 0; s.more(j, 0, 2, 60); ++j) {
					auto reel = std::make_shared<dcp::Reel>();
					if (s.boolean()) {
						string const x = "<MainPicture><Id>urn:uuid:" + dcp::make_uuid() + "</Id><EditRate>24 1</EditRate><IntrinsicDuration>48</IntrinsicDuration><FrameRate>24 1</FrameRate><ScreenAspectRatio>1998 1080</ScreenAspectRatio></MainPicture>";
						cxml::Document doc("MainPicture");
						doc.read_string(x);
						auto n = std::make_shared<cxml::Node>(doc.node());
						auto a = std::make_shared<dcp::ReelMonoPictureAsset>(n);
						assets.push_back(a->id());
						reel->add(a);
					}
					cpl->add(reel);
				}
				dcp->add(cpl);
				cpl_ids.back().push_back(cpl->id());
			}
			result.dcps.push_back(dcp);
		}
		for (int i = 0; s.more(i, 0, 8, 80); ++i) {
			auto c = everything(s, s.draw(last_code), false);
			/* So that no two are the same */
			c.strings["error"] += "#" + std::to_string(i);
			c.strings.erase("cpl_id");
			auto note = c.note();
			auto const& ids = cpl_ids.back();
			bool const needs = mentions().count(note.code()) && std::count(mentions().at(note.code()).begin(), mentions().at(note.code()).end(), "cpl_id");
			if (needs && ids.empty()) {
				continue;
			}
			if (!ids.empty() && (needs || s.boolean())) {
				note.set_cpl_id(s.pick(ids));
			}
			result.notes.push_back(note);
			s.nontrivial();
			s.note("note", dcp::note_to_string(note));
		}
		results.push_back(result);
	}
	Recorder f;
	dcp::verify_report(results, f);
	pbt::check_eq(f.depth, 0, "lists left open");
	auto items = f.items;
	/* Every note should be there once, after the mention of its CPL and before that of any other */
	size_t types = 0;
	size_t notes = 0;
	for (auto const& i: items) {
		types += bool(i.type);
	}
	for (auto const& r: results) {
		/* Those which are about a CPL first, as others might have the same text */
		auto sorted = r.notes;
		std::stable_partition(sorted.begin(), sorted.end(), [](VerificationNote const& n) { return bool(n.cpl_id()); });
		for (auto const& n: sorted) {
			++notes;
			auto const text = dcp::note_to_string(n, [](string t) { return t; }, [](string t) { return "`" + t + "`"; });
			optional<string> current;
			bool found = false;
			for (auto& i: items) {
				if (i.text.find("CPL ID: ") == 0) {
					current = i.text;
				}
				if (!found && i.type && i.text == text && *i.type == type_name(n) && (!n.cpl_id() || current == "CPL ID: `" + *n.cpl_id() + "`")) {
					/* Only use it once */
					i.text = "";
					found = true;
				}
			}
			pbt::check(found, "a note is not in the report in the right place: " + text);
		}
	}
	pbt::check_eq(types, notes, "number of notes in report");
	for (auto const& a: assets) {
		bool found = false;
		for (auto const& i: items) {
			found = found || i.text == "UUID: `" + a + "`";
		}
		pbt::check(found, "an asset is not in the report");
	}

	/* The same thing to a file */
	{
		dcp::TextFormatter text(dir / "report.txt");
		dcp::verify_report(results, text);
	}
	auto const lines = media::read_file(dir / "report.txt");
	size_t at = 0;
	for (auto const& i: f.items) {
		string t = i.text;
		t.erase(std::remove(t.begin(), t.end(), '`'), t.end());
		at = lines.find("* " + t + "\n", at);
		pbt::check(at != string::npos, "this is not in the text report, or is in the wrong order: " + t);
		++at;
	}
	{
		dcp::HTMLFormatter html(dir / "report.html");
		dcp::verify_report(results, html);
	}
	auto const h = media::read_file(dir / "report.html");
	size_t count = 0;
	for (size_t p = h.find("<li"); p != string::npos; p = h.find("<li", p + 1)) {
		++count;
	}
	pbt::check_eq(count, f.items.size(), "number of items in HTML report");
	for (string t: { "html", "body", "head", "style", "h1", "h2", "ul", "li", "code" }) {
		size_t open = 0, close = 0;
		for (size_t p = 0; (p = h.find("<" + t, p)) != string::npos; ++p) {
			auto const c = h[p + 1 + t.size()];
			open += c == '>' || c == ' ';
		}
		for (size_t p = 0; (p = h.find("</" + t + ">", p)) != string::npos; ++p) {
			++close;
		}
		pbt::check_eq(open, close, "numbers of opening and closing tags for " + t);
	}
});

}
