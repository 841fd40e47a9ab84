/* S01: subtitles and captions keep everything when they are written and read */

#include "pbt.h"
#include "textmodel.h"
#include "package.h"
#include "exceptions.h"
#include "font_asset.h"
#include "load_font_node.h"

using pbt::Src;
using pbt::Register;
using pbt::check;
using pbt::check_eq;
using pbt::fail;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::filesystem::path;
using boost::optional;
using texts::Line;

static full::Setup setup;

static map<string, string> fonts(Src& s)
{
	map<string, string> f;
	for (int n = 0; s.more(n, 0, 3, 60); ++n) {
		auto const d = s.bytes(1, 50);
		f[s.pick({"font", "Arial", "a b", "R&B", "\"quoted\"", "<x>", "\xc3\xa9"}) + (n ? std::to_string(n) : "")] = string(d.begin(), d.end());
	}
	return f;
}

static void check_fonts(dcp::TextAsset const& a, map<string, string> const& want, bool data)
{
	auto nodes = a.load_font_nodes();
	check_eq(nodes.size(), want.size(), "number of LoadFonts");
	std::set<string> ids;
	for (auto i: nodes) {
		ids.insert(i->id);
	}
	for (auto const& i: want) {
		check(ids.count(i.first), "no LoadFont for " + i.first);
	}
	if (data) {
		auto got = a.font_data();
		check_eq(got.size(), want.size(), "number of fonts");
		for (auto const& i: want) {
			check(got.count(i.first), "no data for font " + i.first);
			check_eq(string(reinterpret_cast<char const*>(got[i.first].data()), got[i.first].size()), i.second, "data of font " + i.first);
		}
	}
}

/** Texts which start at the same time are in order from the top of the screen to the bottom */
static void check_order(vector<Line> const& got)
{
	for (size_t i = 1; i < got.size(); ++i) {
		auto const& a = got[i - 1];
		auto const& b = got[i];
		check(a.in <= b.in, "texts are not in order of time:\n" + texts::show(got));
		if (a.in == b.in && a.v_align == b.v_align) {
			check(a.v_align == dcp::VAlign::BOTTOM ? a.v >= b.v : a.v <= b.v, "texts are not in order from the top to the bottom:\n" + texts::show(got));
		}
	}
}

static void add(Src& s, dcp::TextAsset& asset, vector<Line> const& lines, int tcr)
{
	/* If nothing starts at the same time, strings can be added in any order as long as those on each line are in order */
	std::set<int64_t> starts;
	for (auto const& i: lines) {
		starts.insert(i.in);
	}
	vector<vector<shared_ptr<dcp::Text>>> todo;
	for (auto const& i: lines) {
		todo.push_back(texts::make(i, tcr));
	}
	if (starts.size() == lines.size() && s.boolean()) {
		while (!todo.empty()) {
			auto const i = s.draw(todo.size() - 1);
			asset.add(todo[i].front());
			todo[i].erase(todo[i].begin());
			if (todo[i].empty()) {
				todo.erase(todo.begin() + i);
			}
		}
	} else {
		for (auto const& i: todo) {
			for (auto const& j: i) {
				asset.add(j);
			}
		}
	}
}

static bool interesting(vector<Line> const& lines)
{
	for (auto const& i: lines) {
		if (i.runs.size() > 1) {
			return true;
		}
	}
	return lines.size() > 2;
}

static Register smpte("smpte", 6000, 100000, "a line with more than one part, or more than two lines", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	texts::Limits l;
	l.tcr = s.pick({24, 24, 25, 30, 48, 50, 60, 96, 100, 120, 250});
	auto const font = fonts(s);
	for (auto const& i: font) {
		l.fonts.push_back(i.first);
	}
	auto const lines = texts::lines(s, l);
	s.note("rate", l.tcr);
	s.note("lines", "\n" + texts::show(lines));
	s.nontrivial_if(interesting(lines));

	auto const standard = s.pick({dcp::SubtitleStandard::SMPTE_2014, dcp::SubtitleStandard::SMPTE_2010, dcp::SubtitleStandard::SMPTE_2007});
	dcp::SMPTETextAsset a(standard);
	check(!a.raw_xml(), "raw XML before writing");
	auto const title = full::text(s, 1, 5);
	a.set_content_title_text(title);
	optional<string> language;
	if (s.boolean()) {
		language = s.pick({"en", "de-DE", "pt-BR", "zh-Hant-TW"});
		a.set_language(dcp::LanguageTag(*language));
	}
	char stamp[64];
	auto const year = int(1950 + s.draw(100));
	auto const month = int(1 + s.draw(11));
	auto const day = int(1 + s.draw(27));
	auto const second = int(s.draw(86399));
	snprintf(stamp, sizeof(stamp), "%04d-%02d-%02dT%02d:%02d:%02d+00:00", year, month, day, second / 3600, (second / 60) % 60, second % 60);
	dcp::LocalTime const date{string(stamp)};
	a.set_issue_date(date);
	optional<int> reel;
	if (s.boolean()) {
		reel = s.draw(100);
		a.set_reel_number(*reel);
	}
	auto const rate = media::edit_rate(s);
	a.set_edit_rate(rate);
	a.set_time_code_rate(l.tcr);
	optional<dcp::Time> start;
	if (s.boolean()) {
		start = texts::time(s.draw(10 * 3600 * l.tcr), l.tcr);
		a.set_start_time(*start);
	}
	media::Lock lock;
	lock.generate(s, 25);
	lock.apply(a);
	media::Tags tags;
	tags.generate(s);
	tags.apply(a);
	for (auto const& i: font) {
		a.add_font(i.first, dcp::ArrayData(reinterpret_cast<uint8_t const*>(i.second.data()), i.second.size()));
	}
	add(s, a, lines, l.tcr);
	int64_t const duration = 1 + s.draw(100000);
	a.set_intrinsic_duration(duration);

	path const dir = s.scratch();
	auto const file = dir / "text.mxf";
	a.write(file);
	check(a.file() && *a.file() == file, "wrong file");
	check(static_cast<bool>(a.raw_xml()), "no raw XML after writing");

	auto compare = [&](dcp::SMPTETextAsset const& b, bool mxf) {
		check(b.standard() == dcp::Standard::SMPTE, "wrong standard");
		check(b.subtitle_standard() == standard, "wrong subtitle standard");
		check_eq(b.xml_id().get_value_or("none"), *a.xml_id(), "XML ID");
		check_eq(b.content_title_text(), title, "title");
		check_eq(b.language().get_value_or("none"), language.get_value_or("none"), "language");
		check_eq(b.issue_date().as_string(), date.as_string(), "issue date");
		check_eq(b.reel_number().get_value_or(-1), reel.get_value_or(-1), "reel number");
		check_eq(b.edit_rate().as_string(), rate.as_string(), "edit rate");
		check_eq(b.time_code_rate(), l.tcr, "time code rate");
		check_eq(b.start_time() ? b.start_time()->as_string(dcp::Standard::SMPTE) : "none", start ? start->as_string(dcp::Standard::SMPTE) : "none", "start time");
		auto const got = texts::read(b.texts(), l.tcr);
		texts::compare(got, lines, "after reading");
		check_order(got);
		check_fonts(b, font, mxf);
		if (mxf) {
			check_eq(b.id(), a.id(), "ID");
			check_eq(b.intrinsic_duration(), duration, "intrinsic duration");
			check_eq(b.resource_id().get_value_or("none"), *a.xml_id(), "resource ID");
			tags.compare(b);
		}
	};

	dcp::SMPTETextAsset b(file);
	if (lock.key) {
		check(b.texts().empty(), "texts without key");
		check(!b.raw_xml(), "XML without key");
		check(!b.can_be_read(), "can be read without key");
	}
	lock.unlock(b);
	check(b.can_be_read(), "can't be read");
	check_eq(b.raw_xml().get_value_or("none"), *a.raw_xml(), "raw XML");
	compare(b, true);
	check(dcp::SMPTETextAsset::valid_mxf(file), "not a valid MXF");

	/* Write what was read */
	b.write(dir / "again.mxf");
	dcp::SMPTETextAsset c(dir / "again.mxf");
	lock.unlock(c);
	compare(c, true);

	/* And as XML */
	path const plain = dir / "plain";
	boost::filesystem::create_directory(plain);
	package::put(plain / "text.xml", b.xml_as_string());
	for (auto const& i: lines) {
		if (i.image) {
			package::put(plain / ((s.boolean() ? "" : "") + i.image_id + ".png"), i.image_data);
		}
	}
	dcp::SMPTETextAsset d(plain / "text.xml");
	compare(d, false);
	check(!dcp::SMPTETextAsset::valid_mxf(plain / "text.xml"), "XML is a valid MXF");
});

static Register interop("interop", 6000, 120000, "a line with more than one part, or more than two lines", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	texts::Limits l;
	l.smpte = false;
	l.tcr = 250;
	auto const font = fonts(s);
	for (auto const& i: font) {
		l.fonts.push_back(i.first);
	}
	auto const lines = texts::lines(s, l);
	s.note("lines", "\n" + texts::show(lines));
	s.nontrivial_if(interesting(lines));

	dcp::InteropTextAsset a;
	auto const title = full::text(s, 1, 5);
	auto const reel = full::text(s, 1, 3);
	auto const language = full::text(s, 1, 3);
	a.set_movie_title(title);
	a.set_reel_number(reel);
	a.set_language(language);
	for (auto const& i: font) {
		a.add_font(i.first, dcp::ArrayData(reinterpret_cast<uint8_t const*>(i.second.data()), i.second.size()));
	}
	add(s, a, lines, l.tcr);
	path const dir = path(s.scratch()) / "first";
	boost::filesystem::create_directory(dir);
	auto const file = dir / "text.xml";
	a.write(file);
	check_eq(media::read_file(file), a.raw_xml().get_value_or("none"), "raw XML");
	check_eq(media::read_file(file), a.xml_as_string(), "XML");

	auto compare = [&](dcp::InteropTextAsset const& b, bool data) {
		check_eq(b.id(), a.id(), "ID");
		check_eq(b.movie_title(), title, "title");
		check_eq(b.reel_number(), reel, "reel number");
		check_eq(b.language(), language, "language");
		check(b.subtitle_standard() == dcp::SubtitleStandard::INTEROP, "wrong standard");
		auto const got = texts::read(b.texts(), l.tcr);
		texts::compare(got, lines, "after reading");
		check_order(got);
		check_fonts(b, font, data);
	};
	dcp::InteropTextAsset b(file);
	compare(b, false);
	check_eq(b.unresolved_fonts().size(), font.size(), "unresolved fonts");

	/* Find the fonts */
	vector<shared_ptr<dcp::Asset>> assets;
	for (auto i: a.font_assets()) {
		check(i->file() && boost::filesystem::exists(*i->file()), "no font file");
		if (s.chance(95)) {
			assets.push_back(make_shared<dcp::FontAsset>(i->id(), *i->file()));
		}
	}
	b.resolve_fonts(assets);
	check_eq(b.unresolved_fonts().size(), font.size() - assets.size(), "unresolved fonts after resolving");
	if (assets.size() == font.size()) {
		compare(b, true);
		/* Write what was read */
		auto const second = path(s.scratch()) / "second";
		boost::filesystem::create_directory(second);
		b.write(second / "again.xml");
		dcp::InteropTextAsset c(second / "again.xml");
		c.resolve_fonts(b.font_assets());
		compare(c, true);
	}
});

static Register digests("digests", 1500, 30000, "all", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	/* Write, look at the digest, change something and write again, perhaps in the same place */
	bool const smpte = s.boolean();
	shared_ptr<dcp::TextAsset> a;
	if (smpte) {
		a = make_shared<dcp::SMPTETextAsset>();
	} else {
		a = make_shared<dcp::InteropTextAsset>();
	}
	texts::Limits l;
	l.smpte = smpte;
	l.tcr = smpte ? 24 : 250;
	path const dir = s.scratch();
	int n = 0;
	for (; s.more(n, 1, 4, 70); ++n) {
		l.max_lines = 2;
		add(s, *a, texts::lines(s, l), l.tcr);
		auto const file = dir / s.pick({"a", "b"});
		a->write(file);
		check(a->file() && *a->file() == file, "wrong file after writing");
		if (s.chance(70)) {
			check_eq(a->hash(), package::digest(media::read_file(file)), "digest of what was just written");
		}
	}
	s.note("writes", n);
	s.note("texts", a->texts().size());
	s.nontrivial_if(n > 1);
});

static Register write_fails("write_fails", 300, 3000, "all", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	/* If it can't be written, we are told about it */
	bool const smpte = s.boolean();
	shared_ptr<dcp::TextAsset> a;
	if (smpte) {
		a = make_shared<dcp::SMPTETextAsset>();
	} else {
		a = make_shared<dcp::InteropTextAsset>();
	}
	texts::Limits l;
	l.smpte = smpte;
	l.tcr = smpte ? 24 : 250;
	l.max_lines = s.pick({1, 10, 50});
	add(s, *a, texts::lines(s, l), l.tcr);
	path const dir = s.scratch();
	path file;
	string what;
	switch (s.draw(smpte ? 1 : 2)) {
	case 0: what = "no directory"; file = dir / "missing" / "x"; break;
	case 1: what = "is a directory"; file = dir / "x"; boost::filesystem::create_directory(file); break;
	case 2: what = "no space"; file = dir / "x"; boost::filesystem::create_symlink("/dev/full", file); break;
	}
	s.note("what", what);
	s.note("texts", a->texts().size());
	s.nontrivial();
	bool thrown = false;
	try {
		a->write(file);
	} catch (std::exception&) {
		thrown = true;
	}
	check(thrown, "no error from a write which failed: " + what);
});
