/* S03: asking about, comparing and looking after subtitles and captions */

#include "pbt.h"
#include "textmodel.h"
#include "package.h"
#include "exceptions.h"
#include "equality_options.h"
#include "load_font_node.h"

using pbt::Src;
using pbt::Register;
using pbt::check;
using pbt::check_eq;
using pbt::fail;
using std::dynamic_pointer_cast;
using std::make_shared;
using std::map;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::filesystem::path;
using boost::optional;
using texts::Line;

static full::Setup setup;

static int const RATE = 12000; ///< a multiple of all the rates that we use

/** Times in units of 1/RATE, written at different rates */
static dcp::Time time(Src& s, int64_t max, vector<int64_t> const& others)
{
	auto const tcr = s.pick({24, 25, 30, 48, 60, 250});
	if (!others.empty() && s.chance(60)) {
		auto const u = s.pick(others);
		for (auto r: {tcr, 24, 25, 30, 48, 60, 250}) {
			if ((u % (RATE / r)) == 0) {
				auto n = u / (RATE / r);
				if (s.chance(40)) {
					n = std::max(int64_t(0), n + (s.boolean() ? 1 : -1));
				}
				return texts::time(n, r);
			}
		}
	}
	return texts::time(s.draw(max * tcr), tcr);
}

static int64_t units(dcp::Time t)
{
	return texts::units(t, RATE);
}

static Register during("during", 60000, 1500000, "some texts are found but not all", [](Src& s) {
	shared_ptr<dcp::TextAsset> a;
	if (s.boolean()) {
		a = make_shared<dcp::SMPTETextAsset>();
	} else {
		a = make_shared<dcp::InteropTextAsset>();
	}
	struct Item { int64_t in, out; };
	vector<Item> items;
	vector<int64_t> all;
	vector<shared_ptr<dcp::Text>> added;
	auto const max = s.pick({2, 100, 10000});
	string note;
	for (int n = 0; s.more(n, 0, 6, 80); ++n) {
		auto in = time(s, max, all);
		auto out = time(s, max, all);
		if (out < in && s.chance(90)) {
			std::swap(in, out);
		}
		Item i = { units(in), units(out) };
		items.push_back(i);
		all.push_back(i.in);
		all.push_back(i.out);
		note += std::to_string(i.in) + "-" + std::to_string(i.out) + " ";
		shared_ptr<dcp::Text> t;
		if (s.chance(80)) {
			t = make_shared<dcp::TextString>(
				boost::none, false, false, false, dcp::Colour(), 42, 1, in, out, 0, dcp::HAlign::CENTER, 0, dcp::VAlign::CENTER, 0, vector<dcp::Text::VariableZPosition>(),
				dcp::Direction::LTR, std::to_string(n), dcp::Effect::NONE, dcp::Colour(), dcp::Time(), dcp::Time(), 0, vector<dcp::Ruby>()
				);
		} else {
			t = make_shared<dcp::TextImage>(
				dcp::ArrayData(1), "id", in, out, 0, dcp::HAlign::CENTER, 0, dcp::VAlign::CENTER, 0, vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time()
				);
		}
		added.push_back(t);
		a->add(t);
	}
	auto const from = time(s, max, all);
	auto const to = time(s, max, all);
	auto const f = units(from);
	auto const t = units(to);
	bool const starting = s.boolean();
	vector<shared_ptr<const dcp::Text>> want;
	int64_t latest = 0;
	for (size_t i = 0; i < items.size(); ++i) {
		auto const& x = items[i];
		if (starting ? (x.in >= f && x.in < t) : (x.out >= f && x.in <= t)) {
			want.push_back(added[i]);
		}
		latest = std::max(latest, x.out);
	}
	s.note("texts", note);
	s.note("from", f);
	s.note("to", t);
	s.note("starting", starting);
	s.nontrivial_if(!want.empty() && want.size() < items.size());
	auto const got = a->texts_during(from, to, starting);
	check_eq(got.size(), want.size(), "number of texts");
	for (size_t i = 0; i < got.size(); ++i) {
		check(got[i] == want[i], "wrong text");
	}
	check_eq(units(a->latest_text_out()), latest, "latest out time");
	check_eq(a->texts().size(), items.size(), "total number of texts");
});

/** Change one thing about a line */
static string change(Src& s, Line& n, bool smpte, int tcr)
{
	if (n.image) {
		switch (s.draw(1)) {
		case 0: n.image_data += "x"; return "image";
		}
	} else {
		auto& run = s.pick(n.runs);
		auto& r = n.runs[&run - &n.runs[0]];
		switch (s.draw(20)) {
		case 0: r.look.font = r.look.font ? optional<string>() : string("x"); return "font";
		case 1: r.look.font = r.look.font.get_value_or("") + "x"; return "font";
		case 2: r.look.italic = !r.look.italic; return "italic";
		case 3: r.look.bold = !r.look.bold; return "bold";
		case 4: r.look.underline = !r.look.underline; return "underline";
		case 5: r.look.colour ^= 1 << s.draw(23); return "colour";
		case 6: r.look.size += 1; return "size";
		case 7: r.look.aspect += r.look.aspect < 40 ? 1 : -1; return "aspect";
		case 8: r.look.effect = r.look.effect == dcp::Effect::NONE ? dcp::Effect::BORDER : (r.look.effect == dcp::Effect::BORDER ? dcp::Effect::SHADOW : dcp::Effect::NONE); return "effect";
		case 9: r.look.effect_colour ^= 1 << s.draw(23); return "effect colour";
		case 10: r.text += s.pick({"x", " ", "\n"}); return "text";
		case 11: r.space += 1; return "space";
		case 12: n.direction = n.direction == dcp::Direction::LTR ? dcp::Direction::RTL : dcp::Direction::LTR; return "direction";
		case 13:
			if (n.rubies.empty() || s.chance(30)) {
				n.rubies.push_back(texts::ruby(s));
				return "extra ruby";
			}
			auto& ruby = n.rubies[s.draw(n.rubies.size() - 1)];
			switch (s.draw(6)) {
			case 0: ruby.base += "x"; return "ruby base";
			case 1: ruby.annotation += "x"; return "ruby annotation";
			case 2: ruby.size += 1; return "ruby size";
			case 3: ruby.before = !ruby.before; return "ruby position";
			case 4: ruby.offset += 1; return "ruby offset";
			case 5: ruby.spacing += 1; return "ruby spacing";
			case 6: ruby.aspect += 1; return "ruby aspect";
			}
		}
	}
	(void) smpte;
	switch (s.draw(8)) {
	case 0: n.in += s.chance(50) ? 1 : tcr; return "in";
	case 1: n.out += s.chance(50) ? 1 : tcr; return "out";
	case 2: n.up += 1; return "fade up";
	case 3: n.down += 1; return "fade down";
	case 4: n.h += 15; return "horizontal position";
	case 5: n.h_align = n.h_align == dcp::HAlign::LEFT ? dcp::HAlign::RIGHT : dcp::HAlign::LEFT; return "horizontal alignment";
	case 6: n.v_align = n.v_align == dcp::VAlign::TOP ? dcp::VAlign::CENTER : dcp::VAlign::TOP; return "vertical alignment";
	case 7: n.z += 15; return "Z position";
	case 8:
		if (n.variable_z.empty() || s.chance(30)) {
			n.variable_z.push_back({1, 1});
		} else if (s.boolean()) {
			n.variable_z.back().first += 1;
		} else {
			n.variable_z.back().second += 1;
		}
		return "variable Z";
	}
	return "";
}

struct Notes
{
	int errors = 0;
	int others = 0;

	dcp::NoteHandler handler() {
		return [this](dcp::NoteType t, string) {
			if (t == dcp::NoteType::ERROR) {
				++errors;
			} else {
				++others;
			}
		};
	}
};

static Register equal("equal", 30000, 800000, "something is changed", [](Src& s) {
	bool const smpte = s.boolean();
	texts::Limits l;
	l.smpte = smpte;
	l.tcr = smpte ? s.pick({24, 25, 250}) : 250;
	l.fonts = {"a", "b"};
	l.max_lines = 4;
	auto const lines = texts::lines(s, l);
	auto other = lines;
	dcp::EqualityOptions options;
	string what = "nothing";
	bool same = true;
	bool smpte_other = smpte;

	struct Head
	{
		string title = "title";
		optional<string> language;
		int day = 1;
		optional<int> reel;
		int edit_rate = 24;
		optional<int> start;
		vector<string> fonts;
	};

	Head head;
	head.title = full::text(s, 1, 3);
	if (s.boolean()) {
		head.language = "en";
	}
	if (s.boolean()) {
		head.reel = s.draw(3);
	}
	if (s.boolean()) {
		head.start = s.draw(100);
	}
	for (int n = 0; s.more(n, 0, 2, 50); ++n) {
		head.fonts.push_back("font" + std::to_string(n));
	}
	auto other_head = head;

	auto build = [&](bool is_smpte, Head const& h, vector<Line> const& v) -> shared_ptr<dcp::TextAsset> {
		shared_ptr<dcp::TextAsset> r;
		if (is_smpte) {
			auto a = make_shared<dcp::SMPTETextAsset>();
			a->set_content_title_text(h.title);
			if (h.language) {
				a->set_language(dcp::LanguageTag(*h.language));
			}
			a->set_issue_date(dcp::LocalTime("2020-01-0" + std::to_string(h.day) + "T00:00:00+00:00"));
			if (h.reel) {
				a->set_reel_number(*h.reel);
			}
			a->set_edit_rate(dcp::Fraction(h.edit_rate, 1));
			a->set_time_code_rate(24);
			if (h.start) {
				a->set_start_time(dcp::Time(0, 0, 0, *h.start, 250));
			}
			r = a;
		} else {
			auto a = make_shared<dcp::InteropTextAsset>();
			a->set_movie_title(h.title);
			r = a;
		}
		for (auto const& i: h.fonts) {
			r->add_font(i, dcp::ArrayData(1));
		}
		for (auto const& i: v) {
			for (auto const& j: texts::make(i, l.tcr)) {
				r->add(j);
			}
		}
		return r;
	};

	switch (s.weighted({15, 50, 10, 25, 5, 10})) {
	case 0:
		break;
	case 1:
		if (!other.empty()) {
			what = change(s, other[s.draw(other.size() - 1)], smpte, l.tcr);
			same = false;
		}
		break;
	case 2:
		if (!other.empty()) {
			what = "missing line";
			other.erase(other.begin() + s.draw(other.size() - 1));
			same = false;
		}
		break;
	case 3:
		same = false;
		switch (s.draw(smpte ? 7 : 1)) {
		case 0: what = "title"; other_head.title += "x"; break;
		case 1:
			what = "fonts";
			if (!other_head.fonts.empty() && s.boolean()) {
				if (!smpte && s.chance(20)) {
					options.load_font_nodes_can_differ = true;
					same = true;
				}
				s.pick(other_head.fonts);
				other_head.fonts[s.draw(other_head.fonts.size() - 1)] += "x";
			} else {
				other_head.fonts.push_back("x");
			}
			break;
		case 2: what = "language"; other_head.language = head.language && s.boolean() ? optional<string>() : string("de"); break;
		case 3: what = "issue date"; other_head.day = 2; options.issue_dates_can_differ = same = s.boolean(); break;
		case 4: what = "reel"; other_head.reel = head.reel && s.boolean() ? optional<int>() : 17; break;
		case 5: what = "edit rate"; other_head.edit_rate = 25; break;
		case 6: what = "start time"; other_head.start = head.start && s.boolean() ? optional<int>() : 200; break;
		case 7: what = "standard"; smpte_other = false; break;
		}
		break;
	case 4:
		if (lines.size() > 1 && !(lines[0].key() == lines[1].key())) {
			what = "order";
			std::swap(other[0], other[1]);
			same = false;
		}
		break;
	case 5:
		/* A vertical position may be a bit different if we like */
		if (!other.empty()) {
			what = "vertical position";
			auto const d = int(1 + s.draw(100)) * (s.boolean() ? 1 : -1);
			other[s.draw(other.size() - 1)].v += d;
			same = false;
			if (s.chance(70)) {
				auto const e = int(s.draw(100));
				if (e == std::abs(d)) {
					s.discard();
				}
				options.max_text_vertical_position_error = e / 10000.0f;
				same = std::abs(d) < e;
			}
		}
		break;
	}

	s.note("lines", "\n" + texts::show(lines));
	s.note("changed", what);
	s.label(what);
	s.nontrivial_if(what != "nothing");

	auto a = build(smpte, head, lines);
	auto b = build(smpte_other, other_head, other);
	if (s.boolean()) {
		std::swap(a, b);
	}
	Notes notes;
	check_eq(a->equals(b, options, notes.handler()), same, "equal after changing " + what);
	if (same) {
		check_eq(notes.errors, 0, "number of errors");
	} else if (what != "standard") {
		check(notes.errors > 0, "no error after changing " + what);
	}

	/* Compare the texts themselves */
	auto as_text = a->texts();
	auto bs_text = b->texts();
	if (as_text.size() == bs_text.size()) {
		bool equal = true;
		for (size_t i = 0; i < as_text.size(); ++i) {
			auto as = dynamic_pointer_cast<const dcp::TextString>(as_text[i]);
			auto bs = dynamic_pointer_cast<const dcp::TextString>(bs_text[i]);
			auto ai = dynamic_pointer_cast<const dcp::TextImage>(as_text[i]);
			auto bi = dynamic_pointer_cast<const dcp::TextImage>(bs_text[i]);
			if (as && bs) {
				check_eq(*as == *bs, !(*as != *bs), "strings equal or not");
				equal = equal && *as == *bs;
			} else if (ai && bi) {
				check_eq(*ai == *bi, !(*ai != *bi), "images equal or not");
				equal = equal && *ai == *bi;
			} else {
				equal = false;
			}
		}
		vector<string> x, y;
		for (auto const& i: lines) {
			x.push_back(i.key());
		}
		for (auto const& i: other) {
			y.push_back(i.key());
		}
		check_eq(equal, x == y, "texts equal after changing " + what);
	}
});

static Register setters("setters", 15000, 300000, "something is different", [](Src& s) {
	/* A text whose parts are set is the same as one which was made with those parts */
	texts::Limits l;
	l.tcr = 250;
	l.fonts = {"a", "b"};
	l.max_lines = 6;
	auto const lines = texts::lines(s, l);
	for (size_t i = 1; i < lines.size(); ++i) {
		auto from = lines[i - 1];
		auto to = lines[i];
		if (from.image != to.image) {
			continue;
		}
		from.runs.resize(std::min(from.runs.size(), size_t(1)));
		to.runs.resize(from.runs.size());
		auto const a = texts::make(from, l.tcr)[0];
		auto const b = texts::make(to, l.tcr)[0];
		auto want = from;
		auto maybe = [&](std::function<void ()> f) {
			if (s.chance(80)) {
				f();
			}
		};
		maybe([&]() { a->set_in(b->in()); want.in = to.in; });
		maybe([&]() { a->set_out(b->out()); want.out = to.out; });
		maybe([&]() { a->set_h_position(b->h_position()); want.h = to.h; });
		maybe([&]() { a->set_v_position(b->v_position()); want.v = to.v; });
		maybe([&]() { a->set_z_position(b->z_position()); want.z = to.z; });
		maybe([&]() { a->set_variable_z_positions(b->variable_z_positions()); want.variable_z = to.variable_z; });
		maybe([&]() { a->set_fade_up_time(b->fade_up_time()); want.up = to.up; });
		maybe([&]() { a->set_fade_down_time(b->fade_down_time()); want.down = to.down; });
		if (auto x = dynamic_pointer_cast<dcp::TextString>(a)) {
			auto y = dynamic_pointer_cast<dcp::TextString>(b);
			auto& want_run = want.runs[0];
			auto const& to_run = to.runs[0];
			maybe([&]() {
				if (y->font()) {
					x->set_font(*y->font());
				} else {
					x->unset_font();
				}
				want_run.look.font = to_run.look.font;
			});
			maybe([&]() { x->set_size(y->size()); want_run.look.size = to_run.look.size; });
			maybe([&]() { x->set_aspect_adjust(y->aspect_adjust()); want_run.look.aspect = to_run.look.aspect; });
			maybe([&]() { x->set_text(y->text()); want_run.text = to_run.text; });
			maybe([&]() { x->set_colour(y->colour()); want_run.look.colour = to_run.look.colour; });
			maybe([&]() { x->set_effect(y->effect()); want_run.look.effect = to_run.look.effect; });
			maybe([&]() { x->set_effect_colour(y->effect_colour()); want_run.look.effect_colour = to_run.look.effect_colour; });
			maybe([&]() { x->set_rubies(y->rubies()); want.rubies = to.rubies; });
		} else {
			auto image = dynamic_pointer_cast<dcp::TextImage>(a);
			maybe([&]() { image->set_png_image(dynamic_pointer_cast<dcp::TextImage>(b)->png_image()); want.image_data = to.image_data; });
		}
		s.nontrivial_if(want.key() != from.key());
		texts::compare(texts::read({a}, l.tcr), {want}, "text with parts set");
	}
});

static Register rubies("rubies", 20000, 400000, "something is changed", [](Src& s) {
	auto make = [](texts::RubyModel const& r) {
		return texts::make(r);
	};
	auto const a = texts::ruby(s);
	auto b = a;
	bool same = false;
	switch (s.draw(7)) {
	case 0: same = true; break;
	case 1: b.base += "x"; break;
	case 2: b.annotation += "x"; break;
	case 3: b.size += 1; break;
	case 4: b.before = !b.before; break;
	case 5: b.offset += 1; break;
	case 6: b.spacing += 1; break;
	case 7: b.aspect += 1; break;
	}
	s.nontrivial_if(!same);
	check_eq(make(a) == make(b), same, "==");
	check_eq(make(b) == make(a), same, "==, the other way round");
	check_eq(make(a) != make(b), !same, "!=");
	check_eq(make(b) != make(a), !same, "!=, the other way round");
});

static Register fonts("fonts", 6000, 120000, "an empty font ID", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	/* Make a file with some font IDs, some of which may be empty */
	bool const smpte = s.boolean();
	shared_ptr<dcp::TextAsset> a;
	if (smpte) {
		a = make_shared<dcp::SMPTETextAsset>();
	} else {
		a = make_shared<dcp::InteropTextAsset>();
	}
	path const dir = s.scratch();
	map<string, string> want;
	bool empty = false;
	string note;
	for (int n = 0; s.more(n, 0, 4, 70); ++n) {
		auto const id = s.pick<string>({"", "font0", "font1", "font2", "font", "other"});
		auto const d = "data" + std::to_string(n);
		note += pbt::quote(id) + " ";
		dcp::ArrayData const data(reinterpret_cast<uint8_t const*>(d.data()), d.size());
		/* Once only: this makes no change to a font which is already there */
		auto const before = a->load_font_nodes().size();
		a->ensure_font(id, data);
		check_eq(a->load_font_nodes().size(), before + (want.count(id) ? 0 : 1), "number of fonts after ensuring that one exists");
		if (!want.count(id)) {
			want[id] = d;
		}
		empty = empty || id.empty();
	}
	vector<Line> lines;
	for (int n = 0; s.more(n, 0, 4, 70); ++n) {
		Line line;
		line.in = n;
		line.out = n + 1;
		texts::Run run;
		run.text = "x";
		if (s.chance(80)) {
			run.look.font = s.pick<string>({"", "", "font0", "font1", "other", "missing"});
			note += "use " + pbt::quote(*run.look.font) + " ";
		}
		line.runs.push_back(run);
		lines.push_back(line);
		for (auto i: texts::make(line, smpte ? 24 : 250)) {
			a->add(i);
		}
	}
	s.note("fonts", note);
	s.nontrivial_if(empty);

	if (s.boolean()) {
		a->write(dir / "first");
		if (smpte) {
			a = make_shared<dcp::SMPTETextAsset>(dir / "first");
		} else {
			auto b = make_shared<dcp::InteropTextAsset>(dir / "first");
			b->resolve_fonts(dynamic_pointer_cast<dcp::InteropTextAsset>(a)->font_assets());
			a = b;
		}
	}

	a->fix_empty_font_ids();

	/* The empty ID gets a new name which nothing else had */
	string name;
	if (empty) {
		for (int i = 0; ; ++i) {
			name = "font" + std::to_string(i);
			if (!want.count(name)) {
				break;
			}
		}
		want[name] = want[""];
		want.erase("");
	}
	auto compare = [&](dcp::TextAsset const& b) {
		std::multiset<string> ids, expected;
		for (auto i: b.load_font_nodes()) {
			ids.insert(i->id);
		}
		for (auto i: want) {
			expected.insert(i.first);
		}
		check(ids == expected, "wrong font IDs");
		auto const t = b.texts();
		check_eq(t.size(), lines.size(), "number of texts");
		for (size_t i = 0; i < t.size(); ++i) {
			auto font = lines[i].runs[0].look.font;
			if (font && font->empty() && empty) {
				font = name;
			}
			check_eq(dynamic_pointer_cast<const dcp::TextString>(t[i])->font().get_value_or("(none)"), font.get_value_or("(none)"), "font of text");
		}
		auto const data = b.font_data();
		check_eq(data.size(), want.size(), "number of fonts");
		for (auto const& i: want) {
			auto const j = data.find(i.first);
			check(j != data.end(), "no data for font " + pbt::quote(i.first));
			check_eq(string(reinterpret_cast<char const*>(j->second.data()), j->second.size()), i.second, "data of font " + i.first);
		}
	};
	compare(*a);

	/* That still works when it's written */
	boost::filesystem::create_directory(dir / "second");
	a->write(dir / "second" / "x");
	if (smpte) {
		compare(dcp::SMPTETextAsset(dir / "second" / "x"));
	} else {
		dcp::InteropTextAsset b(dir / "second" / "x");
		b.resolve_fonts(dynamic_pointer_cast<dcp::InteropTextAsset>(a)->font_assets());
		compare(b);
	}
});

static Register full_up("full", 60, 600, "all", [](Src& s) {
	/* There's a limit to the number of fonts and images in a SMPTE file */
	dcp::SMPTETextAsset a;
	int n = 0;
	int strings = 0;
	auto const text = [](bool image) -> shared_ptr<dcp::Text> {
		Line line;
		line.out = 1;
		line.image = image;
		line.image_id = "6d2d4f4f-0000-4000-8000-000000000000";
		line.image_data = "x";
		texts::Run run;
		run.text = "x";
		line.runs.push_back(run);
		return texts::make(line, 24)[0];
	};
	auto const percent = s.draw(100);
	s.note("percent", percent);
	s.nontrivial();
	while (n < 4095) {
		if (s.chance(5)) {
			a.add(text(false));
			++strings;
		} else if (s.chance(percent)) {
			a.add(text(true));
			++n;
		} else {
			a.add_font("f", dcp::ArrayData(1));
			++n;
		}
	}
	for (int i = 0; i < 3; ++i) {
		bool thrown = false;
		try {
			if (s.boolean()) {
				a.add(text(true));
			} else {
				a.add_font("f", dcp::ArrayData(1));
			}
		} catch (dcp::SMPTETextAssetFullError&) {
			thrown = true;
		}
		check(thrown, "too many fonts and images");
	}
	int got = a.load_font_nodes().size();
	for (auto i: a.texts()) {
		if (dynamic_pointer_cast<const dcp::TextImage>(i)) {
			++got;
		}
	}
	check_eq(got, 4095, "number of fonts and images");
});
