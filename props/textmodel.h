/* A model of what is in subtitle and caption files */

#ifndef VERIF_TEXTMODEL_H
#define VERIF_TEXTMODEL_H

#include "full.h"
#include "media.h"
#include "text_asset.h"
#include "text_image.h"
#include "text_string.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>

namespace texts {

using std::string;
using std::vector;
using std::shared_ptr;
using std::make_shared;
using boost::optional;

/** How some characters look */
struct Look
{
	optional<string> font;
	bool italic = false;
	bool bold = false;
	bool underline = false;
	int colour = 0xffffff;
	int size = 42;
	int aspect = 10;  ///< tenths
	dcp::Effect effect = dcp::Effect::NONE;
	int effect_colour = 0;

	string key() const
	{
		return (font ? "font=" + *font : string("nofont")) + (italic ? " italic" : "") + (bold ? " bold" : "") + (underline ? " underline" : "") +
			" colour=" + std::to_string(colour) + " size=" + std::to_string(size) + " aspect=" + std::to_string(aspect) + " effect=" + std::to_string(int(effect)) + " effect_colour=" + std::to_string(effect_colour);
	}
};

inline dcp::Colour colour(int c)
{
	return dcp::Colour((c >> 16) & 0xff, (c >> 8) & 0xff, c & 0xff);
}

struct Run
{
	Look look;
	string text;
	int space = 0; ///< tenths of an em
};

struct RubyModel
{
	string base, annotation;
	int size = 50;     ///< all in hundredths
	bool before = true;
	int offset = 0;
	int spacing = 0;
	int aspect = 100;

	string key() const
	{
		return base + "/" + annotation + "/" + std::to_string(size) + (before ? "b" : "a") + std::to_string(offset) + "/" + std::to_string(spacing) + "/" + std::to_string(aspect);
	}
};

/** Some text or an image in one position on the screen */
struct Line
{
	/* Times in units of 1/tcr s */
	int64_t in = 0;
	int64_t out = 0;
	int64_t up = 0;
	int64_t down = 0;
	dcp::HAlign h_align = dcp::HAlign::CENTER;
	int h = 0;  ///< in units of 0.01% of the screen
	dcp::VAlign v_align = dcp::VAlign::CENTER;
	int v = 0;
	int z = 0;
	vector<std::pair<int, int>> variable_z; ///< position in tenths, duration
	dcp::Direction direction = dcp::Direction::LTR;
	vector<RubyModel> rubies;
	vector<Run> runs;
	bool image = false;
	string image_id;
	string image_data;

	string place() const
	{
		auto r = std::to_string(in) + "-" + std::to_string(out) + " fade " + std::to_string(up) + "," + std::to_string(down) +
			" h=" + std::to_string(int(h_align)) + "," + std::to_string(h) + " v=" + std::to_string(int(v_align)) + "," + std::to_string(v) + " z=" + std::to_string(z) + " [";
		for (auto const& i: variable_z) {
			r += std::to_string(i.first) + ":" + std::to_string(i.second) + " ";
		}
		r += "]";
		if (!image) {
			r += " dir=" + std::to_string(int(direction));
			for (auto const& i: rubies) {
				r += " ruby=" + i.key();
			}
		}
		return r;
	}

	string key() const
	{
		auto r = place();
		if (image) {
			return r + " image " + image_id + " " + pbt::quote(image_data);
		}
		/* Neighbouring runs which look the same might as well be one */
		vector<Run> merged;
		for (auto const& i: runs) {
			if (!merged.empty() && merged.back().look.key() == i.look.key() && i.space == 0) {
				merged.back().text += i.text;
			} else {
				merged.push_back(i);
			}
		}
		for (auto const& i: merged) {
			r += "\n    {" + i.look.key() + (i.space ? " space=" + std::to_string(i.space) : "") + "} " + pbt::quote(i.text);
		}
		return r;
	}
};

/** Part of a second, in whole units of 1/tcr s */
inline int64_t units(dcp::Time t, int tcr)
{
	auto const n = (((int64_t(t.h) * 60 + t.m) * 60 + t.s) * t.tcr + t.e) * tcr;
	pbt::check(n % t.tcr == 0, "time " + t.as_string(dcp::Standard::INTEROP) + " (rate " + std::to_string(t.tcr) + ") is not a multiple of 1/" + std::to_string(tcr));
	return n / t.tcr;
}

inline dcp::Time time(int64_t u, int tcr)
{
	return dcp::Time(u / (tcr * 3600), (u / (tcr * 60)) % 60, (u / tcr) % 60, u % tcr, tcr);
}

inline int whole(double x, double scale, string what)
{
	auto const r = std::lround(x * scale);
	pbt::check(std::fabs(x - r / scale) < 0.02 / scale, what + " is " + pbt::show(x));
	return r;
}

/** Turn the library's idea of the texts back into lines */
inline vector<Line> read(vector<shared_ptr<const dcp::Text>> const& in, int tcr)
{
	vector<Line> out;
	for (auto i: in) {
		Line n;
		n.in = units(i->in(), tcr);
		n.out = units(i->out(), tcr);
		n.up = units(i->fade_up_time(), tcr);
		n.down = units(i->fade_down_time(), tcr);
		n.h_align = i->h_align();
		n.h = whole(i->h_position(), 10000, "horizontal position");
		n.v_align = i->v_align();
		n.v = whole(i->v_position(), 10000, "vertical position");
		n.z = whole(i->z_position(), 10000, "Z position");
		for (auto const& z: i->variable_z_positions()) {
			n.variable_z.push_back({whole(z.position, 10, "variable Z"), z.duration});
		}
		if (auto image = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
			n.image = true;
			n.image_id = image->id();
			n.image_data = string(reinterpret_cast<char const*>(image->png_image().data()), image->png_image().size());
			out.push_back(n);
			continue;
		}
		auto t = std::dynamic_pointer_cast<const dcp::TextString>(i);
		pbt::check(static_cast<bool>(t), "text is neither string nor image");
		n.direction = t->direction();
		for (auto const& r: t->rubies()) {
			RubyModel m;
			m.base = r.base;
			m.annotation = r.annotation;
			m.size = whole(r.size, 100, "ruby size");
			m.before = r.position == dcp::RubyPosition::BEFORE;
			m.offset = whole(r.offset, 100, "ruby offset");
			m.spacing = whole(r.spacing, 100, "ruby spacing");
			m.aspect = whole(r.aspect_adjust, 100, "ruby aspect adjust");
			n.rubies.push_back(m);
		}
		Run run;
		run.look.font = t->font();
		run.look.italic = t->italic();
		run.look.bold = t->bold();
		run.look.underline = t->underline();
		run.look.colour = (t->colour().r << 16) | (t->colour().g << 8) | t->colour().b;
		run.look.size = t->size();
		run.look.aspect = whole(t->aspect_adjust(), 10, "aspect adjust");
		run.look.effect = t->effect();
		run.look.effect_colour = (t->effect_colour().r << 16) | (t->effect_colour().g << 8) | t->effect_colour().b;
		run.space = whole(t->space_before(), 10, "space before");
		run.text = t->text();
		if (!out.empty() && !out.back().image && out.back().place() == n.place()) {
			out.back().runs.push_back(run);
		} else {
			n.runs.push_back(run);
			out.push_back(n);
		}
	}
	return out;
}

inline dcp::Ruby make(RubyModel const& r)
{
	dcp::Ruby ruby(r.base, r.annotation);
	ruby.size = r.size / 100.0f;
	ruby.position = r.before ? dcp::RubyPosition::BEFORE : dcp::RubyPosition::AFTER;
	ruby.offset = r.offset / 100.0f;
	ruby.spacing = r.spacing / 100.0f;
	ruby.aspect_adjust = r.aspect / 100.0f;
	return ruby;
}

/** The library's objects for a line */
inline vector<shared_ptr<dcp::Text>> make(Line const& n, int tcr)
{
	vector<shared_ptr<dcp::Text>> r;
	vector<dcp::Text::VariableZPosition> z;
	for (auto const& i: n.variable_z) {
		z.push_back({i.first / 10.0f, i.second});
	}
	if (n.image) {
		r.push_back(make_shared<dcp::TextImage>(
			dcp::ArrayData(reinterpret_cast<uint8_t const*>(n.image_data.data()), n.image_data.size()), n.image_id,
			time(n.in, tcr), time(n.out, tcr), n.h / 10000.0f, n.h_align, n.v / 10000.0f, n.v_align, n.z / 10000.0f, z, time(n.up, tcr), time(n.down, tcr)
			));
		return r;
	}
	vector<dcp::Ruby> rubies;
	for (auto const& i: n.rubies) {
		rubies.push_back(make(i));
	}
	for (auto const& i: n.runs) {
		r.push_back(make_shared<dcp::TextString>(
			i.look.font, i.look.italic, i.look.bold, i.look.underline, colour(i.look.colour), i.look.size, i.look.aspect / 10.0f,
			time(n.in, tcr), time(n.out, tcr), n.h / 10000.0f, n.h_align, n.v / 10000.0f, n.v_align, n.z / 10000.0f, z, n.direction, i.text,
			i.look.effect, colour(i.look.effect_colour), time(n.up, tcr), time(n.down, tcr), i.space / 10.0f, rubies
			));
	}
	return r;
}

inline string show(vector<Line> const& lines)
{
	string r;
	for (auto const& i: lines) {
		r += "  " + i.key() + "\n";
	}
	return r;
}

/** Compare lines, whatever their order */
inline void compare(vector<Line> const& got, vector<Line> const& want, string what)
{
	vector<string> g, w;
	for (auto const& i: got) {
		g.push_back(i.key());
	}
	for (auto const& i: want) {
		w.push_back(i.key());
	}
	std::sort(g.begin(), g.end());
	std::sort(w.begin(), w.end());
	if (g != w) {
		pbt::fail(what + ": got\n" + show(got) + "expected\n" + show(want));
	}
}

inline Look look(pbt::Src& s, vector<string> const& fonts)
{
	Look k;
	/* Mostly the default, so that there's something in common between different texts */
	if (!fonts.empty() && s.chance(70)) {
		k.font = s.pick(fonts);
	}
	k.italic = s.chance(30);
	k.bold = s.chance(30);
	k.underline = s.chance(20);
	if (s.chance(25)) {
		k.colour = s.pick({0, 0xff0000, 0x00ff00, 0x0000ff, 0x123456, int(s.draw(0xffffff))});
	}
	if (s.chance(25)) {
		k.size = s.pick({1, 41, 43, 100, int(s.draw(300))});
	}
	if (s.chance(25)) {
		k.aspect = s.range(3, 40);
	}
	k.effect = s.pick({dcp::Effect::NONE, dcp::Effect::NONE, dcp::Effect::BORDER, dcp::Effect::SHADOW});
	if (s.chance(20)) {
		k.effect_colour = s.pick({0xffffff, 1, 0xabcdef});
	}
	return k;
}

inline string characters(pbt::Src& s)
{
	string t;
	for (int n = 0; s.more(n, 1, 6, 65); ++n) {
		t += s.chance(15) ? s.pick({" ", "\n", "\t", "  "}) : s.pick(full::xml_pieces());
	}
	return t;
}

struct Limits
{
	bool smpte = true;
	int tcr = 24;
	vector<string> fonts;
	int max_lines = 6;
};

/** Where and when a line is */
inline Line place(pbt::Src& s, Limits const& l, vector<Line> const& others)
{
	Line n;
	if (!others.empty() && s.chance(50)) {
		auto const& o = s.pick(others);
		n.in = o.in;
		if (s.chance(80)) {
			n.out = o.out;
			if (s.chance(80)) {
				n.up = o.up;
				n.down = o.down;
			}
		} else {
			n.out = n.in + 1 + s.draw(10 * l.tcr);
		}
	} else {
		n.in = s.edgy(0, 20 * 3600 * int64_t(l.tcr), {0, 1, l.tcr - 1, l.tcr, 60 * l.tcr, 3600 * l.tcr - 1});
		n.out = n.in + s.edgy(1, 100 * l.tcr, {1, l.tcr, 60 * l.tcr});
		if (s.boolean()) {
			n.up = s.edgy(0, 8 * l.tcr, {0, 1, l.tcr, l.tcr - 1, 8 * l.tcr, 8 * l.tcr - 1});
		}
		if (s.boolean()) {
			n.down = s.edgy(0, 8 * l.tcr, {0, 1, l.tcr, l.tcr - 1, 8 * l.tcr, 8 * l.tcr - 1});
		}
	}
	/* The library takes anything within 0.1% to be in the same place */
	auto position = [](int p) { return p * 15; };
	n.h_align = s.pick({dcp::HAlign::CENTER, dcp::HAlign::LEFT, dcp::HAlign::RIGHT});
	n.v_align = s.pick({dcp::VAlign::BOTTOM, dcp::VAlign::TOP, dcp::VAlign::CENTER});
	n.h = s.chance(60) ? 0 : position(int(s.draw(666)) - (s.chance(20) ? 300 : 0));
	n.v = s.chance(20) ? 0 : position(s.draw(666));
	if (l.smpte) {
		n.z = s.chance(70) ? 0 : position(int(s.draw(1332)) - 666);
		n.direction = s.weighted({75, 25}) == 0 ? dcp::Direction::LTR : s.pick({dcp::Direction::RTL, dcp::Direction::TTB, dcp::Direction::BTT});
	}
	if (s.chance(20)) {
		for (int i = 0; s.more(i, 1, 3, 50); ++i) {
			n.variable_z.push_back({int(s.draw(200)) - 100, s.chance(40) ? 1 : 1 + int(s.draw(100))});
		}
	}
	return n;
}

inline RubyModel ruby(pbt::Src& s)
{
	RubyModel r;
	r.base = full::text(s, 1, 3);
	r.annotation = full::text(s, 1, 3);
	r.size = 1 + s.draw(199);
	r.before = s.boolean();
	r.offset = int(s.draw(200)) - 100;
	r.spacing = int(s.draw(200)) - 100;
	r.aspect = 25 + s.draw(375);
	return r;
}

inline vector<Line> lines(pbt::Src& s, Limits const& l)
{
	vector<Line> r;
	std::set<string> places;
	for (int i = 0; s.more(i, 0, l.max_lines, 80); ++i) {
		auto n = place(s, l, r);
		if (s.chance(20)) {
			n.image = true;
			vector<Line> others;
			for (auto const& i: r) {
				if (i.image) {
					others.push_back(i);
				}
			}
			if (!others.empty() && s.chance(30)) {
				/* The same image, used more than once */
				auto const& other = s.pick(others);
				n.image_id = other.image_id;
				n.image_data = other.image_data;
			} else {
				n.image_id = full::uuid(s);
				auto const d = s.bytes(1, 30);
				n.image_data = string(d.begin(), d.end());
			}
			n.direction = dcp::Direction::LTR;
		} else {
			if (s.chance(15)) {
				for (int j = 0; s.more(j, 1, 2, 50); ++j) {
					n.rubies.push_back(ruby(s));
				}
			}
			auto k = look(s, l.fonts);
			for (int j = 0; s.more(j, 1, 4, 50); ++j) {
				Run run;
				if (j && s.chance(70)) {
					/* Something a bit different */
					auto other = look(s, l.fonts);
					switch (s.draw(4)) {
					case 0: k.italic = !k.italic; break;
					case 1: k.bold = !k.bold; break;
					case 2: k.font = other.font; break;
					case 3: k.colour = other.colour; break;
					case 4: k = other; break;
					}
				}
				run.look = k;
				run.text = characters(s);
				if (s.chance(20)) {
					run.space = int(s.draw(198)) - 99;
				}
				n.runs.push_back(run);
			}
		}
		if (places.insert(n.place()).second) {
			r.push_back(n);
		}
	}
	return r;
}

}

#endif
