/* V01: what is said about a whole SMPTE DCP when it is verified.
 *
 * The DCP is written out by hand from a description of it, into which faults of known sorts are put,
 * and what should be said is worked out from the same description.
 */

#include "smptedcp.h"
#include <set>

using namespace smptedcp;
using pbt::Src;

static full::Setup setup;

namespace {

string const sound_names[] = { "L", "R", "C", "LFE", "Ls", "Rs" };

string sound_configuration(int channels)
{
	string c = "51/";
	for (int i = 0; i < channels; ++i) {
		c += (i ? "," : "") + sound_names[i];
	}
	return c;
}

TextDoc doc(Src& s, int rate, int frames, bool first_reel)
{
	TextDoc d;
	d.rate = rate;
	d.xml_id = d.resource_id = dcp::make_uuid();
	int at = first_reel ? 4 * rate : 2;
	at += s.skewed(0, 5);
	for (int n = 0; s.more(n, 1, 3, 60); ++n) {
		Sub sub;
		sub.in = at;
		sub.out = at + 15 + s.skewed(0, 20);
		if (sub.out > frames) {
			if (n) {
				break;
			}
			sub.out = at + 15;
		}
		at = sub.out + 2 + s.skewed(0, 5);
		bool const bottom = s.boolean();
		int const lines = s.range(1, 3);
		for (int i = 0; i < lines; ++i) {
			Line l;
			l.valign = bottom ? "bottom" : "top";
			l.vpos = bottom ? 40 - i * 10 : 10 + i * 10;
			l.text = string(s.edgy(1, 32, {}), 'a' + i);
			sub.lines.push_back(l);
		}
		d.subs.push_back(sub);
	}
	return d;
}

/** Make something which has nothing wrong with it */
Dcp good(Src& s)
{
	Dcp d;
	Kumu::shim_seed(s.draw(0xffffffff));
	d.root = path(s.scratch()) / "dcp";
	d.map_id = dcp::make_uuid();
	int const encrypted = s.pick<int>({ 0, 0, 0, 50, 100 });
	d.give_keys = encrypted && s.chance(60);

	int names = 0;
	bool encrypted_text = false;
	auto add = [&](Asset a) {
		a.name = "asset" + num(++names) + ".mxf";
		if (a.kind == TEXT ? encrypted_text : s.chance(encrypted)) {
			a.key = dcp::Key();
			a.key_id = dcp::make_uuid();
		}
		d.assets.push_back(a);
		return d.assets.size() - 1;
	};

	int const n = s.weighted({ 70, 20, 10 }) + 1;
	for (int i = 0; i < n; ++i) {
		Cpl c;
		encrypted_text = s.chance(encrypted);
		c.id = dcp::make_uuid();
		c.metadata_id = dcp::make_uuid();
		c.name = "cpl" + num(i) + ".xml";
		c.title = full::text(s, 1, 3);
		c.annotation = c.title;
		c.kind = s.pick<string>({ "trailer", "feature", "Feature", "psa", "SHORT", "test", "policy", "Rating" });
		if (s.chance(20)) {
			c.kind_scope = "http://www.smpte-ra.org/schemas/429-7/2006/CPL#standard-content";
		}
		static vector<dcp::Size> const sizes = { {1998, 1080}, {2048, 858}, {3996, 2160}, {4096, 1716} };
		auto const size = sizes[s.weighted({ 40, 40, 10, 10 })];
		bool const fourk = size.width > 2048;
		c.rate = fourk ? 24 : s.pick({ 24, 24, 24, 25, 48 });
		bool const stereo = !fourk && s.chance(20);
		c.stored_width = size.width;
		c.stored_height = size.height;
		c.active_width = size.width - 2 * s.skewed(0, 20);
		c.active_height = size.height - 2 * s.skewed(0, 20);
		if (s.chance(30)) {
			c.territory = s.pick<string>({ "001", "US", "GB", "DE", "419" });
			if (s.chance(20)) {
				c.territory_scope = "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49";
			}
		}
		c.extension_value = s.boolean() ? "SMPTE-RDD-52:2020-Bv2.1" : "SMPTE-RDD-52:2020-Bv2.0";
		while (c.version_labels.size() < 3 && s.chance(30)) {
			c.version_labels.push_back("label " + num(c.version_labels.size()));
		}
		bool const sound = s.chance(80);
		int const channels = s.range(1, 6);
		c.sound_configuration = sound_configuration(channels);
		bool const subtitles = s.chance(50);
		string const language = s.pick<string>({ "de-DE", "en", "fr-CA" });
		int const captions = s.weighted({ 60, 30, 10 });
		if (subtitles) {
			c.languages.push_back(language);
		}
		while (c.languages.size() < 3 && s.chance(20)) {
			c.languages.push_back(s.pick<string>({ "it", "pt-BR", "zh" }));
		}

		int const reels = s.weighted({ 50, 35, 15 }) + 1;
		for (int j = 0; j < reels; ++j) {
			Reel r;
			r.id = dcp::make_uuid();
			r.markers_id = dcp::make_uuid();
			int const frames = j == 0 && (subtitles || captions) ? 5 * c.rate + s.skewed(0, 30) : c.rate + s.skewed(0, 20);
			auto entry = [&](Asset a) {
				a.rate = c.rate;
				a.frames = frames;
				Entry e;
				e.frame_rate = dcp::Fraction(c.rate, 1);
				e.intrinsic = frames;
				e.duration = frames;
				if (a.kind != TEXT) {
					/* Use only some of it */
					int const in = s.skewed(0, 3);
					int const out = s.skewed(0, 3);
					a.frames = e.intrinsic = frames + in + out;
					e.entry = in;
					if (!in && s.chance(30)) {
						e.entry = boost::none;
					}
					if (!out && s.chance(30)) {
						e.duration = boost::none;
					}
				}
				e.asset = add(a);
				return e;
			};
			Asset picture;
			picture.kind = stereo ? STEREO : MONO;
			picture.width = size.width;
			picture.height = size.height;
			r.picture = entry(picture);
			if (sound) {
				Asset a;
				a.kind = SOUND;
				a.channels = channels;
				r.sound = entry(a);
			}
			auto text = [&]() {
				Asset a;
				a.kind = TEXT;
				a.doc = doc(s, c.rate, frames, j == 0);
				a.doc.language = language;
				auto e = entry(a);
				e.language = language;
				return e;
			};
			if (subtitles) {
				r.subtitle = text();
			}
			for (int k = 0; k < captions; ++k) {
				r.captions.push_back(text());
			}
			auto marker = [&](string name, int where) {
				r.markers = true;
				r.marker_list.push_back({ name, where });
			};
			if (j == 0) {
				marker("FFOC", 1);
			}
			if (j == 0 || s.boolean()) {
				marker("FFEC", frames / 2);
				marker("FFMC", frames / 3);
			}
			if (j == reels - 1) {
				marker("LFOC", frames - 1);
			}
			c.reels.push_back(r);
		}
		c.sign = s.chance(50);
		for (auto const& r: c.reels) {
			for (auto const& e: r.entries()) {
				c.sign = c.sign || d.assets[e.asset].key;
			}
		}
		d.cpls.push_back(c);
	}

	/* Sometimes use something twice */
	if (d.cpls.size() > 1 && s.chance(30)) {
		auto& a = d.cpls[0];
		auto& b = d.cpls[1];
		if (a.rate == b.rate && a.stored_width == b.stored_width && a.reels.size() == b.reels.size() && a.reels.size() == 1) {
			b.reels[0].picture = a.reels[0].picture;
			auto const frames = b.reels[0].picture->actual();
			b.reels[0].sound = boost::none;
			b.reels[0].subtitle = boost::none;
			b.reels[0].captions.clear();
			for (auto& m: b.reels[0].marker_list) {
				if (m.first == "LFOC") {
					m.second = frames - 1;
				}
			}
			b.sign = b.sign || d.assets[b.reels[0].picture->asset].key;
			s.label("shared picture");
		}
	}

	for (size_t i = 0; i < d.cpls.size(); ++i) {
		if (d.pkls.empty() || s.boolean()) {
			d.pkls.push_back(Pkl());
			d.pkls.back().id = dcp::make_uuid();
			d.pkls.back().name = "pkl" + num(i) + ".xml";
			d.pkls.back().sign = encrypted || s.chance(20);
		}
		d.pkls.back().cpls.push_back(i);
	}
	for (auto& i: d.pkls) {
		i.annotation = i.cpls.size() == 1 ? d.cpls[i.cpls[0]].title : "whatever";
	}
	return d;
}

bool even(Cpl const& c)
{
	for (auto const& r: c.reels) {
		if (bool(r.subtitle) != bool(c.reels[0].subtitle) || r.captions.size() != c.reels[0].captions.size()) {
			return false;
		}
	}
	return true;
}

/** Put something wrong into a DCP.
 *  @return description of it, or an empty string if it could not be done.
 */
string fault(Src& s, Dcp& d)
{
	auto& c = d.cpls[s.draw(d.cpls.size() - 1)];
	auto& r = c.reels[s.draw(c.reels.size() - 1)];
	auto& p = d.pkls[s.draw(d.pkls.size() - 1)];
	auto& picture = d.assets[r.picture->asset];
	bool shared = false;
	for (auto const& i: d.cpls) {
		for (auto const& j: i.reels) {
			shared = shared || (&j != &r && j.picture->asset == r.picture->asset);
		}
	}
	/* Find some text */
	vector<Entry*> texts;
	if (r.subtitle) {
		texts.push_back(&*r.subtitle);
	}
	for (auto& i: r.captions) {
		texts.push_back(&i);
	}
	Entry* text = texts.empty() ? nullptr : texts[s.draw(texts.size() - 1)];
	TextDoc* td = text ? &d.assets[text->asset].doc : nullptr;
	Sub* sub = td && !td->subs.empty() ? &td->subs[s.draw(td->subs.size() - 1)] : nullptr;
	vector<Entry*> all = texts;
	all.push_back(&*r.picture);
	if (r.sound) {
		all.push_back(&*r.sound);
	}
	Entry* any = all[s.draw(all.size() - 1)];

	switch (s.draw(59)) {
	case 0:
		c.annotation = boost::none;
		return "no annotation text";
	case 1:
		c.annotation = c.title + "x";
		return "different annotation text";
	case 2:
		c.kind = s.pick<string>({ "frobozz", "trailers", "", "Clip", "event"});
		return c.kind.empty() ? "empty content kind" : "unknown content kind";
	case 3:
		c.kind = "anything";
		c.kind_scope = "http://example.com/kinds";
		return "content kind of another scope";
	case 4:
		c.territory = s.pick<string>({ "XQ", "840", "zzz" });
		c.territory_scope = s.boolean() ? optional<string>() : string("http://example.com/");
		return "unknown territory";
	case 5:
		c.territory = "whatever";
		c.territory_scope = "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49";
		return "UNM49 territory";
	case 6:
		c.version_labels.clear();
		return "no content version";
	case 7:
		if (c.version_labels.empty()) {
			return "";
		}
		c.version_labels[s.draw(c.version_labels.size() - 1)] = "";
		return "empty content version label";
	case 8:
		p.annotation = s.boolean() ? optional<string>() : string("something else");
		return "different PKL annotation text";
	case 9:
		(s.boolean() ? c.active_width : c.active_height)--;
		return "odd active area";
	case 10:
		if (s.boolean()) {
			c.active_width = c.stored_width + 2;
		} else {
			c.active_height = c.stored_height + 2 * s.range(0, 2);
		}
		return "big active area";
	case 11:
		c.sound_configuration = sound_configuration(s.range(1, 6));
		return "another sound configuration";
	case 12:
		c.sound_configuration = "51/L,XX";
		return "bad sound configuration";
	case 13: {
		auto& m = r.marker_list;
		if (m.empty()) {
			return "";
		}
		auto const i = s.draw(m.size() - 1);
		if (s.boolean()) {
			m.erase(m.begin() + i);
			r.markers = !m.empty();
			return "missing marker";
		}
		m[i].second = s.edgy(0, r.duration() - 1, { 0, 1, 2, r.duration() - 2, r.duration() - 1 });
		return "marker somewhere else";
	}
	case 14:
		c.version_number = boost::none;
		return "no version number";
	case 15:
		c.metadata = false;
		return "no metadata";
	case 16:
		c.extension = false;
		return "no extension metadata";
	case 17:
		c.extension_scope = "http://isdcf.com/ns/cplmd/apps";
		return "extension metadata of another scope";
	case 18:
		s.pick<string*>({ &c.extension_name, &c.extension_property, &c.extension_value })->append("x");
		return "wrong extension metadata";
	case 19:
		c.languages.push_back("frobozz");
		return "bad language in list";
	case 20:
		c.sign = false;
		return "CPL not signed";
	case 21:
		p.sign = false;
		return "PKL not signed";
	case 22:
		r.picture->frame_rate = s.pick<dcp::Fraction>({ dcp::Fraction(23, 1), dcp::Fraction(24000, 1001), dcp::Fraction(120, 1), dcp::Fraction(24, 2), dcp::Fraction(60, 1), dcp::Fraction(96, 1), dcp::Fraction(30, 1) });
		return "another picture frame rate in CPL";
	case 23: {
		auto const size = s.pick<dcp::Size>({ dcp::Size(1920, 1080), dcp::Size(2048, 1080), dcp::Size(4096, 2160), dcp::Size(1998, 1082), dcp::Size(2048, 856) });
		picture.width = size.width;
		picture.height = size.height;
		return "another picture size";
	}
	case 24:
		if (c.reels.size() > 1 || !texts.empty() || shared || r.sound) {
			return "";
		}
		c.rate = s.pick({ 30, 50, 60, 24, 25, 48 });
		picture.rate = c.rate;
		r.picture->frame_rate = dcp::Fraction(c.rate, 1);
		return "another frame rate";
	case 25:
		any->intrinsic = any->entry.get_value_or(0) + any->actual() + (s.boolean() ? 1 : 10);
		any->duration = any->intrinsic - any->entry.get_value_or(0);
		return "an asset longer than the others";
	case 26:
		any->duration = s.edgy(1, any->actual(), { c.rate - 1, c.rate });
		return "short duration";
	case 27:
		for (auto i: all) {
			i->duration = c.rate - 1;
		}
		for (auto& m: r.marker_list) {
			if (m.first == "LFOC") {
				m.second = c.rate - 2;
			}
		}
		return "short reel";
	case 28:
		any->hash = false;
		return "no hash in CPL";
	case 29:
	case 30: {
		/* A frame of around the biggest size that is allowed */
		auto const per_second = s.boolean() ? 250000000 : 230000000;
		auto size = per_second / (8 * picture.rate) + s.irange(-2, 2);
		if (per_second % (8 * picture.rate) && size == per_second / (8 * picture.rate) + 1) {
			/* This is over the limit by less than a byte, so it depends on rounding */
			++size;
		}
		if (!d.key_known(picture)) {
			/* Encryption makes it a bit bigger */
			size += s.boolean() ? 1000 : -1000;
		}
		picture.sizes[s.draw(picture.frames - 1)] = size;
		return "big frame";
	}
	case 31:
		if (s.boolean()) {
			picture.wrong_rsiz.insert(s.draw(picture.frames - 1));
		} else {
			for (int i = 0; i < picture.frames; ++i) {
				picture.wrong_rsiz.insert(i);
			}
		}
		return "wrong capabilities in codestream";
	case 32:
		if (!r.sound) {
			return "";
		}
		d.assets[r.sound->asset].sampling_rate = s.boolean() ? 96000 : 48048;
		return "sampling rate";
	case 33:
		if (!r.sound) {
			return "";
		}
		d.assets[r.sound->asset].channels = s.range(1, 8);
		return "channel count";
	case 34:
		if (!td) {
			return "";
		}
		td->language = boost::none;
		return "no text language";
	case 35:
		if (!td) {
			return "";
		}
		td->language = string("frobozz");
		return "bad text language";
	case 36:
		if (!td) {
			return "";
		}
		td->language = string("en-GB");
		return "another text language";
	case 37:
		if (!text) {
			return "";
		}
		text->language = s.boolean() ? optional<string>() : string("frobozz");
		return "language in CPL";
	case 38:
		if (!td || !even(c)) {
			return "";
		}
		td->start_time = s.boolean() ? optional<string>() : string("00:00:01:00");
		return "start time";
	case 39:
		if (!text) {
			return "";
		}
		if (s.boolean()) {
			text->entry = boost::none;
		} else {
			text->entry = s.range(1, 3);
		}
		return "entry point";
	case 40:
		if (!text) {
			return "";
		}
		d.assets[text->asset].frames += s.boolean() ? 1 : -1;
		return "text duration";
	case 41:
		if (!sub || !even(c)) {
			return "";
		}
		sub->in = s.range(0, td->rate * 4);
		sub->out = std::max(sub->out, sub->in + 20);
		return "early text";
	case 42:
		if (!sub || !even(c)) {
			return "";
		}
		sub->out = std::max(0, sub->in + int(s.irange(-2, 16)));
		return "short text";
	case 43: {
		if (!td || td->subs.size() < 2 || !even(c)) {
			return "";
		}
		auto const i = s.draw(td->subs.size() - 2);
		auto const length = td->subs[i + 1].out - td->subs[i + 1].in;
		td->subs[i + 1].in = td->subs[i].out + s.irange(-1, 3);
		td->subs[i + 1].out = td->subs[i + 1].in + length;
		return "close texts";
	}
	case 44:
		if (!td || !even(c)) {
			return "";
		}
		td->subs.push_back(Sub());
		td->subs.back().out = d.assets[text->asset].frames + s.irange(-1, 2);
		td->subs.back().in = td->subs.back().out - 16;
		td->subs.back().lines.push_back(Line());
		return "text across end of reel";
	case 45:
		if (!sub || !even(c)) {
			return "";
		}
		sub->lines[s.draw(sub->lines.size() - 1)].text = "";
		return "empty text";
	case 46:
		if (!sub) {
			return "";
		}
		sub->lines[s.draw(sub->lines.size() - 1)].text = string(s.edgy(30, 90, { 32, 33, 52, 53, 79, 80 }), 'x');
		return "long text";
	case 47:
		if (!sub) {
			return "";
		}
		while (sub->lines.size() < 4) {
			auto l = sub->lines.back();
			l.vpos += l.valign == "top" ? 10 : -10;
			sub->lines.push_back(l);
		}
		return "many lines";
	case 48:
		if (!sub || sub->lines.size() < 2) {
			return "";
		}
		if (s.boolean()) {
			sub->lines[s.draw(sub->lines.size() - 1)].valign = "center";
			return "differing alignment";
		}
		std::swap(sub->lines[0], sub->lines[1]);
		return "lines out of order";
	case 49:
		if (!td || !even(c)) {
			return "";
		}
		td->load_fonts.clear();
		return "no fonts";
	case 50:
		if (!td || !even(c)) {
			return "";
		}
		td->font = string("bfont");
		return "unknown font";
	case 51:
		if (!td) {
			return "";
		}
		td->resource_id = s.boolean() ? dcp::make_uuid() : string("asset");
		return "resource ID";
	case 52:
		if (!td) {
			return "";
		}
		td->issue_date = s.pick<string>({ "2024-03-04T05:06:07.000+00:00", "2024-03-04T05:06:07+00:00", "2024-03-04T05:06:07.000" });
		return "issue date";
	case 53:
		if (!td) {
			return "";
		}
		td->extra_namespace = true;
		return "extra namespace";
	case 54:
		if (!td) {
			return "";
		}
		td->padding = 0;
		td->padding = 256 * 1024 - td->xml().size() + s.irange(-12, 2);
		return "around biggest text";
	case 55:
		if (c.reels.size() < 2) {
			return "";
		}
		if (s.boolean()) {
			if (!r.subtitle) {
				return "";
			}
			r.subtitle = boost::none;
			return "no subtitle in a reel";
		}
		if (r.captions.empty()) {
			return "";
		}
		r.captions.pop_back();
		return "fewer captions in a reel";
	case 56:
		if (!r.markers) {
			return "";
		}
		if (s.boolean()) {
			r.markers_entry = s.range(0, 1);
			return "entry point for markers";
		}
		r.markers_duration = r.duration();
		return "duration for markers";
	case 57:
		p.duplicate = true;
		return "duplicate ID in PKL";
	case 58:
		d.map_duplicate = true;
		return "duplicate ID in asset map";
	case 59:
		if (!r.sound) {
			return "";
		}
		r.sound = boost::none;
		return "no sound in a reel";
	}
	return "";
}

#define FIELDS(X) \
	X(asset_id) X(asset_map_id) X(component) X(cpl_id) X(file) X(frame) X(pkl_id) X(reel_index) X(annotation_text) X(bit_depth) \
	X(calculated_hash) X(capabilities) X(content_kind) X(content_version) X(duration) X(frame_rate) X(issue_date) X(language) X(load_font_id) \
	X(other_duration) X(reference_hash) X(size_in_bytes) X(size_in_pixels) X(territory)

string say(dcp::Fraction f) { return num(f.numerator) + "/" + num(f.denominator); }
string say(dcp::Size f) { return num(f.width) + "x" + num(f.height); }
template <class T> string say(T const& t)
{
	std::ostringstream o;
	o << t;
	return o.str();
}

string code_name(VerificationNote const& n)
{
	std::ostringstream o;
	o << n;
	return o.str();
}

string describe(VerificationNote const& n)
{
	string d = "code " + num(static_cast<int>(n.code()));
#define SAY(f) if (n.f()) { d += string(" ") + #f + "=" + say(*n.f()); }
	FIELDS(SAY)
	if (n.error()) {
		d += " error=" + *n.error();
	}
	return d;
}

/** @return true if b says everything that a does */
bool covers(VerificationNote const& a, VerificationNote const& b)
{
	if (a.code() != b.code()) {
		return false;
	}
	if (a.code() == Code::INVALID_XML) {
		return !a.file() || !b.file() || a.file()->filename() == b.file()->filename();
	}
#define MATCH(f) if (a.f() && !(b.f() && *a.f() == *b.f())) { return false; }
	FIELDS(MATCH)
	return true;
}

void compare(Dcp const& d, vector<VerificationNote> got, set<Code> may = {})
{
	auto want = d.expected();
	bool missed = false;
	for (auto const& c: d.cpls) {
		for (auto const& r: c.reels) {
			for (auto const& e: r.entries()) {
				auto const& a = d.assets[e.asset];
				missed = missed || (a.kind == TEXT && a.resolved() && !d.key_known(a));
			}
		}
	}
	bool said_missed = false;
	vector<bool> used(got.size());
	for (auto const& w: want) {
		bool found = false;
		for (size_t i = 0; i < got.size() && !found; ++i) {
			if ((!used[i] || w.code() == Code::INVALID_XML) && covers(w, got[i])) {
				used[i] = true;
				found = true;
			}
		}
		if (!found && w.code() == Code::MISSING_LOAD_FONT_FOR_FONT) {
			/* This is not noticed, a known finding */
			continue;
		}
		if (!found) {
			string m = "nothing was said about " + describe(w) + "; instead there was:";
			for (auto const& g: got) {
				if (g.code() == w.code() || g.code() == Code::FAILED_READ) {
					m += "\n" + describe(g);
				}
			}
			pbt::fail(m);
		}
	}
	for (size_t i = 0; i < got.size(); ++i) {
		auto const code = got[i].code();
		if (code == Code::MISSED_CHECK_OF_ENCRYPTED) {
			said_missed = true;
		} else if (!used[i] && code != Code::MATCHING_CPL_HASHES && code != Code::MATCHING_PKL_ANNOTATION_TEXT_WITH_CPL && !may.count(code)) {
			bool xml = false;
			if (code == Code::INVALID_XML) {
				for (auto const& w: want) {
					xml = xml || covers(w, got[i]);
				}
			}
			if (!xml) {
				pbt::fail("there was an unexpected complaint: " + describe(got[i]));
			}
		}
	}
	pbt::check_eq(said_missed, missed, "whether something could not be checked", "");
}

vector<VerificationNote> verify(Dcp const& d)
{
	return dcp::verify({ d.root }, d.kdms(), [](string, optional<path>) {}, [](float) {}, d.options).notes;
}

string shape(Dcp const& d)
{
	string x;
	for (auto const& c: d.cpls) {
		x += "[" + num(c.rate) + "fps " + num(c.stored_width);
		for (auto const& r: c.reels) {
			x += " (";
			for (auto const& e: r.entries()) {
				auto const& a = d.assets[e.asset];
				x += string(1, "MSst"[a.kind == MONO ? 0 : a.kind == STEREO ? 1 : a.kind == SOUND ? 2 : 3]) + (a.key ? "*" : "") + num(e.actual());
			}
			x += ")";
		}
		x += "]";
	}
	return x + num(d.pkls.size()) + "pkl";
}

pbt::Register rules("rules", 1500, 15000, "at least one fault was put in", [](Src& s) {
	auto d = good(s);
	string faults;
	int n = s.weighted({ 10, 50, 25, 15 });
	set<Code> may;
	for (int i = 0; i < n; ++i) {
		auto const f = fault(s, d);
		if (!f.empty()) {
			faults += f + "; ";
			s.label(f);
		}
	}
	s.note("dcp", shape(d));
	s.note("faults", faults);
	s.nontrivial_if(!faults.empty());
	d.write();
	compare(d, verify(d), may);
});


/** Mark every use of an asset */
void each_use(Dcp& d, size_t asset, std::function<void (Entry&)> f)
{
	for (auto& c: d.cpls) {
		for (auto& r: c.reels) {
			for (auto i: { &r.picture, &r.sound, &r.subtitle }) {
				if (*i && (*i)->asset == asset) {
					f(**i);
				}
			}
			for (auto& i: r.captions) {
				if (i.asset == asset) {
					f(i);
				}
			}
		}
	}
}

pbt::Register integrity("integrity", 300, 6000, "something was altered, missing or elsewhere", [](Src& s) {
	auto d = good(s);
	string what;
	for (int n = 0; s.more(n, 0, 3, 70); ++n) {
		auto const i = s.draw(d.assets.size() - 1);
		auto& a = d.assets[i];
		switch (s.draw(4)) {
		case 0:
			a.altered = true;
			what += "altered " + num(a.kind) + "; ";
			s.label("altered");
			break;
		case 1:
			a.missing = true;
			what += "missing " + num(a.kind) + "; ";
			s.label("missing");
			break;
		case 2:
			a.external = true;
			what += "elsewhere " + num(a.kind) + "; ";
			s.label("elsewhere");
			break;
		case 3:
			each_use(d, i, [](Entry& e) { e.wrong_hash = true; });
			what += "different hash " + num(a.kind) + "; ";
			s.label("different hash");
			break;
		case 4:
			d.cpls[s.draw(d.cpls.size() - 1)].altered = true;
			what += "altered CPL; ";
			s.label("altered CPL");
			break;
		}
	}
	for (auto& a: d.assets) {
		if (a.missing) {
			a.external = false;
		}
	}
	d.options.check_asset_hashes = s.chance(80);
	d.options.check_picture_details = s.chance(80);
	d.write();
	if (s.chance(30)) {
		auto const& a = d.assets[s.draw(d.assets.size() - 1)];
		auto maximum = a.size + s.irange(-1, 1);
		/* Whether an asset of exactly the maximum size is checked isn't certain */
		while (std::any_of(d.assets.begin(), d.assets.end(), [&](Asset const& b) { return int64_t(b.size) == int64_t(maximum); })) {
			++maximum;
		}
		d.options.maximum_asset_size_for_hash_check = maximum;
		s.label("maximum size");
	}
	s.note("dcp", shape(d));
	s.note("what", what);
	s.nontrivial_if(!what.empty());
	compare(d, verify(d));
});

pbt::Register schemas("schemas", 300, 6000, "some XML was made to disagree with its schema", [](Src& s) {
	auto d = good(s);
	string what;
	for (int n = 0; s.more(n, 0, 2, 70); ++n) {
		auto const how = s.range(1, 4);
		switch (s.draw(3)) {
		case 0:
			/* CPLs with unknown tags are not read at all */
			d.cpls[s.draw(d.cpls.size() - 1)].broken = std::max<int>(2, how);
			what += "CPL ";
			s.label("CPL");
			break;
		case 1:
			d.pkls[s.draw(d.pkls.size() - 1)].broken = how;
			what += "PKL ";
			s.label("PKL");
			break;
		case 2:
			d.map_broken = how;
			what += "asset map ";
			s.label("asset map");
			break;
		case 3: {
			vector<Asset*> texts;
			for (auto& a: d.assets) {
				if (a.kind == TEXT) {
					texts.push_back(&a);
				}
			}
			if (!texts.empty()) {
				texts[s.draw(texts.size() - 1)]->doc.broken = std::min<int>(3, how);
				what += "text ";
				s.label("text");
			}
			break;
		}
		}
		what += num(how) + "; ";
	}
	s.note("dcp", shape(d));
	s.note("broken", what);
	s.nontrivial_if(!what.empty());
	d.write();
	compare(d, verify(d));
});

}
