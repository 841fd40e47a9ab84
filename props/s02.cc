/* S02: what subtitle files mean */

#include "pbt.h"
#include "textmodel.h"
#include "package.h"
#include "exceptions.h"

using pbt::Src;
using pbt::Register;
using pbt::check;
using pbt::check_eq;
using pbt::fail;
using std::map;
using std::pair;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::filesystem::path;
using boost::optional;
using texts::Line;
using texts::Look;
using texts::RubyModel;
using texts::Run;

static full::Setup setup;

static string escape(string s, bool attribute)
{
	string r;
	for (auto c: s) {
		switch (c) {
		case '&': r += "&amp;"; break;
		case '<': r += "&lt;"; break;
		case '>': r += "&gt;"; break;
		case '"': r += attribute ? "&quot;" : "\""; break;
		default: r += c; break;
		}
	}
	return r;
}

/** The state that elements inherit from those which enclose them, and the means to write a file */
struct Writer
{
	Src& s;
	bool smpte;
	int tcr;          ///< rate of times in the file
	int rate;         ///< rate that we use for times in the model
	string xml;
	vector<Line> want;
	map<string, string> images;
	vector<string> fonts;
	int depth = 0;
	bool deep = false;

	struct State
	{
		Line line;
		Look look;
		map<string, vector<pair<int, int>>> load_variable_z;
		vector<RubyModel> rubies;
	};

	Writer(Src& s_, bool smpte_)
		: s(s_)
		, smpte(smpte_)
	{
		tcr = smpte ? s.pick({24, 25, 30, 48, 60, 100, 250}) : 250;
		rate = tcr * 250;
	}

	void attribute(string name, string value)
	{
		auto const q = s.chance(20) ? '\'' : '"';
		if (value.find('\'') != string::npos) {
			xml += " " + name + "=\"" + escape(value, true) + "\"";
		} else {
			xml += " " + name + "=" + q + escape(value, true) + q;
		}
	}

	/** White space or a comment where it has no meaning */
	void gap()
	{
		switch (s.weighted({50, 35, 8, 7})) {
		case 1: xml += "\n  "; break;
		case 2: xml += "<!-- A comment -->"; break;
		case 3: xml += "<?pi x?>"; break;
		}
	}

	string number(int tenths)
	{
		string n = tenths < 0 ? "-" : "";
		auto const a = std::abs(tenths);
		n += std::to_string(a / 10);
		if (a % 10 || s.boolean()) {
			n += "." + std::to_string(a % 10);
			if (s.chance(20)) {
				n += "00";
			}
		}
		if (s.chance(10)) {
			n = " " + n + " ";
		}
		return n;
	}

	string yes_no(bool b)
	{
		return b ? s.pick({"yes", "1"}) : s.pick({"no", "0"});
	}

	string argb(int c)
	{
		char buffer[16];
		snprintf(buffer, sizeof(buffer), s.boolean() ? "%02X%06X" : "%02x%06x", s.chance(80) ? 255 : int(s.draw(255)), c);
		return buffer;
	}

	/** Attributes of <Font>, in some order */
	void font_attributes(State& state)
	{
		vector<int> which;
		for (int i = 0; i < 9; ++i) {
			if (s.chance(30)) {
				which.insert(which.begin() + s.draw(which.size()), i);
			}
		}
		auto const fresh = texts::look(s, fonts);
		auto& k = state.look;
		for (auto i: which) {
			switch (i) {
			case 0:
				k.font = s.pick({"a", "b", "R&B", "\"q\"", "\xc3\xa9"});
				attribute(smpte ? "ID" : "Id", *k.font);
				break;
			case 1: k.size = s.chance(20) ? 1000000000 : int(s.draw(200)); attribute("Size", std::to_string(k.size)); break;
			case 2: k.aspect = s.range(3, 40); attribute("AspectAdjust", number(k.aspect)); break;
			case 3: k.italic = s.boolean(); attribute("Italic", yes_no(k.italic)); break;
			case 4: k.bold = s.boolean(); attribute("Weight", k.bold ? "bold" : "normal"); break;
			case 5: k.underline = s.boolean(); attribute(smpte ? "Underline" : "Underlined", yes_no(k.underline)); break;
			case 6: k.colour = s.draw(0xffffff); attribute("Color", argb(k.colour)); break;
			case 7:
				k.effect = s.pick({dcp::Effect::NONE, dcp::Effect::BORDER, dcp::Effect::SHADOW});
				attribute("Effect", k.effect == dcp::Effect::NONE ? "none" : (k.effect == dcp::Effect::BORDER ? "border" : "shadow"));
				break;
			case 8: k.effect_colour = s.draw(0xffffff); attribute("EffectColor", argb(k.effect_colour)); break;
			}
		}
		if (s.chance(10)) {
			/* Things that we don't know about */
			attribute(s.pick({"Script", "Spacing", "Unknown"}), "normal");
		}
		(void) fresh;
	}

	void place_attributes(State& state, bool image)
	{
		auto& n = state.line;
		bool const capital = s.boolean();
		auto name = [capital](string x) { return x.substr(0, 1) + (capital ? string(1, x[1]) : string(1, char(tolower(x[1])))) + x.substr(2); };
		vector<int> which;
		for (int i = 0; i < 7; ++i) {
			if (s.chance(40)) {
				which.insert(which.begin() + s.draw(which.size()), i);
			}
		}
		for (auto i: which) {
			switch (i) {
			case 0:
				n.h_align = s.pick({dcp::HAlign::LEFT, dcp::HAlign::CENTER, dcp::HAlign::RIGHT});
				attribute(name("HAlign"), n.h_align == dcp::HAlign::LEFT ? "left" : (n.h_align == dcp::HAlign::CENTER ? "center" : "right"));
				break;
			case 1:
				n.v_align = s.pick({dcp::VAlign::TOP, dcp::VAlign::CENTER, dcp::VAlign::BOTTOM});
				attribute(name("VAlign"), n.v_align == dcp::VAlign::TOP ? "top" : (n.v_align == dcp::VAlign::CENTER ? "center" : "bottom"));
				break;
			case 2:
			{
				auto const p = int(s.draw(1400)) - 200;
				n.h = p * 10;
				attribute(name("HPosition"), number(p));
				break;
			}
			case 3:
			{
				auto const p = int(s.draw(1400)) - 200;
				n.v = p * 10;
				attribute(name("VPosition"), number(p));
				break;
			}
			case 4:
			{
				auto const p = int(s.draw(2000)) - 1000;
				n.z = p * 10;
				attribute("Zposition", number(p));
				break;
			}
			case 5:
				if (!image) {
					n.direction = s.pick({dcp::Direction::LTR, dcp::Direction::RTL, dcp::Direction::TTB, dcp::Direction::BTT});
					switch (n.direction) {
					case dcp::Direction::LTR: attribute("Direction", s.pick({"ltr", "horizontal"})); break;
					case dcp::Direction::RTL: attribute("Direction", "rtl"); break;
					case dcp::Direction::TTB: attribute("Direction", s.pick({"ttb", "vertical"})); break;
					case dcp::Direction::BTT: attribute("Direction", "btt"); break;
					}
				}
				break;
			case 6:
			{
				/* Sometimes one that doesn't exist */
				auto const id = s.pick({"z0", "z1", "z2"});
				attribute("VariableZ", id);
				n.variable_z.clear();
				if (state.load_variable_z.count(id)) {
					n.variable_z = state.load_variable_z[id];
				}
				break;
			}
			}
		}
	}

	void content(State const& state, int& space, bool& pending)
	{
		string text;
		auto const n = texts::characters(s);
		switch (s.weighted({70, 15, 15})) {
		case 0:
			xml += escape(n, false);
			text = n;
			break;
		case 1:
			if (n.find("]]>") == string::npos) {
				xml += "<![CDATA[" + n + "]]>";
				text = n;
			} else {
				xml += escape(n, false);
				text = n;
			}
			break;
		case 2:
		{
			/* A character reference */
			auto const r = s.pick(vector<pair<string, string>>{{"&#65;", "A"}, {"&#xe9;", "\xc3\xa9"}, {"&#x1f600;", "\xf0\x9f\x98\x80"}, {"&apos;", "'"}, {"&quot;", "\""}});
			xml += r.first;
			text = r.second;
			break;
		}
		}
		auto line = state.line;
		line.rubies = state.rubies;
		Run run;
		run.look = state.look;
		run.text = text;
		if (pending) {
			run.space = space;
			space = 0;
			pending = false;
		}
		line.runs.push_back(run);
		want.push_back(line);
	}

	void ruby(RubyModel const& r)
	{
		auto hundredths = [](int x) {
			char buffer[32];
			snprintf(buffer, sizeof(buffer), "%.2f", x / 100.0);
			return string(buffer);
		};
		xml += "<Ruby>";
		gap();
		xml += "<Rb>" + escape(r.base, false) + "</Rb>";
		gap();
		xml += "<Rt";
		if (r.size != 50 || s.boolean()) {
			attribute("Size", hundredths(r.size));
		}
		if (!r.before || s.boolean()) {
			attribute("Position", r.before ? "before" : "after");
		}
		if (r.offset || s.boolean()) {
			attribute("Offset", hundredths(r.offset));
		}
		if (r.spacing || s.boolean()) {
			attribute("Spacing", hundredths(r.spacing));
		}
		if (r.aspect != 100 || s.boolean()) {
			attribute("AspectAdjust", hundredths(r.aspect));
		}
		xml += ">" + escape(r.annotation, false) + "</Rt></Ruby>";
	}

	/** What's inside <Text>, or a <Font> in a <Text> */
	void inside_text(State state, bool text, int space, bool pending)
	{
		if (s.chance(10)) {
			/* Not all in the same place */
			vector<RubyModel> r;
			for (int i = 0; s.more(i, 1, 2, 40); ++i) {
				r.push_back(texts::ruby(s));
				state.rubies.push_back(r.back());
				ruby(r.back());
			}
		}
		for (int n = 0; s.more(n, 1, 4, 60); ++n) {
			switch (s.weighted({60, 20, text ? 15 : 0, 5})) {
			case 0:
				content(state, space, pending);
				break;
			case 1:
				if (depth < 4) {
					++depth;
					deep = true;
					auto inner = state;
					xml += "<Font";
					font_attributes(inner);
					xml += ">";
					/* Any space must be before some text */
					inside_text(inner, false, space, pending);
					space = 0;
					pending = false;
					xml += "</Font>";
					--depth;
				}
				break;
			case 2:
			{
				auto const size = s.chance(20) ? 5 : int(s.draw(50));
				if (size == 5 && s.boolean()) {
					xml += "<Space/>";
				} else {
					char buffer[32];
					snprintf(buffer, sizeof(buffer), "%d.%d", size / 10, size % 10);
					xml += "<Space Size=\"" + string(buffer) + (smpte ? "" : "em") + "\"/>";
				}
				space += size;
				pending = true;
				content(state, space, pending);
				break;
			}
			case 3:
				xml += s.pick({"<!-- not text -->", "<?not text?>"});
				break;
			}
		}
		/* Make sure that there is some */
		if (pending) {
			content(state, space, pending);
		}
	}

	void text(State state)
	{
		xml += "<Text";
		place_attributes(state, false);
		xml += ">";
		inside_text(state, true, 0, false);
		xml += "</Text>";
	}

	void image(State state)
	{
		auto& n = state.line;
		n.image = true;
		xml += "<Image";
		place_attributes(state, true);
		xml += ">";
		if (!images.empty() && s.chance(40)) {
			auto i = images.begin();
			std::advance(i, s.draw(images.size() - 1));
			n.image_id = i->first;
			n.image_data = i->second;
		} else {
			n.image_id = full::uuid(s);
			auto const d = s.bytes(1, 30);
			n.image_data = string(d.begin(), d.end());
			images[n.image_id] = n.image_data;
		}
		xml += smpte ? (s.chance(80) ? "urn:uuid:" : "") + n.image_id : n.image_id + ".png";
		xml += "</Image>";
		want.push_back(n);
	}

	/** What's inside <Subtitle>, or a <Font> in a <Subtitle> */
	void inside_subtitle(State const& state)
	{
		for (int n = 0; s.more(n, 0, 4, 65); ++n) {
			gap();
			switch (s.weighted({60, 20, 20})) {
			case 0: text(state); break;
			case 1: image(state); break;
			case 2:
				if (depth < 4) {
					++depth;
					deep = true;
					auto inner = state;
					xml += "<Font";
					font_attributes(inner);
					xml += ">";
					inside_subtitle(inner);
					xml += "</Font>";
					--depth;
				}
				break;
			}
			gap();
		}
	}

	/** @param u Time in units of the file's time code rate */
	string stamp(int64_t u)
	{
		char buffer[64];
		auto const seconds = u / tcr;
		snprintf(buffer, sizeof(buffer), s.chance(80) ? "%02d:%02d:%02d:%02d" : "%d:%d:%d:%03d", int(seconds / 3600), int((seconds / 60) % 60), int(seconds % 60), int(u % tcr));
		return buffer;
	}

	int64_t fade(string name)
	{
		switch (s.weighted({30, 40, 25, 5})) {
		case 0:
			return 20 * rate / 250;
		case 1:
		{
			auto const u = int64_t(s.edgy(0, 12 * tcr, {0, 1, tcr - 1, tcr, 8 * tcr - 1, 8 * tcr, 8 * tcr + 1}));
			attribute(name, stamp(u));
			return std::min(u, int64_t(8 * tcr)) * rate / tcr;
		}
		case 2:
		{
			auto const u = int64_t(s.edgy(0, 12 * tcr, {0, 1, tcr - 1, tcr, 8 * tcr - 1, 8 * tcr, 8 * tcr + 1}));
			attribute(name, std::to_string(u));
			return std::min(u, int64_t(8 * tcr)) * rate / tcr;
		}
		case 3:
			attribute(name, "");
			return 20 * rate / 250;
		}
		return 0;
	}

	void subtitle(State state)
	{
		xml += "<Subtitle";
		attribute("SpotNumber", "1");
		auto& n = state.line;
		auto const in = int64_t(s.draw(20 * 3600 * tcr));
		auto const out = in + 1 + int64_t(s.draw(20 * tcr));
		attribute("TimeIn", stamp(in));
		attribute("TimeOut", stamp(out));
		n.in = in * rate / tcr;
		n.out = out * rate / tcr;
		n.up = fade("FadeUpTime");
		n.down = fade("FadeDownTime");
		xml += ">";
		for (int i = 0; i < 2; ++i) {
			if (s.chance(20)) {
				auto const id = "z" + std::to_string(i);
				vector<pair<int, int>> z;
				xml += "<LoadVariableZ ID=\"" + id + "\">";
				for (int j = 0; s.more(j, 1, 4, 50); ++j) {
					z.push_back({int(s.draw(200)) - 100, s.boolean() ? 1 : int(1 + s.draw(100))});
					char buffer[32];
					snprintf(buffer, sizeof(buffer), "%s%d.%d", z.back().first < 0 ? "-" : "", std::abs(z.back().first) / 10, std::abs(z.back().first) % 10);
					xml += buffer;
					if (z.back().second != 1 || s.chance(20)) {
						xml += ":" + std::to_string(z.back().second);
					}
					xml += s.pick({" ", "\n", "  ", "\t"});
				}
				xml += "</LoadVariableZ>";
				state.load_variable_z[id] = z;
			}
		}
		inside_subtitle(state);
		xml += "</Subtitle>";
	}

	/** What's at the top level, or in a <Font> at the top level */
	void top(State const& state)
	{
		for (int n = 0; s.more(n, 0, 4, 65); ++n) {
			gap();
			if (depth < 3 && s.chance(35)) {
				++depth;
				auto inner = state;
				xml += "<Font";
				font_attributes(inner);
				xml += ">";
				top(inner);
				xml += "</Font>";
				--depth;
			} else {
				subtitle(state);
			}
			gap();
		}
	}

	void write()
	{
		xml += "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n";
		if (smpte) {
			xml += "<SubtitleReel xmlns=\"" + s.pick({
				string("http://www.smpte-ra.org/schemas/428-7/2014/DCST"),
				string("http://www.smpte-ra.org/schemas/428-7/2010/DCST"),
				string("http://www.smpte-ra.org/schemas/428-7/2007/DCST")
				}) + "\"><Id>urn:uuid:46c3eb45-15e5-47d6-8684-d8641e4dc516</Id><ContentTitleText>x</ContentTitleText><IssueDate>2020-01-01T00:00:00.000-00:00</IssueDate><EditRate>24 1</EditRate>";
			xml += "<TimeCodeRate>" + std::to_string(tcr) + "</TimeCodeRate><SubtitleList>";
			top({});
			xml += "</SubtitleList></SubtitleReel>";
		} else {
			xml += "<DCSubtitle Version=\"1.0\"><SubtitleID>46c3eb45-15e5-47d6-8684-d8641e4dc516</SubtitleID><MovieTitle>x</MovieTitle><ReelNumber>1</ReelNumber><Language>en</Language>";
			top({});
			xml += "</DCSubtitle>";
		}
	}
};

/** Put strings which are on the same line together */
static vector<Line> group(vector<Line> const& in)
{
	vector<Line> out;
	for (auto const& i: in) {
		if (!i.image && !out.empty() && !out.back().image && out.back().place() == i.place()) {
			out.back().runs.push_back(i.runs[0]);
		} else {
			out.push_back(i);
		}
	}
	return out;
}

static vector<Line> read(path file, bool smpte, int rate)
{
	if (smpte) {
		dcp::SMPTETextAsset a(file);
		return texts::read(a.texts(), rate);
	}
	dcp::InteropTextAsset a(file);
	return texts::read(a.texts(), rate);
}

static void meaning(Src& s, bool smpte)
{
	Writer w(s, smpte);
	w.write();
	auto const want = group(w.want);
	s.note("xml", w.xml);
	s.nontrivial_if(w.deep && want.size() > 1);
	path const dir = s.scratch();
	package::put(dir / "text.xml", w.xml);
	for (auto const& i: w.images) {
		package::put(dir / (i.first + ".png"), i.second);
	}
	auto const got = read(dir / "text.xml", smpte, w.rate);
	/* The order is that of the file */
	vector<string> g, e;
	for (auto const& i: got) {
		g.push_back(i.key());
	}
	for (auto const& i: want) {
		e.push_back(i.key());
	}
	if (g != e) {
		fail("got\n" + texts::show(got) + "expected\n" + texts::show(want));
	}
}

static Register smpte("smpte", 15000, 300000, "nested fonts and more than one line", [](Src& s) {
	meaning(s, true);
});

static Register interop("interop", 15000, 300000, "nested fonts and more than one line", [](Src& s) {
	meaning(s, false);
});

static Register refused("refused", 6000, 100000, "all", [](Src& s) {
	/* Damage a file in some way which means it should be refused */
	bool const smpte = s.boolean();
	Writer w(s, smpte);
	w.write();
	auto x = w.xml;
	auto find = [&x, &s](string what) -> size_t {
		vector<size_t> all;
		for (auto p = x.find(what); p != string::npos; p = x.find(what, p + 1)) {
			all.push_back(p);
		}
		if (all.empty()) {
			s.discard();
		}
		return s.pick(all);
	};
	auto replace = [&](string from, string to) {
		auto const p = find(from);
		x.replace(p, from.size(), to);
	};
	string what;
	switch (s.draw(9)) {
	case 0: what = "no time in"; replace(" TimeIn=", " TimeUn="); break;
	case 1: what = "no time out"; replace(" TimeOut=", " TimeUn="); break;
	case 2: what = "unknown element"; replace("</Subtitle>", "<Unknown/></Subtitle>"); break;
	case 3: what = "space outside text"; replace("</Subtitle>", "<Space Size=\"1\"/></Subtitle>"); break;
	case 4:
	{
		what = "bad value";
		/* Something where only certain values make sense */
		string const name = s.pick({" Effect=", " Halign=", " HAlign=", " Valign=", " VAlign=", " Direction=", " Color=", " EffectColor="});
		auto const p = find(name) + name.size();
		auto const end = x.find(x[p], p + 1);
		x.replace(p + 1, end - p - 1, s.pick({"bad", "??", "cent", "none!", ""}));
		break;
	}
	case 5:
	{
		what = "bad time";
		string const name = s.pick({" TimeIn=", " TimeOut="});
		auto const p = find(name) + name.size();
		auto const end = x.find(x[p], p + 1);
		x.replace(p + 1, end - p - 1, s.pick({"", "00:00:00", "00:00:00:00:00", "1", "::::", "000:00:00:00", "00:000:00:00", "00:00:000:00", "00:00:00:0000", "00:00:00:", "00:00::00"}));
		break;
	}
	case 6: what = "missing head"; smpte ? replace("ContentTitleText>", "Title>") : replace("<SubtitleID>", "<SubtitleId>"); break;
	case 7: what = "missing image"; if (w.images.empty()) { s.discard(); } break;
	case 9:
		what = "bad rate";
		if (!smpte) {
			s.discard();
		} else if (s.boolean()) {
			replace("<EditRate>24 1<", "<EditRate>" + s.pick<string>({"24 0", "0 1", "0 0", "0", "-24 1", "24 1 1", "", "a"}) + "<");
		} else {
			replace("<TimeCodeRate>" + std::to_string(w.tcr) + "<", "<TimeCodeRate>" + s.pick<string>({"0", "-1", "", "x"}) + "<");
		}
		break;
	case 8: what = "wrong root"; smpte ? replace("<SubtitleReel ", "<SubtitleRee ") : replace("<DCSubtitle ", "<DCSubtitl "); break;
	}
	s.note("what", what);
	s.note("xml", x);
	s.nontrivial();
	path const dir = s.scratch();
	package::put(dir / "text.xml", x);
	bool left = what != "missing image";
	for (auto const& i: w.images) {
		if (left) {
			package::put(dir / (i.first + ".png"), i.second);
		}
		left = true;
	}
	bool ok = true;
	try {
		read(dir / "text.xml", smpte, w.rate);
	} catch (std::exception&) {
		ok = false;
	}
	check(!ok, "accepted with " + what);
});
