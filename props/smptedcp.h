/* A description of a SMPTE DCP, how to write it, and what should be said about it by somebody
 * who knows the rules (those of Bv2.1 and some others).
 */

#ifndef VERIF_SMPTEDCP_H
#define VERIF_SMPTEDCP_H

#include "package.h"
#include "codestream.h"
#include "xmltext.h"
#include "decrypted_kdm.h"
#include "verify.h"
#include <asdcp/AS_DCP.h>
#include <libxml++/libxml++.h>

namespace smptedcp {

using std::map;
using std::set;
using std::string;
using std::vector;
using std::shared_ptr;
using std::make_shared;
using boost::optional;
using boost::filesystem::path;
using dcp::VerificationNote;
typedef dcp::VerificationNote::Code Code;

/** Make some XML not agree with its schema, without making it into something that can't be read */
inline string break_xml(string x, int how)
{
	auto replace = [&x](string from, string to) {
		auto const p = x.find(from);
		pbt::check(p != string::npos, "could not break XML");
		x.replace(p, from.size(), to);
	};
	switch (how) {
	case 1:
		replace("<IssueDate>", "<Wrong>1</Wrong>\n<IssueDate>");
		break;
	case 2:
		replace(" xmlns=", " wrong=\"1\" xmlns=");
		break;
	case 3: {
		/* Put the ID second */
		auto const p = x.find("<Id>");
		auto const q = x.find("</Id>\n", p) + 6;
		auto const id = x.substr(p, q - p);
		x.erase(p, q - p);
		x.insert(x.find("<IssueDate>"), id);
		break;
	}
	case 4:
		replace("<IssueDate>2012", "<IssueDate>2O12");
		break;
	}
	return x;
}

inline string num(int64_t n)
{
	return std::to_string(n);
}

struct Line
{
	string text = "Hello";
	int vpos = 10;
	string valign = "top";
};

struct Sub
{
	int in = 0;
	int out = 0;
	vector<Line> lines;
};

/** The XML part of a timed text asset */
struct TextDoc
{
	string xml_id;
	string resource_id;
	optional<string> language = string("de-DE");
	optional<string> start_time = string("00:00:00:00");
	string issue_date = "2024-03-04T05:06:07";
	int rate = 24;
	vector<string> load_fonts = { "afont" };
	optional<string> font = string("afont");
	bool extra_namespace = false;
	vector<Sub> subs;
	size_t padding = 0;
	int broken = 0; ///< non-zero to make it not agree with its schema

	string time(int frames) const
	{
		char b[64];
		snprintf(b, sizeof(b), "%02d:%02d:%02d:%02d", frames / (rate * 3600), (frames / (rate * 60)) % 60, (frames / rate) % 60, frames % rate);
		return b;
	}

	string xml() const
	{
		using model::tag;
		string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<SubtitleReel xmlns=\"http://www.smpte-ra.org/schemas/428-7/2014/DCST\"";
		if (extra_namespace) {
			x += " xmlns:xs=\"http://www.w3.org/2001/XMLSchema\"";
		}
		x += ">\n" + tag("Id", "urn:uuid:" + xml_id) + tag("ContentTitleText", "A title");
		if (padding) {
			x += "<!--" + string(padding, 'x') + "-->\n";
		}
		x += tag("IssueDate", issue_date) + tag("ReelNumber", "1");
		if (language) {
			x += tag("Language", *language);
		}
		x += tag("EditRate", num(rate) + " 1") + tag("TimeCodeRate", num(rate));
		if (start_time) {
			x += tag("StartTime", *start_time);
		}
		for (auto const& i: load_fonts) {
			x += tag("LoadFont ID=\"" + i + "\"", "urn:uuid:" + font_id());
		}
		x += "<SubtitleList>\n<Font " + (font ? "ID=\"" + *font + "\" " : string()) + "Color=\"FFFFFFFF\" Size=\"42\">\n";
		int n = 1;
		for (auto const& i: subs) {
			x += "<Subtitle SpotNumber=\"" + num(n++) + "\" TimeIn=\"" + time(i.in) + "\" TimeOut=\"" + time(i.out) + "\" FadeUpTime=\"00:00:00:00\" FadeDownTime=\"00:00:00:00\">\n";
			for (auto const& j: i.lines) {
				x += tag("Text Valign=\"" + j.valign + "\" Vposition=\"" + num(j.vpos) + "\"", j.text);
			}
			x += "</Subtitle>\n";
		}
		return break_xml(x + "</Font>\n</SubtitleList>\n</SubtitleReel>\n", broken);
	}

	static string font_id()
	{
		return "3dec6dc0-39d0-498d-97d0-928d2eb78391";
	}
};

enum Kind { MONO, STEREO, SOUND, TEXT };

/** An MXF */
struct Asset
{
	Kind kind;
	string id;
	string name; ///< within the DCP
	int rate = 24;
	int frames = 24;
	optional<dcp::Key> key;
	string key_id;

	int width = 1998, height = 1080;
	map<int, int> sizes;      ///< frame to size in bytes, for frames which should be some particular size
	set<int> wrong_rsiz;      ///< frames which have this particular thing wrong with them

	int channels = 2;
	int sampling_rate = 48000;

	TextDoc doc;

	bool missing = false;     ///< true if the file isn't there
	bool external = false;    ///< true if it's not supposed to be there
	bool altered = false;     ///< true to change it after taking the hash

	string hash;              ///< as it was, before any alteration
	string hash_now;
	int64_t size = 0;

	bool resolved() const { return !missing && !external; }
	bool picture() const { return kind == MONO || kind == STEREO; }
	bool fourk() const { return width > 2048; }
};

/** An entry for an asset in a reel */
struct Entry
{
	size_t asset = 0;
	int64_t intrinsic = 24;
	optional<int64_t> entry = int64_t(0);
	optional<int64_t> duration = int64_t(24);
	bool hash = true;
	bool wrong_hash = false;  ///< true to have a different hash to the one in the PKL
	optional<string> language;
	dcp::Fraction frame_rate = dcp::Fraction(24, 1);

	int64_t actual() const { return duration ? *duration : intrinsic - entry.get_value_or(0); }
};

struct Reel
{
	string id;
	optional<Entry> picture, sound, subtitle;
	vector<Entry> captions;
	bool markers = false;
	string markers_id;
	vector<std::pair<string, int>> marker_list;
	optional<int64_t> markers_entry, markers_duration;

	/** In the order that they appear */
	vector<Entry> entries() const
	{
		vector<Entry> e;
		for (auto i: { &picture, &sound, &subtitle }) {
			if (*i) {
				e.push_back(**i);
			}
		}
		e.insert(e.end(), captions.begin(), captions.end());
		return e;
	}

	int64_t duration() const
	{
		return picture->actual();
	}
};

struct Cpl
{
	string id;
	string name;
	string title;
	optional<string> annotation;
	string kind = "trailer";
	optional<string> kind_scope;
	vector<string> version_labels = { "label" };
	int rate = 24;
	bool metadata = true;
	string metadata_id;
	optional<int> version_number = 1;
	optional<string> territory;
	optional<string> territory_scope;
	string sound_configuration = "51/L,R";
	int active_width = 1998, active_height = 1080;
	int stored_width = 1998, stored_height = 1080;
	vector<string> languages; ///< in the list of them in the metadata
	bool extension = true;
	string extension_scope = "http://isdcf.com/ns/cplmd/app";
	string extension_name = "Application";
	string extension_property = "DCP Constraints Profile";
	string extension_value = "SMPTE-RDD-52:2020-Bv2.1";
	bool sign = false;
	int broken = 0;
	vector<Reel> reels;

	bool altered = false;
	string hash;
	string hash_now;
	int64_t size = 0;
};

struct Pkl
{
	string id;
	string name;
	optional<string> annotation;
	vector<size_t> cpls;
	bool sign = false;
	bool duplicate = false;
	int broken = 0;
	int64_t size = 0;
};

class Dcp
{
public:
	path root;
	string map_id;
	vector<Asset> assets;
	vector<Cpl> cpls;
	vector<Pkl> pkls;
	bool map_duplicate = false;
	int map_broken = 0;
	bool give_keys = false;
	dcp::VerificationOptions options;

	bool key_known(Asset const& a) const
	{
		return !a.key || give_keys;
	}

	void write()
	{
		boost::filesystem::create_directories(root);
		for (auto& a: assets) {
			write(a);
		}
		for (auto& c: cpls) {
			auto x = xml(c);
			if (c.sign) {
				x = sign(x);
			}
			c.hash = package::digest(x);
			c.size = x.size();
			if (c.altered) {
				x += "<!-- altered -->\n";
			}
			c.hash_now = package::digest(x);
			package::put(root / c.name, x);
		}
		for (auto& p: pkls) {
			auto x = xml(p);
			if (p.sign) {
				x = sign(x);
			}
			p.size = x.size();
			package::put(root / p.name, x);
		}
		package::put(root / "ASSETMAP.xml", map_xml());
	}

	vector<dcp::DecryptedKDM> kdms() const
	{
		vector<dcp::DecryptedKDM> k;
		if (!give_keys) {
			return k;
		}
		for (auto const& c: cpls) {
			dcp::CPL cpl(root / c.name);
			map<shared_ptr<const dcp::ReelFileAsset>, dcp::Key> keys;
			for (auto i: cpl.reel_file_assets()) {
				for (auto const& a: assets) {
					if (a.id == i->asset_ref().id() && a.key) {
						keys[i] = *a.key;
					}
				}
			}
			k.push_back(dcp::DecryptedKDM(c.id, keys, dcp::LocalTime(), dcp::LocalTime(), "", "", ""));
		}
		return k;
	}

	/** @return Everything that should be said */
	vector<VerificationNote> expected() const
	{
		vector<VerificationNote> n;
		set<size_t> used;
		for (auto const& a: assets) {
			if (a.missing) {
				n.push_back(VerificationNote(Code::MISSING_ASSET, file(a.name)));
			}
		}
		for (auto const& c: cpls) {
			for (auto const& r: c.reels) {
				for (auto const& e: r.entries()) {
					if (assets[e.asset].external) {
						n.push_back(VerificationNote(Code::EXTERNAL_ASSET).set_asset_id(assets[e.asset].id));
					}
				}
			}
		}
		set<string> hashed;
		for (auto const& c: cpls) {
			auto here = expected(c, hashed);
			for (auto& i: here) {
				auto const code = i.code();
				bool const hash = code == Code::CORRECT_PICTURE_HASH || code == Code::INCORRECT_PICTURE_HASH || code == Code::MISMATCHED_PICTURE_HASHES;
				if (!hash || !shared(*i.file())) {
					/* Things used twice are only checked once, it doesn't matter where */
					i.set_cpl_id(c.id);
				}
				n.push_back(i);
			}
		}
		for (auto const& p: pkls) {
			if (p.broken) {
				n.push_back(VerificationNote(Code::INVALID_XML, file(p.name)));
			}
			if (!p.sign && encrypted(p)) {
				n.push_back(VerificationNote(Code::UNSIGNED_PKL_WITH_ENCRYPTED_CONTENT, file(p.name)).set_pkl_id(p.id));
			}
			if (p.duplicate) {
				n.push_back(VerificationNote(Code::DUPLICATE_ASSET_ID_IN_PKL, file(p.name)).set_pkl_id(p.id));
			}
		}
		if (map_broken) {
			n.push_back(VerificationNote(Code::INVALID_XML, file("ASSETMAP.xml")));
		}
		if (map_duplicate) {
			n.push_back(VerificationNote(Code::DUPLICATE_ASSET_ID_IN_ASSETMAP, file("ASSETMAP.xml")).set_asset_map_id(map_id));
		}
		return n;
	}

	/** @return true if a file is used more than once */
	bool shared(path f) const
	{
		int n = 0;
		for (auto const& c: cpls) {
			for (auto const& r: c.reels) {
				for (auto const& e: r.entries()) {
					n += file(assets[e.asset].name) == f;
				}
			}
		}
		return n > 1;
	}

	path file(string name) const
	{
		return root / name;
	}

private:
	static void uuid(uint8_t* to, string id)
	{
		unsigned int c;
		Kumu::hex2bin(id.c_str(), to, Kumu::UUID_Length, &c);
	}

	void write(Asset& a)
	{
		auto const f = root / a.name;
		auto lock = [&a](dcp::MXF& m) {
			if (a.key) {
				m.set_key_id(a.key_id);
				m.set_key(*a.key);
			}
		};
		switch (a.kind) {
		case MONO:
		case STEREO: {
			shared_ptr<dcp::J2KPictureAsset> p;
			if (a.kind == MONO) {
				p = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(a.rate, 1), dcp::Standard::SMPTE);
			} else {
				p = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(a.rate, 1), dcp::Standard::SMPTE);
			}
			lock(*p);
			auto w = p->start_write(f, dcp::Behaviour::MAKE_NEW);
			for (int i = 0; i < a.frames; ++i) {
				auto const s = a.sizes.find(i);
				for (int eye = 0; eye < (a.kind == STEREO ? 2 : 1); ++eye) {
					/* In 3D it's only the right eye which has the wrong size */
					auto const eye_size = s != a.sizes.end() && (a.kind == MONO || eye == 1) ? s->second : 0;
					auto d = codestream::good(a.width, a.height, eye_size, i);
					if (a.wrong_rsiz.count(i)) {
						d[7] = 1;
					}
					w->write(d.data(), d.size());
				}
			}
			w->finalize();
			a.id = p->id();
			break;
		}
		case SOUND: {
			auto p = make_shared<dcp::SoundAsset>(dcp::Fraction(a.rate, 1), a.sampling_rate, a.channels, dcp::LanguageTag("en"), dcp::Standard::SMPTE);
			lock(*p);
			auto w = p->start_write(f, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
			vector<int32_t> d(a.sampling_rate / a.rate * a.frames, 4096);
			vector<int32_t const*> all(a.channels, d.data());
			w->write(all.data(), a.channels, d.size());
			w->finalize();
			a.id = p->id();
			break;
		}
		case TEXT: {
			a.id = dcp::make_uuid();
			if (a.doc.resource_id == "asset") {
				a.id = a.doc.resource_id = a.doc.xml_id;
			}
			ASDCP::WriterInfo info;
			info.LabelSetType = ASDCP::LS_MXF_SMPTE;
			uuid(info.AssetUUID, a.id);
			dcp::EncryptionContext enc(a.key, dcp::Standard::SMPTE);
			if (a.key) {
				info.UsesHMAC = true;
				info.EncryptedEssence = true;
				uuid(info.CryptographicKeyID, a.key_id);
				uuid(info.ContextID, dcp::make_uuid());
			}
			ASDCP::TimedText::TimedTextDescriptor desc;
			desc.EditRate = ASDCP::Rational(a.rate, 1);
			desc.ContainerDuration = a.frames;
			desc.NamespaceName = "http://www.smpte-ra.org/schemas/428-7/2014/DCST";
			uuid(desc.AssetID, a.doc.resource_id);
			if (!a.doc.load_fonts.empty()) {
				ASDCP::TimedText::TimedTextResourceDescriptor res;
				uuid(res.ResourceID, TextDoc::font_id());
				res.Type = ASDCP::TimedText::MT_OPENTYPE;
				desc.ResourceList.push_back(res);
			}
			ASDCP::TimedText::MXFWriter w;
			pbt::check(ASDCP_SUCCESS(w.OpenWrite(f.string(), info, desc)), "could not make text");
			pbt::check(ASDCP_SUCCESS(w.WriteTimedTextResource(a.doc.xml(), enc.context(), enc.hmac())), "could not write text");
			if (!a.doc.load_fonts.empty()) {
				uint8_t font[16] = { 1, 2, 3 };
				ASDCP::TimedText::FrameBuffer buffer;
				buffer.SetData(font, sizeof(font));
				buffer.Size(sizeof(font));
				pbt::check(ASDCP_SUCCESS(w.WriteAncillaryResource(buffer, enc.context(), enc.hmac())), "could not write font");
			}
			w.Finalize();
			break;
		}
		}
		auto data = media::read_file(f);
		a.hash = package::digest(data);
		a.size = data.size();
		a.hash_now = a.hash;
		if (a.altered) {
			if (a.kind == SOUND) {
				data[data.size() / 2] ^= 1;
			} else {
				/* After everything else, where it won't change anything else */
				data += '!';
			}
			a.hash_now = package::digest(data);
			package::put(f, data);
		}
		if (a.missing || a.external) {
			boost::filesystem::remove(f);
		}
	}

	static string sign(string const& x)
	{
		xmlpp::DomParser p;
		p.parse_memory(x);
		package::signer()->sign(p.get_document()->get_root_node(), dcp::Standard::SMPTE);
		return p.get_document()->write_to_string("UTF-8");
	}

	string entry(string name, string ns, Entry const& e, int rate) const
	{
		using model::tag;
		auto const& a = assets[e.asset];
		string const prefix = name.find(':') == string::npos ? "" : name.substr(0, name.find(':') + 1);
		string x = "<" + name + ns + ">\n" + tag("Id", "urn:uuid:" + a.id) + tag("EditRate", num(rate) + " 1") + tag("IntrinsicDuration", num(e.intrinsic));
		if (e.entry) {
			x += tag("EntryPoint", num(*e.entry));
		}
		if (e.duration) {
			x += tag("Duration", num(*e.duration));
		}
		if (a.key) {
			x += tag("KeyId", "urn:uuid:" + a.key_id);
		}
		if (e.hash) {
			x += tag("Hash", e.wrong_hash ? package::digest("something else") : a.hash);
		}
		if (a.picture()) {
			x += tag("FrameRate", num(e.frame_rate.numerator) + " " + num(e.frame_rate.denominator)) + tag("ScreenAspectRatio", num(a.width) + " " + num(a.height));
		}
		if (e.language) {
			x += tag(prefix + "Language", *e.language);
		}
		return x + "</" + name + ">\n";
	}

	string xml(Cpl const& c) const
	{
		using model::tag;
		using model::escape;
		string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<CompositionPlaylist xmlns=\"http://www.smpte-ra.org/schemas/429-7/2006/CPL\">\n";
		x += tag("Id", "urn:uuid:" + c.id);
		if (c.annotation) {
			x += tag("AnnotationText", *c.annotation);
		}
		x += tag("IssueDate", "2012-07-17T04:45:18+00:00") + tag("Issuer", "me") + tag("Creator", "me") + tag("ContentTitleText", c.title);
		x += "<ContentKind" + (c.kind_scope ? " scope=\"" + escape(*c.kind_scope) + "\"" : string()) + ">" + escape(c.kind) + "</ContentKind>\n";
		auto version = [](string label, int n) {
			string const name = n ? "meta:ContentVersion" : "ContentVersion";
			return "<" + name + ">\n" + tag("Id", "urn:uuid:75ac29aa-42ac-1234-ecae-49251abefd1" + num(n)) + tag("LabelText", label) + "</" + name + ">\n";
		};
		if (!c.version_labels.empty()) {
			x += version(c.version_labels[0], 0);
		}
		x += "<RatingList/>\n<ReelList>\n";
		for (size_t i = 0; i < c.reels.size(); ++i) {
			auto const& r = c.reels[i];
			x += "<Reel>\n" + tag("Id", "urn:uuid:" + r.id) + "<AssetList>\n";
			if (r.markers) {
				x += "<MainMarkers>\n" + tag("Id", "urn:uuid:" + r.markers_id) + tag("EditRate", num(c.rate) + " 1") + tag("IntrinsicDuration", num(r.duration()));
				if (r.markers_entry) {
					x += tag("EntryPoint", num(*r.markers_entry));
				}
				if (r.markers_duration) {
					x += tag("Duration", num(*r.markers_duration));
				}
				x += "<MarkerList>\n";
				for (auto const& m: r.marker_list) {
					x += "<Marker>\n" + tag("Label", m.first) + tag("Offset", num(m.second)) + "</Marker>\n";
				}
				x += "</MarkerList>\n</MainMarkers>\n";
			}
			bool const stereo = r.picture && assets[r.picture->asset].kind == STEREO;
			if (r.picture && !stereo) {
				x += entry("MainPicture", "", *r.picture, c.rate);
			}
			if (r.sound) {
				x += entry("MainSound", "", *r.sound, c.rate);
			}
			if (r.subtitle) {
				x += entry("MainSubtitle", "", *r.subtitle, c.rate);
			}
			for (auto const& j: r.captions) {
				x += entry("tt:ClosedCaption", " xmlns:tt=\"http://www.smpte-ra.org/schemas/429-12/2008/TT\"", j, c.rate);
			}
			if (stereo) {
				x += entry("msp-cpl:MainStereoscopicPicture", " xmlns:msp-cpl=\"http://www.smpte-ra.org/schemas/429-10/2008/Main-Stereo-Picture-CPL\"", *r.picture, c.rate);
			}
			if (i == 0 && c.metadata) {
				x += "<meta:CompositionMetadataAsset xmlns:meta=\"http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata\">\n";
				x += tag("Id", "urn:uuid:" + c.metadata_id) + tag("EditRate", num(c.rate) + " 1") + tag("IntrinsicDuration", num(r.duration()));
				x += tag("meta:FullContentTitleText", "");
				if (c.territory) {
					x += "<meta:ReleaseTerritory" + (c.territory_scope ? " scope=\"" + escape(*c.territory_scope) + "\"" : string()) + ">" + escape(*c.territory) + "</meta:ReleaseTerritory>\n";
				}
				if (c.version_number) {
					x += tag("meta:VersionNumber", num(*c.version_number));
				}
				if (c.version_labels.size() > 1) {
					x += "<meta:AlternateContentVersionList>\n";
					for (size_t j = 1; j < c.version_labels.size(); ++j) {
						x += version(c.version_labels[j], j);
					}
					x += "</meta:AlternateContentVersionList>\n";
				}
				x += tag("meta:MainSoundConfiguration", c.sound_configuration) + tag("meta:MainSoundSampleRate", "48000 1");
				x += "<meta:MainPictureStoredArea>\n" + tag("meta:Width", num(c.stored_width)) + tag("meta:Height", num(c.stored_height)) + "</meta:MainPictureStoredArea>\n";
				x += "<meta:MainPictureActiveArea>\n" + tag("meta:Width", num(c.active_width)) + tag("meta:Height", num(c.active_height)) + "</meta:MainPictureActiveArea>\n";
				if (!c.languages.empty()) {
					string all;
					for (auto const& l: c.languages) {
						all += (all.empty() ? "" : " ") + l;
					}
					x += tag("meta:MainSubtitleLanguageList", all);
				}
				if (c.extension) {
					x += "<meta:ExtensionMetadataList>\n<meta:ExtensionMetadata scope=\"" + c.extension_scope + "\">\n" + tag("meta:Name", c.extension_name) +
						"<meta:PropertyList>\n<meta:Property>\n" + tag("meta:Name", c.extension_property) + tag("meta:Value", c.extension_value) +
						"</meta:Property>\n</meta:PropertyList>\n</meta:ExtensionMetadata>\n</meta:ExtensionMetadataList>\n";
				}
				x += "</meta:CompositionMetadataAsset>\n";
			}
			x += "</AssetList>\n</Reel>\n";
		}
		return break_xml(x + "</ReelList>\n</CompositionPlaylist>\n", c.broken);
	}

	/** @return indices of assets which are in a PKL because one of its CPLs uses them, and none of those in an earlier one does */
	vector<size_t> contents(Pkl const& p) const
	{
		vector<size_t> all;
		for (size_t i = 0; i < assets.size(); ++i) {
			for (auto const& q: pkls) {
				bool here = false;
				for (auto j: q.cpls) {
					for (auto const& r: cpls[j].reels) {
						for (auto const& e: r.entries()) {
							here = here || e.asset == i;
						}
					}
				}
				if (here) {
					if (&q == &p) {
						all.push_back(i);
					}
					break;
				}
			}
		}
		return all;
	}

	bool encrypted(Pkl const& p) const
	{
		for (auto i: contents(p)) {
			if (assets[i].key && assets[i].resolved()) {
				return true;
			}
		}
		return false;
	}

	string xml(Pkl const& p) const
	{
		using model::tag;
		string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<PackingList xmlns=\"http://www.smpte-ra.org/schemas/429-8/2007/PKL\">\n" + tag("Id", "urn:uuid:" + p.id);
		if (p.annotation) {
			x += tag("AnnotationText", *p.annotation);
		}
		x += tag("IssueDate", "2012-07-17T04:45:18+00:00") + tag("Issuer", "me") + tag("Creator", "me") + "<AssetList>\n";
		auto asset = [](string id, string hash, int64_t size, string type) {
			return "<Asset>\n" + tag("Id", "urn:uuid:" + id) + tag("Hash", hash) + tag("Size", num(size)) + tag("Type", type) + "</Asset>\n";
		};
		for (auto i: p.cpls) {
			x += asset(cpls[i].id, cpls[i].hash, cpls[i].size, "text/xml");
		}
		for (auto i: contents(p)) {
			if (!assets[i].external) {
				x += asset(assets[i].id, assets[i].hash, assets[i].size, "application/mxf");
				if (p.duplicate && i == contents(p).back()) {
					x += asset(assets[i].id, assets[i].hash, assets[i].size, "application/mxf");
				}
			}
		}
		return break_xml(x + "</AssetList>\n</PackingList>\n", p.broken);
	}

	string map_xml() const
	{
		using model::tag;
		string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<AssetMap xmlns=\"http://www.smpte-ra.org/schemas/429-9/2007/AM\">\n" + tag("Id", "urn:uuid:" + map_id);
		x += tag("Creator", "me") + tag("VolumeCount", "1");
		x += tag("IssueDate", "2012-07-17T04:45:18+00:00") + tag("Issuer", "me") + "<AssetList>\n";
		auto asset = [](string id, bool pkl, string name, int64_t size) {
			return "<Asset>\n" + tag("Id", "urn:uuid:" + id) + (pkl ? tag("PackingList", "true") : string()) + "<ChunkList>\n<Chunk>\n" + tag("Path", name) +
				tag("VolumeIndex", "1") + tag("Offset", "0") + tag("Length", num(size)) + "</Chunk>\n</ChunkList>\n</Asset>\n";
		};
		for (auto const& p: pkls) {
			x += asset(p.id, true, p.name, p.size);
		}
		for (auto const& c: cpls) {
			x += asset(c.id, false, c.name, c.size);
			if (map_duplicate && &c == &cpls.back()) {
				x += asset(c.id, false, c.name, c.size);
			}
		}
		for (auto const& a: assets) {
			if (!a.external) {
				x += asset(a.id, false, a.name, a.size);
			}
		}
		return break_xml(x + "</AssetList>\n</AssetMap>\n", map_broken);
	}

	static bool bad_language(string l)
	{
		return l == "frobozz" || l == "en-ZQ";
	}

	void picture_notes(vector<VerificationNote>& n, Cpl const& c, Reel const& r, int reel, int64_t start, set<string>& hashed) const
	{
		auto const& e = *r.picture;
		auto const& a = assets[e.asset];
		auto add = [&](VerificationNote v) {
			n.push_back(v.set_reel_index(reel));
		};
		static set<int> const rates = { 24, 25, 30, 48, 50, 60, 96 };
		if (e.frame_rate.denominator != 1 || !rates.count(e.frame_rate.numerator)) {
			add(VerificationNote(Code::INVALID_PICTURE_FRAME_RATE).set_frame_rate(e.frame_rate));
		}
		if (!a.resolved()) {
			return;
		}
		auto const f = file(a.name);
		hash_notes(n, e, reel, hashed, Code::INCORRECT_PICTURE_HASH, Code::MISMATCHED_PICTURE_HASHES);
		if (options.check_picture_details) {
			bool all = true;
			for (auto const& s: a.sizes) {
				/* bits in this many bytes every frame, compared to the number allowed per second */
				auto const rate = int64_t(s.second) * 8 * a.rate;
				if (rate > 250000000 || rate > 230000000) {
					all = false;
					add(VerificationNote(rate > 250000000 ? Code::INVALID_PICTURE_FRAME_SIZE_IN_BYTES : Code::NEARLY_INVALID_PICTURE_FRAME_SIZE_IN_BYTES, f).set_frame(start + s.first).set_asset_id(a.id));
				}
			}
			if (all) {
				add(VerificationNote(Code::VALID_PICTURE_FRAME_SIZES_IN_BYTES, f));
			}
			if (!a.wrong_rsiz.empty() && key_known(a)) {
				add(VerificationNote(a.fourk() ? Code::INVALID_JPEG2000_RSIZ_FOR_4K : Code::INVALID_JPEG2000_RSIZ_FOR_2K).set_capabilities(1).set_asset_id(a.id));
			}
		}
		auto is = [&a](int w, int h) { return a.width == w && a.height == h; };
		bool const twok = is(2048, 858) || is(1998, 1080);
		bool const fourk = is(4096, 1716) || is(3996, 2160);
		if (!twok && !fourk) {
			add(VerificationNote(Code::INVALID_PICTURE_SIZE_IN_PIXELS, f).set_size_in_pixels(dcp::Size(a.width, a.height)).set_asset_id(a.id));
		}
		if (twok && a.rate != 24 && a.rate != 25 && a.rate != 48) {
			add(VerificationNote(Code::INVALID_PICTURE_FRAME_RATE_FOR_2K, f).set_frame_rate(dcp::Fraction(a.rate, 1)));
		}
		if (fourk && a.rate != 24) {
			add(VerificationNote(Code::INVALID_PICTURE_FRAME_RATE_FOR_4K, f).set_frame_rate(dcp::Fraction(a.rate, 1)));
		}
		if (fourk && a.kind == STEREO) {
			add(VerificationNote(Code::INVALID_PICTURE_ASSET_RESOLUTION_FOR_3D, f));
		}
		if (c.metadata) {
			for (int i = 0; i < (c.active_width > a.width) + (c.active_height > a.height); ++i) {
				add(VerificationNote(Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, file(c.name)));
			}
		}
	}

	void hash_notes(vector<VerificationNote>& n, Entry const& e, int reel, set<string>& hashed, Code incorrect, Code mismatched) const
	{
		auto const& a = assets[e.asset];
		auto const size = boost::filesystem::file_size(file(a.name));
		if (!options.check_asset_hashes || (options.maximum_asset_size_for_hash_check && size >= *options.maximum_asset_size_for_hash_check)) {
			return;
		}
		if (!hashed.insert(a.id).second) {
			return;
		}
		auto const f = file(a.name);
		if (e.hash && e.wrong_hash) {
			n.push_back(VerificationNote(mismatched, f).set_reel_index(reel));
		} else if (a.altered) {
			n.push_back(VerificationNote(incorrect, f).set_reel_index(reel).set_reference_hash(a.hash).set_calculated_hash(a.hash_now));
		} else if (a.picture()) {
			n.push_back(VerificationNote(Code::CORRECT_PICTURE_HASH, f).set_reel_index(reel));
		}
	}

	/** Things about a timed text asset that are the same whatever it is for */
	void text_notes(vector<VerificationNote>& n, Entry const& e, int reel, bool subtitle, optional<string>& first_language) const
	{
		auto const& a = assets[e.asset];
		auto const f = file(a.name);
		auto add = [&](VerificationNote v) {
			n.push_back(v.set_reel_index(reel));
		};
		if (e.language && bad_language(*e.language)) {
			add(VerificationNote(Code::INVALID_LANGUAGE).set_language(*e.language));
		}
		if (!e.entry) {
			add(VerificationNote(subtitle ? Code::MISSING_SUBTITLE_ENTRY_POINT : Code::MISSING_CLOSED_CAPTION_ENTRY_POINT).set_asset_id(a.id));
		} else if (*e.entry) {
			add(VerificationNote(subtitle ? Code::INCORRECT_SUBTITLE_ENTRY_POINT : Code::INCORRECT_CLOSED_CAPTION_ENTRY_POINT).set_asset_id(a.id));
		}
		if (!a.resolved()) {
			return;
		}
		if (e.duration && *e.duration != a.frames) {
			add(VerificationNote(Code::MISMATCHED_TIMED_TEXT_DURATION, f).set_duration(a.frames).set_other_duration(*e.duration));
		}
		if (!key_known(a)) {
			/* There's nothing to be seen */
			return;
		}
		auto const& d = a.doc;
		if (d.broken) {
			add(VerificationNote(Code::INVALID_XML));
		}
		if (!subtitle && d.xml().size() > 256 * 1024) {
			add(VerificationNote(Code::INVALID_CLOSED_CAPTION_XML_SIZE_IN_BYTES, f).set_size_in_bytes(d.xml().size()));
		}
		if (!d.language) {
			add(VerificationNote(Code::MISSING_SUBTITLE_LANGUAGE, f));
		} else {
			if (bad_language(*d.language)) {
				add(VerificationNote(Code::INVALID_LANGUAGE).set_language(*d.language));
			}
			if (subtitle) {
				if (!first_language) {
					first_language = d.language;
				} else if (*first_language != *d.language) {
					add(VerificationNote(Code::MISMATCHED_SUBTITLE_LANGUAGES));
				}
			}
		}
		if (!d.start_time) {
			add(VerificationNote(Code::MISSING_SUBTITLE_START_TIME, f));
		} else if (*d.start_time != "00:00:00:00") {
			add(VerificationNote(Code::INVALID_SUBTITLE_START_TIME, f));
		}
		if (subtitle) {
			if (d.resource_id != d.xml_id) {
				add(VerificationNote(Code::MISMATCHED_TIMED_TEXT_RESOURCE_ID));
			}
			if (a.id == d.resource_id || a.id == d.xml_id) {
				add(VerificationNote(Code::INCORRECT_TIMED_TEXT_ASSET_ID));
			}
			if (d.issue_date.size() != 19) {
				add(VerificationNote(Code::INVALID_SUBTITLE_ISSUE_DATE).set_issue_date(d.issue_date));
			}
			if (d.extra_namespace) {
				add(VerificationNote(Code::INCORRECT_SUBTITLE_NAMESPACE_COUNT).set_asset_id(a.id));
			}
		}
	}

	/** Things about the times of texts in a set of assets that run through the CPL */
	void timing_notes(vector<VerificationNote>& n, Cpl const& c, std::function<Entry const* (Reel const&)> which) const
	{
		optional<int64_t> last_out;
		int64_t offset = 0;
		for (size_t i = 0; i < c.reels.size(); ++i) {
			auto const e = which(c.reels[i]);
			if (!e || !assets[e->asset].resolved() || !key_known(assets[e->asset])) {
				/* There's nothing after this */
				break;
			}
			auto const& a = assets[e->asset];
			auto const& d = a.doc;
			bool early = false, negative = false, is_short = false, close = false, empty = false, text = false;
			auto const start = d.start_time && *d.start_time == "00:00:01:00" ? d.rate : 0;
			for (auto const& s: d.subs) {
				auto const in = s.in - start;
				auto const out = s.out - start;
				early = early || (i == 0 && in < 4 * d.rate);
				negative = negative || out <= in;
				is_short = is_short || (out > in && out - in < 15);
				if (last_out) {
					auto const gap = offset + in - *last_out;
					close = close || (gap >= 0 && gap < 2);
				}
				last_out = offset + out;
				for (auto const& l: s.lines) {
					text = true;
					empty = empty || l.text.empty();
				}
			}
			offset += e->actual();
			auto add = [&](VerificationNote v) {
				n.push_back(v.set_reel_index(i));
			};
			if (text && d.load_fonts.empty()) {
				add(VerificationNote(Code::MISSING_LOAD_FONT).set_asset_id(a.id));
			}
			if (last_out && *last_out > offset) {
				add(VerificationNote(Code::SUBTITLE_OVERLAPS_REEL_BOUNDARY));
			}
			if (early) {
				add(VerificationNote(Code::INVALID_SUBTITLE_FIRST_TEXT_TIME));
			}
			if (negative) {
				add(VerificationNote(Code::INVALID_SUBTITLE_DURATION));
			}
			if (is_short) {
				add(VerificationNote(Code::INVALID_SUBTITLE_DURATION_BV21));
			}
			if (close) {
				add(VerificationNote(Code::INVALID_SUBTITLE_SPACING));
			}
			if (empty) {
				add(VerificationNote(Code::EMPTY_TEXT));
			}
			if (d.font && std::find(d.load_fonts.begin(), d.load_fonts.end(), *d.font) == d.load_fonts.end()) {
				add(VerificationNote(Code::MISSING_LOAD_FONT_FOR_FONT).set_load_font_id(*d.font));
			}
		}
	}

	struct Longest
	{
		int lines = 0;
		int characters = 0;

		void take(TextDoc const& d)
		{
			for (auto const& s: d.subs) {
				if (s.out <= s.in) {
					continue;
				}
				/* Look at everything which is there as this one starts */
				map<int, int> line;
				for (auto const& o: d.subs) {
					if (o.in <= s.in && o.out > s.in) {
						for (auto const& l: o.lines) {
							if (!l.text.empty()) {
								line[l.valign == "top" ? l.vpos : l.valign == "bottom" ? 100 - l.vpos : 50 + l.vpos] += l.text.size();
							}
						}
					}
				}
				lines = std::max(lines, static_cast<int>(line.size()));
				for (auto const& l: line) {
					characters = std::max(characters, l.second);
				}
			}
		}
	};

	vector<VerificationNote> expected(Cpl const& c, set<string>& hashed) const
	{
		vector<VerificationNote> n;
		auto add = [&n](VerificationNote v) {
			n.push_back(v);
		};
		auto const f = file(c.name);
		if (c.version_labels.empty()) {
			add(VerificationNote(Code::MISSING_CPL_CONTENT_VERSION, f));
		}
		if (c.broken || c.version_labels.empty()) {
			add(VerificationNote(Code::INVALID_XML, f));
		}
		bool any = false;
		bool all = true;
		for (auto const& r: c.reels) {
			for (auto const& e: r.entries()) {
				any = any || assets[e.asset].key;
				all = all && assets[e.asset].key;
			}
		}
		add(VerificationNote(all ? Code::ALL_ENCRYPTED : any ? Code::PARTIALLY_ENCRYPTED : Code::NONE_ENCRYPTED));
		if (any && !c.sign) {
			add(VerificationNote(Code::UNSIGNED_CPL_WITH_ENCRYPTED_CONTENT, f));
		}
		if (c.metadata) {
			/* The first in the list is left out if it is the same as that of the first subtitle, but then it's reported as that */
			optional<string> first;
			for (auto const& r: c.reels) {
				if (r.subtitle && r.subtitle->language) {
					first = r.subtitle->language;
					break;
				}
			}
			for (size_t i = 0; i < c.languages.size(); ++i) {
				if (bad_language(c.languages[i]) && !(i == 0 && first && *first == c.languages[i])) {
					add(VerificationNote(Code::INVALID_LANGUAGE).set_language(c.languages[i]));
				}
			}
		}
		if (!c.kind_scope || *c.kind_scope == "http://www.smpte-ra.org/schemas/429-7/2006/CPL#standard-content") {
			static set<string> const kinds = { "feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement" };
			auto lower = c.kind;
			for (auto& i: lower) {
				i = tolower(i);
			}
			add(VerificationNote(kinds.count(lower) ? Code::VALID_CONTENT_KIND : Code::INVALID_CONTENT_KIND).set_content_kind(c.kind));
		}
		if (c.metadata && c.territory && (!c.territory_scope || *c.territory_scope != "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/release-territory/UNM49")) {
			static set<string> const good = { "001", "US", "GB", "DE", "419" };
			if (good.count(*c.territory)) {
				add(VerificationNote(Code::VALID_RELEASE_TERRITORY).set_territory(*c.territory));
			} else {
				add(VerificationNote(Code::INVALID_LANGUAGE).set_language(*c.territory));
			}
		}
		auto labels = c.version_labels;
		if (!c.metadata && !labels.empty()) {
			labels.resize(1);
		}
		for (auto const& i: labels) {
			if (i.empty()) {
				add(VerificationNote(Code::EMPTY_CONTENT_VERSION_LABEL_TEXT, f));
				break;
			}
			add(VerificationNote(Code::VALID_CONTENT_VERSION_LABEL_TEXT).set_content_version(i));
		}
		if (!c.annotation) {
			add(VerificationNote(Code::MISSING_CPL_ANNOTATION_TEXT, f));
		} else if (*c.annotation != c.title) {
			add(VerificationNote(Code::MISMATCHED_CPL_ANNOTATION_TEXT, f));
		} else {
			add(VerificationNote(Code::VALID_CPL_ANNOTATION_TEXT).set_annotation_text(c.title));
		}
		for (auto const& p: pkls) {
			if (std::find_if(p.cpls.begin(), p.cpls.end(), [&](size_t i) { return &cpls[i] == &c; }) == p.cpls.end()) {
				continue;
			}
			if (c.altered) {
				add(VerificationNote(Code::MISMATCHED_CPL_HASHES, f).set_calculated_hash(c.hash_now).set_reference_hash(c.hash));
			}
			if (p.cpls.size() == 1 && (!p.annotation || *p.annotation != c.title)) {
				add(VerificationNote(Code::MISMATCHED_PKL_ANNOTATION_TEXT_WITH_CPL, file(p.name)).set_pkl_id(p.id));
			}
		}
		if (c.metadata) {
			for (int i = 0; i < (c.active_width % 2) + (c.active_height % 2); ++i) {
				add(VerificationNote(Code::INVALID_MAIN_PICTURE_ACTIVE_AREA, f));
			}
			if (c.active_width % 2 == 0 && c.active_height % 2 == 0) {
				add(VerificationNote(Code::VALID_MAIN_PICTURE_ACTIVE_AREA, f).set_size_in_pixels(dcp::Size(c.active_width, c.active_height)));
			}
		}

		optional<int> channels;
		optional<string> language;
		size_t fewest = 1000;
		size_t most = 0;
		int with_subtitle = 0;
		map<string, int> markers;
		int64_t start = 0;
		Longest subtitle_lines;
		Longest caption_lines;
		bool valign = false;
		bool order = false;
		for (size_t i = 0; i < c.reels.size(); ++i) {
			auto const& r = c.reels[i];
			auto here = [&](VerificationNote v) {
				n.push_back(v.set_reel_index(i));
			};
			auto const entries = r.entries();
			bool mismatch = false;
			for (auto const& e: entries) {
				auto const& id = assets[e.asset].id;
				if (e.duration && *e.duration < c.rate) {
					here(VerificationNote(Code::INVALID_DURATION).set_asset_id(id));
				}
				if (e.intrinsic < c.rate) {
					here(VerificationNote(Code::INVALID_INTRINSIC_DURATION).set_asset_id(id));
				}
				if (!e.hash) {
					here(VerificationNote(Code::MISSING_HASH).set_asset_id(id));
				}
				mismatch = mismatch || e.actual() != entries[0].actual();
			}
			if (mismatch) {
				here(VerificationNote(Code::MISMATCHED_ASSET_DURATION));
			}
			picture_notes(n, c, r, i, start, hashed);
			if (r.sound && assets[r.sound->asset].resolved()) {
				auto const& a = assets[r.sound->asset];
				hash_notes(n, *r.sound, i, hashed, Code::INCORRECT_SOUND_HASH, Code::MISMATCHED_SOUND_HASHES);
				if (!channels) {
					channels = a.channels;
				} else if (*channels != a.channels) {
					here(VerificationNote(Code::MISMATCHED_SOUND_CHANNEL_COUNTS, file(a.name)));
				}
				if (a.sampling_rate != 48000) {
					here(VerificationNote(Code::INVALID_SOUND_FRAME_RATE, file(a.name)).set_frame_rate(dcp::Fraction(a.sampling_rate, 1)));
				}
			}
			if (r.subtitle) {
				++with_subtitle;
				text_notes(n, *r.subtitle, i, true, language);
				if (assets[r.subtitle->asset].resolved() && key_known(assets[r.subtitle->asset])) {
					subtitle_lines.take(assets[r.subtitle->asset].doc);
				}
			}
			for (auto const& e: r.captions) {
				text_notes(n, e, i, false, language);
				if (!assets[e.asset].resolved() || !key_known(assets[e.asset])) {
					continue;
				}
				auto const& d = assets[e.asset].doc;
				caption_lines.take(d);
				for (auto const& s: d.subs) {
					bool same = true;
					for (size_t l = 1; l < s.lines.size(); ++l) {
						same = same && s.lines[l].valign == s.lines[0].valign;
					}
					if (!same) {
						valign = true;
					} else {
						for (size_t l = 1; l < s.lines.size(); ++l) {
							auto const d = s.lines[l].vpos - s.lines[l - 1].vpos;
							order = order || (s.lines[0].valign == "bottom" ? d > 0 : d < 0);
						}
					}
				}
			}
			fewest = std::min(fewest, r.captions.size());
			most = std::max(most, r.captions.size());
			if (r.markers) {
				for (auto const& m: r.marker_list) {
					markers.insert(m);
				}
				if (r.markers_entry) {
					here(VerificationNote(Code::UNEXPECTED_ENTRY_POINT));
				}
				if (r.markers_duration) {
					here(VerificationNote(Code::UNEXPECTED_DURATION));
				}
			}
			start += r.duration();
		}

		if (c.reels[0].subtitle) {
			timing_notes(n, c, [](Reel const& r) { return r.subtitle ? &*r.subtitle : nullptr; });
		}
		for (size_t i = 0; i < c.reels[0].captions.size(); ++i) {
			timing_notes(n, c, [i](Reel const& r) { return i < r.captions.size() ? &r.captions[i] : nullptr; });
		}
		if (valign) {
			add(VerificationNote(Code::MISMATCHED_CLOSED_CAPTION_VALIGN));
		}
		if (order) {
			add(VerificationNote(Code::INCORRECT_CLOSED_CAPTION_ORDERING));
		}
		if (c.metadata) {
			auto const sc = c.sound_configuration;
			bool const known = sc.find("XX") == string::npos;
			if (!known || (channels && *channels != 1 + std::count(sc.begin(), sc.end(), ','))) {
				add(VerificationNote(Code::INVALID_MAIN_SOUND_CONFIGURATION, f));
			}
		}
		if (with_subtitle && with_subtitle != static_cast<int>(c.reels.size())) {
			add(VerificationNote(Code::MISSING_MAIN_SUBTITLE_FROM_SOME_REELS));
		}
		if (fewest != most) {
			add(VerificationNote(Code::MISMATCHED_CLOSED_CAPTION_ASSET_COUNTS));
		}
		if (c.kind == "feature" && !c.kind_scope) {
			if (!markers.count("FFEC")) {
				add(VerificationNote(Code::MISSING_FFEC_IN_FEATURE));
			}
			if (!markers.count("FFMC")) {
				add(VerificationNote(Code::MISSING_FFMC_IN_FEATURE));
			}
		}
		if (!markers.count("FFOC")) {
			add(VerificationNote(Code::MISSING_FFOC));
		} else if (markers["FFOC"] != 1) {
			add(VerificationNote(Code::INCORRECT_FFOC));
		}
		if (!markers.count("LFOC")) {
			add(VerificationNote(Code::MISSING_LFOC));
		} else if (markers["LFOC"] != c.reels.back().duration() - 1) {
			add(VerificationNote(Code::INCORRECT_LFOC));
		}
		if (subtitle_lines.lines > 3) {
			add(VerificationNote(Code::INVALID_SUBTITLE_LINE_COUNT));
		}
		if (subtitle_lines.characters > 79) {
			add(VerificationNote(Code::INVALID_SUBTITLE_LINE_LENGTH));
		} else if (subtitle_lines.characters > 52) {
			add(VerificationNote(Code::NEARLY_INVALID_SUBTITLE_LINE_LENGTH));
		}
		if (caption_lines.lines > 3) {
			add(VerificationNote(Code::INVALID_CLOSED_CAPTION_LINE_COUNT));
		}
		if (caption_lines.characters > 32) {
			add(VerificationNote(Code::INVALID_CLOSED_CAPTION_LINE_LENGTH));
		}
		if (!c.metadata) {
			add(VerificationNote(Code::MISSING_CPL_METADATA, f));
		} else {
			if (!c.version_number) {
				add(VerificationNote(Code::MISSING_CPL_METADATA_VERSION_NUMBER, f));
			}
			if (!c.extension || c.extension_scope != "http://isdcf.com/ns/cplmd/app") {
				add(VerificationNote(Code::MISSING_EXTENSION_METADATA, f));
			} else if (
				c.extension_name != "Application" || c.extension_property != "DCP Constraints Profile" ||
				(c.extension_value != "SMPTE-RDD-52:2020-Bv2.0" && c.extension_value != "SMPTE-RDD-52:2020-Bv2.1")
				) {
				add(VerificationNote(Code::INVALID_EXTENSION_METADATA, f));
			}
		}
		return n;
	}
};

}

#endif
