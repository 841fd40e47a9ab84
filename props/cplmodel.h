/* A model of a CPL: what should be in it, an independent way to write it as XML, and a comparison with the library's idea of it */

#ifndef VERIF_CPLMODEL_H
#define VERIF_CPLMODEL_H

#include "full.h"
#include "xmltext.h"
#include "content_kind.h"
#include "cpl.h"
#include "language_tag.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include <map>

namespace model {

template <class T> using opt = boost::optional<T>;

template <class T> std::string show_opt(opt<T> const& o)
{
	return o ? pbt::show(*o) : "[none]";
}

template <class T, class U> void same(opt<T> const& got, opt<U> const& want, std::string what)
{
	pbt::check_eq(show_opt(got), show_opt(want), what);
}

enum Kind { MONO, STEREO, SOUND, SUBTITLE, CAPTION, CLOSED_SUBTITLE, CLOSED_CAPTION, ATMOS, MARKERS };

inline char const* kind_name(Kind k)
{
	static char const* n[] = { "mono", "stereo", "sound", "subtitle", "caption", "closed subtitle", "closed caption", "atmos", "markers" };
	return n[k];
}

inline std::vector<std::string> const& tags()
{
	static std::vector<std::string> const t = { "en", "de-DE", "fr", "pt-BR", "zh-Hant-TW", "es-419", "sr-Latn-RS", "de-1996", "sl-rozaj" };
	return t;
}

struct Asset
{
	Kind kind;
	std::string id;
	opt<std::string> annotation;
	int num = 24;
	int den = 1;
	int64_t intrinsic = 0;
	opt<int64_t> entry;
	opt<int64_t> duration;
	opt<std::string> key;
	opt<std::string> hash;
	int fps = 24;
	int sar_x = 1998, sar_y = 1080;
	opt<std::string> language;
	std::map<std::string, int64_t> markers;

	bool text() const { return kind == SUBTITLE || kind == CAPTION || kind == CLOSED_SUBTITLE || kind == CLOSED_CAPTION; }
	int64_t actual() const { return duration ? *duration : intrinsic - entry.get_value_or(0); }

	std::string xml(dcp::Standard standard) const
	{
		bool const smpte = standard == dcp::Standard::SMPTE;
		std::string name, ns;
		switch (kind) {
		case MONO: name = "MainPicture"; break;
		case STEREO:
			name = "msp-cpl:MainStereoscopicPicture";
			ns = std::string("xmlns:msp-cpl=\"") + (smpte ? "http://www.smpte-ra.org/schemas/429-10/2008/Main-Stereo-Picture-CPL" : "http://www.digicine.com/schemas/437-Y/2007/Main-Stereo-Picture-CPL") + "\"";
			break;
		case SOUND: name = "MainSound"; break;
		case SUBTITLE: name = "MainSubtitle"; break;
		case CAPTION: name = "tt:MainCaption"; ns = "xmlns:tt=\"http://www.smpte-ra.org/schemas/429-12/2008/TT\""; break;
		case CLOSED_SUBTITLE: name = "ClosedSubtitle"; break;
		case CLOSED_CAPTION:
			if (smpte) {
				name = "tt:ClosedCaption"; ns = "xmlns:tt=\"http://www.smpte-ra.org/schemas/429-12/2008/TT\"";
			} else {
				name = "cc-cpl:MainClosedCaption"; ns = "xmlns:cc-cpl=\"http://www.digicine.com/PROTO-ASDCP-CC-CPL-20070926#\"";
			}
			break;
		case ATMOS: name = "axd:AuxData"; ns = "xmlns:axd=\"http://www.dolby.com/schemas/2012/AD\""; break;
		case MARKERS: name = "MainMarkers"; break;
		}
		std::string x = "<" + name + (ns.empty() ? "" : " ") + ns + ">\n" + tag("Id", "urn:uuid:" + id);
		if (annotation) {
			x += tag("AnnotationText", *annotation);
		}
		x += tag("EditRate", std::to_string(num) + " " + std::to_string(den)) + tag("IntrinsicDuration", std::to_string(intrinsic));
		if (entry) {
			x += tag("EntryPoint", std::to_string(*entry));
		}
		if (duration) {
			x += tag("Duration", std::to_string(*duration));
		}
		if (key) {
			x += tag("KeyId", "urn:uuid:" + *key);
		}
		if (hash) {
			x += tag("Hash", *hash);
		}
		if (kind == MONO || kind == STEREO) {
			x += tag("FrameRate", std::to_string(fps) + " 1");
			if (smpte) {
				x += tag("ScreenAspectRatio", std::to_string(sar_x) + " " + std::to_string(sar_y));
			} else {
				char b[32];
				snprintf(b, sizeof(b), "%d.%02d", sar_x / 1000, (sar_x % 1000) / 10);
				x += tag("ScreenAspectRatio", b);
			}
		}
		if (kind == ATMOS) {
			x += tag("axd:DataType", "urn:smpte:ul:060e2b34.04010105.0e090604.00000000");
		}
		if (language) {
			x += tag("Language", *language);
		}
		if (kind == MARKERS) {
			x += "<MarkerList>";
			for (auto const& m: markers) {
				x += "<Marker>" + tag("Label", m.first) + tag("Offset", std::to_string(m.second)) + "</Marker>";
			}
			x += "</MarkerList>";
		}
		return x + "</" + name + ">\n";
	}

	void compare(std::shared_ptr<const dcp::ReelAsset> got, std::string where) const
	{
		using pbt::check_eq;
		auto const w = where + ": " + kind_name(kind) + ": ";
		pbt::check(static_cast<bool>(got), w + "missing");
		check_eq(got->id(), id, w + "id");
		same(got->annotation_text(), annotation, w + "annotation text");
		check_eq(got->edit_rate().as_string(), std::to_string(num) + " " + std::to_string(den), w + "edit rate");
		check_eq(got->intrinsic_duration(), intrinsic, w + "intrinsic duration");
		same(got->entry_point(), entry, w + "entry point");
		same(got->duration(), duration, w + "duration");
		check_eq(got->actual_duration(), actual(), w + "actual duration");
		if (kind == MARKERS) {
			auto m = std::dynamic_pointer_cast<const dcp::ReelMarkersAsset>(got);
			pbt::check(static_cast<bool>(m), w + "wrong type");
			check_eq(m->get().size(), markers.size(), w + "number of markers");
			for (auto const& i: markers) {
				auto t = m->get(dcp::marker_from_string(i.first));
				pbt::check(static_cast<bool>(t), w + "no marker " + i.first);
				/* The time of the marker in seconds, which is exactly offset * denominator / numerator */
				auto const got_num = ((int64_t(t->h) * 60 + t->m) * 60 + t->s) * t->tcr + t->e;
				check_eq(pbt::show(static_cast<double>(static_cast<__int128>(got_num) * num - static_cast<__int128>(i.second) * den * t->tcr)), pbt::show(0.0), w + "error in time of " + i.first);
			}
			return;
		}
		auto f = std::dynamic_pointer_cast<const dcp::ReelFileAsset>(got);
		pbt::check(static_cast<bool>(f), w + "not a file asset");
		same(f->key_id(), key, w + "key ID");
		same(f->hash(), hash, w + "hash");
		check_eq(f->encrypted(), static_cast<bool>(key), w + "encrypted");
		check_eq(f->asset_ref().id(), id, w + "ID of the asset that is referred to");
		if (kind == MONO || kind == STEREO) {
			auto p = std::dynamic_pointer_cast<const dcp::ReelPictureAsset>(got);
			pbt::check(static_cast<bool>(p), w + "not a picture asset");
			check_eq(static_cast<bool>(std::dynamic_pointer_cast<const dcp::ReelStereoPictureAsset>(got)), kind == STEREO, w + "stereo");
			check_eq(p->frame_rate().as_string(), std::to_string(fps) + " 1", w + "frame rate");
			check_eq(p->screen_aspect_ratio().as_string(), std::to_string(sar_x) + " " + std::to_string(sar_y), w + "screen aspect ratio");
		}
		if (text()) {
			auto t = std::dynamic_pointer_cast<const dcp::ReelTextAsset>(got);
			pbt::check(static_cast<bool>(t), w + "not a text asset");
			same(t->language(), language, w + "language");
			auto const want = kind == SUBTITLE ? dcp::TextType::OPEN_SUBTITLE : kind == CAPTION ? dcp::TextType::OPEN_CAPTION : kind == CLOSED_SUBTITLE ? dcp::TextType::CLOSED_SUBTITLE : dcp::TextType::CLOSED_CAPTION;
			pbt::check(t->type() == want, w + "wrong text type");
		}
	}
};

struct Reel
{
	std::string id;
	std::vector<Asset> assets;

	Asset const* find(Kind k) const
	{
		for (auto const& i: assets) {
			if (i.kind == k) {
				return &i;
			}
		}
		return nullptr;
	}

	/** Assets in the order that they go in the CPL */
	std::vector<Asset const*> ordered(std::vector<Kind> order) const
	{
		std::vector<Asset const*> r;
		for (auto k: order) {
			for (auto const& i: assets) {
				if (i.kind == k) {
					r.push_back(&i);
				}
			}
		}
		return r;
	}

	std::vector<Asset const*> files() const
	{
		return ordered({ MONO, STEREO, SOUND, SUBTITLE, CAPTION, CLOSED_SUBTITLE, CLOSED_CAPTION, ATMOS });
	}

	std::string xml(dcp::Standard standard, std::string metadata) const
	{
		std::string x = "<Reel>" + tag("Id", "urn:uuid:" + id) + "<AssetList>\n";
		for (auto i: ordered({ MARKERS, MONO, SOUND, SUBTITLE, CAPTION, CLOSED_SUBTITLE, CLOSED_CAPTION, STEREO, ATMOS })) {
			x += i->xml(standard);
		}
		return x + metadata + "</AssetList></Reel>\n";
	}

	bool any_encrypted() const
	{
		for (auto i: files()) {
			if (i->key) {
				return true;
			}
		}
		return false;
	}

	bool all_encrypted() const
	{
		for (auto i: files()) {
			if (!i->key) {
				return false;
			}
		}
		return true;
	}

	int64_t duration() const
	{
		auto pic = find(MONO) ? find(MONO) : find(STEREO);
		if (pic) {
			return pic->actual();
		}
		int64_t d = INT64_MAX;
		for (auto const& i: assets) {
			d = std::min(d, i.actual());
		}
		return d;
	}

	void compare(dcp::Reel const& got, std::string where) const
	{
		pbt::check_eq(got.id(), id, where + ": reel ID");
		pbt::check_eq(static_cast<bool>(got.main_picture()), find(MONO) || find(STEREO), where + ": has picture");
		pbt::check_eq(static_cast<bool>(got.main_sound()), static_cast<bool>(find(SOUND)), where + ": has sound");
		pbt::check_eq(static_cast<bool>(got.main_subtitle()), static_cast<bool>(find(SUBTITLE)), where + ": has subtitle");
		pbt::check_eq(static_cast<bool>(got.main_caption()), static_cast<bool>(find(CAPTION)), where + ": has caption");
		pbt::check_eq(static_cast<bool>(got.main_markers()), static_cast<bool>(find(MARKERS)), where + ": has markers");
		pbt::check_eq(static_cast<bool>(got.atmos()), static_cast<bool>(find(ATMOS)), where + ": has atmos");
		pbt::check_eq(got.closed_subtitles().size(), ordered({CLOSED_SUBTITLE}).size(), where + ": number of closed subtitles");
		pbt::check_eq(got.closed_captions().size(), ordered({CLOSED_CAPTION}).size(), where + ": number of closed captions");
		auto f = files();
		auto gf = got.file_assets();
		pbt::check_eq(gf.size(), f.size(), where + ": number of file assets");
		for (size_t i = 0; i < f.size(); ++i) {
			f[i]->compare(gf[i], where);
		}
		if (auto m = find(MARKERS)) {
			m->compare(got.main_markers(), where);
		}
		pbt::check_eq(got.any_encrypted(), any_encrypted(), where + ": any encrypted");
		pbt::check_eq(got.all_encrypted(), all_encrypted(), where + ": all encrypted");
		pbt::check_eq(got.duration(), duration(), where + ": duration");
	}
};

struct Extension
{
	std::string scope, name;
	std::vector<std::pair<std::string, std::string>> properties;
};

struct MCA
{
	std::string tag, instance, dictionary, link, symbol;
	opt<std::string> name, channel, language, group;
};

struct Metadata
{
	std::string id;
	int num = 24, den = 1;
	int64_t intrinsic = 1;
	std::string title;
	opt<std::string> title_language;
	opt<std::string> territory, territory_scope;
	opt<int> version;
	opt<std::string> status;
	opt<std::string> chain, distributor, facility;
	std::vector<std::pair<std::string, std::string>> versions;
	opt<std::pair<int, std::string>> luminance;  ///< in thousandths
	std::string sound;
	int sample_rate = 48000;
	int sw = 1998, sh = 1080, aw = 1998, ah = 1080;
	std::vector<std::string> languages;  ///< additional ones
	std::vector<Extension> extensions;
	std::vector<MCA> mca;
};

struct CPL
{
	dcp::Standard standard = dcp::Standard::SMPTE;
	std::string id, issuer, creator, date, title;
	opt<std::string> annotation;
	std::string kind;
	opt<std::string> kind_scope;
	opt<std::pair<std::string, std::string>> version;
	std::vector<std::pair<std::string, std::string>> ratings;
	std::vector<Reel> reels;
	opt<Metadata> meta;

	opt<std::string> first_language() const
	{
		for (auto const& r: reels) {
			if (auto s = r.find(SUBTITLE)) {
				if (s->language) {
					return s->language;
				}
			}
		}
		return {};
	}

	static std::string version_xml(std::pair<std::string, std::string> v)
	{
		return "<ContentVersion>" + tag("Id", v.first) + tag("LabelText", v.second) + "</ContentVersion>\n";
	}

	std::string meta_xml() const
	{
		if (!meta) {
			return "";
		}
		auto const& m = *meta;
		std::string x = "<meta:CompositionMetadataAsset xmlns:meta=\"http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata\">" + tag("Id", "urn:uuid:" + m.id)
			+ tag("EditRate", std::to_string(m.num) + " " + std::to_string(m.den)) + tag("IntrinsicDuration", std::to_string(m.intrinsic));
		x += tag("meta:FullContentTitleText" + (m.title_language ? " language=\"" + escape(*m.title_language) + "\"" : std::string()), m.title);
		if (m.territory) {
			x += tag("meta:ReleaseTerritory" + (m.territory_scope ? " scope=\"" + escape(*m.territory_scope) + "\"" : std::string()), *m.territory);
		}
		if (m.version) {
			x += tag("meta:VersionNumber" + (m.status ? " status=\"" + escape(*m.status) + "\"" : std::string()), std::to_string(*m.version));
		}
		if (m.chain) {
			x += tag("meta:Chain", *m.chain);
		}
		if (m.distributor) {
			x += tag("meta:Distributor", *m.distributor);
		}
		if (m.facility) {
			x += tag("meta:Facility", *m.facility);
		}
		if (!m.versions.empty()) {
			x += "<meta:AlternateContentVersionList>";
			for (auto const& v: m.versions) {
				x += version_xml(v);
			}
			x += "</meta:AlternateContentVersionList>";
		}
		if (m.luminance) {
			char b[32];
			snprintf(b, sizeof(b), "%d.%03d", m.luminance->first / 1000, m.luminance->first % 1000);
			x += tag("meta:Luminance units=\"" + m.luminance->second + "\"", b);
		}
		x += tag("meta:MainSoundConfiguration", m.sound) + tag("meta:MainSoundSampleRate", std::to_string(m.sample_rate) + " 1");
		x += "<meta:MainPictureStoredArea>" + tag("meta:Width", std::to_string(m.sw)) + tag("meta:Height", std::to_string(m.sh)) + "</meta:MainPictureStoredArea>";
		x += "<meta:MainPictureActiveArea>" + tag("meta:Width", std::to_string(m.aw)) + tag("meta:Height", std::to_string(m.ah)) + "</meta:MainPictureActiveArea>";
		auto langs = m.languages;
		if (auto f = first_language()) {
			langs.insert(langs.begin(), *f);
		}
		if (!langs.empty()) {
			std::string all;
			for (auto const& l: langs) {
				all += (all.empty() ? "" : " ") + l;
			}
			x += tag("meta:MainSubtitleLanguageList", all);
		}
		if (!m.extensions.empty()) {
			x += "<meta:ExtensionMetadataList>";
			for (auto const& e: m.extensions) {
				x += "<meta:ExtensionMetadata scope=\"" + escape(e.scope) + "\">" + tag("meta:Name", e.name) + "<meta:PropertyList>";
				for (auto const& p: e.properties) {
					x += "<meta:Property>" + tag("meta:Name", p.first) + tag("meta:Value", p.second) + "</meta:Property>";
				}
				x += "</meta:PropertyList></meta:ExtensionMetadata>";
			}
			x += "</meta:ExtensionMetadataList>";
		}
		if (!m.mca.empty()) {
			x += "<mca:MCASubDescriptors xmlns:mca=\"http://isdcf.com/ns/cplmd/mca\" xmlns:r0=\"http://www.smpte-ra.org/reg/395/2014/13/1/aaf\" xmlns:r1=\"http://www.smpte-ra.org/reg/335/2012\">\n";
			for (auto const& d: m.mca) {
				x += "<r0:" + d.tag + ">" + tag("r1:InstanceID", "urn:uuid:" + d.instance) + tag("r1:MCALabelDictionaryID", d.dictionary) + tag("r1:MCALinkID", "urn:uuid:" + d.link) + tag("r1:MCATagSymbol", d.symbol);
				if (d.name) {
					x += tag("r1:MCATagName", *d.name);
				}
				if (d.channel) {
					x += tag("r1:MCAChannelID", *d.channel);
				}
				if (d.language) {
					x += tag("r1:RFC5646SpokenLanguage", *d.language);
				}
				if (d.group) {
					x += tag("r1:SoundfieldGroupLinkID", "urn:uuid:" + *d.group);
				}
				x += "</r0:" + d.tag + ">\n";
			}
			x += "</mca:MCASubDescriptors>";
		}
		return x + "</meta:CompositionMetadataAsset>\n";
	}

	std::string xml() const
	{
		std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<CompositionPlaylist xmlns=\"";
		x += standard == dcp::Standard::SMPTE ? "http://www.smpte-ra.org/schemas/429-7/2006/CPL" : "http://www.digicine.com/PROTO-ASDCP-CPL-20040511#";
		x += "\">\n" + tag("Id", "urn:uuid:" + id);
		if (annotation) {
			x += tag("AnnotationText", *annotation);
		}
		x += tag("IssueDate", date) + tag("Issuer", issuer) + tag("Creator", creator) + tag("ContentTitleText", title);
		x += tag("ContentKind" + (kind_scope ? " scope=\"" + escape(*kind_scope) + "\"" : std::string()), kind);
		if (version) {
			x += version_xml(*version);
		}
		x += "<RatingList>";
		for (auto const& r: ratings) {
			x += "<Rating>" + tag("Agency", r.first) + tag("Label", r.second) + "</Rating>";
		}
		x += "</RatingList><ReelList>\n";
		bool first = true;
		for (auto const& r: reels) {
			x += r.xml(standard, first ? meta_xml() : "");
			first = false;
		}
		return x + "</ReelList></CompositionPlaylist>\n";
	}

	/** Compare with a dcp::CPL.
	 *  @param profile Profile that the CPL should appear to have.
	 */
	void compare(dcp::CPL const& got, std::string where) const
	{
		using pbt::check_eq;
		auto const w = where + ": ";
		check_eq(got.standard() == dcp::Standard::SMPTE, standard == dcp::Standard::SMPTE, w + "is SMPTE");
		check_eq(got.id(), id, w + "ID");
		same(got.annotation_text(), annotation, w + "annotation text");
		check_eq(got.issuer(), issuer, w + "issuer");
		check_eq(got.creator(), creator, w + "creator");
		check_eq(got.content_title_text(), title, w + "content title text");
		check_eq(got.content_kind().name(), kind, w + "content kind");
		same(got.content_kind().scope(), kind_scope, w + "content kind scope");
		check_eq(got.ratings().size(), ratings.size(), w + "number of ratings");
		for (size_t i = 0; i < ratings.size(); ++i) {
			check_eq(got.ratings()[i].agency, ratings[i].first, w + "rating agency");
			check_eq(got.ratings()[i].label, ratings[i].second, w + "rating label");
		}
		check_eq(got.reels().size(), reels.size(), w + "number of reels");
		bool any = false, all = true;
		int64_t dur = 0;
		size_t files = 0;
		for (size_t i = 0; i < reels.size(); ++i) {
			reels[i].compare(*got.reels()[i], w + "reel " + std::to_string(i + 1));
			any = any || reels[i].any_encrypted();
			all = all && reels[i].all_encrypted();
			dur += reels[i].duration();
			files += reels[i].files().size();
		}
		check_eq(got.any_encrypted(), any, w + "any encrypted");
		check_eq(got.all_encrypted(), all, w + "all encrypted");
		check_eq(got.duration(), dur, w + "duration");
		check_eq(got.reel_file_assets().size(), files, w + "number of assets");

		std::vector<std::pair<std::string, std::string>> versions;
		if (version) {
			versions.push_back(*version);
		}
		if (meta) {
			versions.insert(versions.end(), meta->versions.begin(), meta->versions.end());
		}
		check_eq(got.content_versions().size(), versions.size(), w + "number of content versions");
		for (size_t i = 0; i < versions.size(); ++i) {
			check_eq(got.content_versions()[i].id, versions[i].first, w + "content version ID");
			check_eq(got.content_versions()[i].label_text, versions[i].second, w + "content version label");
		}
		check_eq(got.read_composition_metadata(), static_cast<bool>(meta), w + "has metadata");
		check_eq(static_cast<int>(got.profile()), static_cast<int>(!meta ? dcp::Profile::SMPTE_A : meta->mca.empty() ? dcp::Profile::SMPTE_BV20 : dcp::Profile::SMPTE_BV21), w + "profile");
		if (!meta) {
			check_eq(static_cast<bool>(got.main_sound_configuration()), false, w + "main sound configuration present");
			return;
		}
		auto const& m = *meta;
		same(got.full_content_title_text(), opt<std::string>(m.title), w + "full content title text");
		same(got.full_content_title_text_language(), m.title_language, w + "full content title text language");
		same(got.release_territory(), m.territory, w + "release territory");
		same(got.release_territory_scope(), m.territory_scope, w + "release territory scope");
		same(got.version_number(), m.version, w + "version number");
		same(got.status() ? opt<std::string>(dcp::status_to_string(*got.status())) : opt<std::string>(), m.status, w + "status");
		same(got.chain(), m.chain, w + "chain");
		same(got.distributor(), m.distributor, w + "distributor");
		same(got.facility(), m.facility, w + "facility");
		check_eq(static_cast<bool>(got.luminance()), static_cast<bool>(m.luminance), w + "has luminance");
		if (m.luminance) {
			pbt::check(std::fabs(got.luminance()->value() - m.luminance->first / 1000.0) < 1e-3, w + "luminance is " + pbt::show(got.luminance()->value()));
			check_eq(dcp::Luminance::unit_to_string(got.luminance()->unit()), m.luminance->second, w + "luminance unit");
		}
		check_eq(got.main_sound_configuration()->as_string(), m.sound, w + "main sound configuration");
		same(got.main_sound_sample_rate(), opt<int>(m.sample_rate), w + "main sound sample rate");
		check_eq(got.main_picture_stored_area()->width, m.sw, w + "stored width");
		check_eq(got.main_picture_stored_area()->height, m.sh, w + "stored height");
		check_eq(got.main_picture_active_area()->width, m.aw, w + "active width");
		check_eq(got.main_picture_active_area()->height, m.ah, w + "active height");
		check_eq(pbt::show(got.additional_subtitle_languages()), pbt::show(m.languages), w + "additional subtitle languages");
		auto ext = [&](std::string scope, std::string name, std::string property) -> opt<std::string> {
			for (auto const& e: m.extensions) {
				if (e.scope == scope && e.name == name) {
					for (auto const& p: e.properties) {
						if (p.first == property) {
							return p.second;
						}
					}
				}
			}
			return {};
		};
		same(got.sign_language_video_language(), ext("http://isdcf.com/2017/10/SignLanguageVideo", "Sign Language Video", "Language Tag"), w + "sign language video language");
		same(got.dolby_edr_image_transfer_function(), ext("http://www.dolby.com/schemas/2014/EDR-Metadata", "Dolby EDR", "image transfer function"), w + "Dolby EDR image transfer function");
	}
};

struct Bounds
{
	int max_reels = 3;
	bool fractional = true;   ///< allow edit rates which are not whole numbers
};

inline opt<std::string> maybe_text(pbt::Src& s, int min = 1)
{
	return s.boolean() ? opt<std::string>(full::text(s, min, 6)) : opt<std::string>();
}

inline Asset asset(pbt::Src& s, Kind k, dcp::Standard standard, Bounds const& b)
{
	Asset a;
	a.kind = k;
	a.id = full::uuid(s);
	a.annotation = s.chance(30) ? opt<std::string>(full::text(s, 1, 5)) : opt<std::string>();
	a.num = s.pick<int>({ 24, 25, 30, 48, 60, 96, 120, 1 });
	if (b.fractional && s.chance(15)) {
		a.num = s.pick<int>({ 24000, 30000, 60000, 48 });
		a.den = s.pick<int>({ 1001, 2, 7 });
	}
	a.intrinsic = static_cast<int64_t>(s.edgy(0, 20000000000ULL, { 24, 86400, 0x7fffffff, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL }));
	if (s.chance(70)) {
		a.entry = static_cast<int64_t>(s.chance(50) ? 0 : s.draw(a.intrinsic));
	}
	if (s.chance(70)) {
		a.duration = static_cast<int64_t>(s.chance(50) ? a.intrinsic - a.entry.get_value_or(0) : s.draw(a.intrinsic - a.entry.get_value_or(0)));
	}
	if (k == MARKERS) {
		for (auto m: { "FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC", "FFMC", "LFMC", "FFOB", "LFOB" }) {
			if (s.chance(30)) {
				a.markers[m] = static_cast<int64_t>(s.edgy(0, 4000000, { 1, 23, 24, 25, 86399, 86400, 172799 }));
			}
		}
		return a;
	}
	if (s.chance(40)) {
		a.key = full::uuid(s);
	}
	if (s.chance(60)) {
		a.hash = s.str("ABCabc0189+/", 27, 27) + "=";
	}
	if (k == MONO || k == STEREO) {
		a.fps = s.pick<int>({ 24, 25, 30, 48, 60, 96, 120 });
		if (standard == dcp::Standard::SMPTE) {
			a.sar_x = static_cast<int>(s.skewed(1, 8192));
			a.sar_y = static_cast<int>(s.skewed(1, 8192));
		} else {
			a.sar_x = s.pick<int>({ 1330, 1660, 1770, 1850, 2000, 2390 });
			a.sar_y = 1000;
		}
	}
	if (a.text() && s.chance(60)) {
		a.language = s.pick(tags());
	}
	return a;
}

inline Reel reel(pbt::Src& s, dcp::Standard standard, Bounds const& b)
{
	Reel r;
	r.id = full::uuid(s);
	std::vector<Kind> kinds;
	switch (s.weighted({ 5, 2, 1 })) {
	case 0: kinds.push_back(MONO); break;
	case 1: kinds.push_back(STEREO); break;
	case 2: break;
	}
	if (s.chance(70)) { kinds.push_back(SOUND); }
	if (s.chance(40)) { kinds.push_back(SUBTITLE); }
	if (standard == dcp::Standard::SMPTE) {
		if (s.chance(25)) { kinds.push_back(CAPTION); }
		for (int n = 0; s.more(n, 0, 2, 25); ++n) { kinds.push_back(CLOSED_SUBTITLE); }
	}
	for (int n = 0; s.more(n, 0, 3, 30); ++n) { kinds.push_back(CLOSED_CAPTION); }
	if (s.chance(25)) { kinds.push_back(ATMOS); }
	if (s.chance(40)) { kinds.push_back(MARKERS); }
	if (kinds.empty()) {
		kinds.push_back(SOUND);
	}
	for (auto k: kinds) {
		r.assets.push_back(asset(s, k, standard, b));
	}
	return r;
}

inline Metadata metadata(pbt::Src& s, CPL const& cpl)
{
	Metadata m;
	m.id = full::uuid(s);
	m.num = s.pick<int>({ 24, 25, 30, 48, 24000 });
	m.den = m.num == 24000 ? 1001 : 1;
	m.intrinsic = static_cast<int64_t>(s.skewed(1, 10000000000ULL));
	m.title = full::text(s, 0, 6);
	if (s.boolean()) { m.title_language = s.pick(tags()); }
	if (s.boolean()) {
		m.territory = s.pick<std::string>({ "001", "US", "GB", "DE", "419" });
		m.territory_scope = s.chance(30) ? opt<std::string>("http://example.com/" + full::text(s, 0, 3)) : opt<std::string>();
	}
	if (s.boolean()) {
		m.version = static_cast<int>(s.skewed(0, 0x7fffffff));
		if (s.boolean()) { m.status = s.pick<std::string>({ "final", "temp", "pre" }); }
	}
	m.chain = maybe_text(s);
	m.distributor = maybe_text(s);
	m.facility = maybe_text(s);
	if (cpl.version) {
		for (int n = 0; s.more(n, 0, 3, 40); ++n) {
			m.versions.push_back({ "urn:uuid:" + full::uuid(s), full::text(s, 1, 5) });
		}
	}
	if (s.boolean()) {
		m.luminance = std::make_pair(static_cast<int>(s.skewed(0, 200000)), s.pick<std::string>({ "candela-per-square-metre", "foot-lambert" }));
	}
	m.sound = s.pick<std::string>({ "51/L,R,C,LFE,Ls,Rs", "71/L,R,C,LFE,Lss,Rss,HI,VIN,-,-,Lrs,Rrs", "51/L,-,C", "51/L,R,C,LFE,Ls,Rs,HI,VIN,-,-,-,-,DBOX,FSKSync,SLVS,-", "71/-" });
	m.sample_rate = s.pick<int>({ 48000, 96000 });
	m.sw = static_cast<int>(s.skewed(1, 9000));
	m.sh = static_cast<int>(s.skewed(1, 9000));
	m.aw = static_cast<int>(s.skewed(0, 4500)) * 2;
	m.ah = static_cast<int>(s.skewed(0, 4500)) * 2;
	for (int n = 0; s.more(n, 0, 3, 40); ++n) {
		m.languages.push_back(s.pick(tags()));
	}
	auto extension = [&](std::string scope, std::string name, std::string property, std::string value) {
		m.extensions.push_back({ scope, name, { { property, value } } });
	};
	if (s.boolean()) { extension("http://isdcf.com/ns/cplmd/app", "Application", "DCP Constraints Profile", "SMPTE-RDD-52:2020-Bv2.1"); }
	if (s.chance(30)) { extension("http://isdcf.com/2017/10/SignLanguageVideo", "Sign Language Video", "Language Tag", s.pick(tags())); }
	if (s.chance(30)) { extension("http://www.dolby.com/schemas/2014/EDR-Metadata", "Dolby EDR", "image transfer function", full::text(s, 1, 5)); }
	if (s.chance(30)) {
		Extension e;
		e.scope = full::text(s, 1, 4);
		e.name = full::text(s, 0, 4);
		for (int n = 0; s.more(n, 0, 3, 50); ++n) {
			e.properties.push_back({ full::text(s, 0, 4), full::text(s, 0, 4) });
		}
		m.extensions.push_back(e);
	}
	if (s.chance(40)) {
		for (int n = 0; s.more(n, 1, 4, 50); ++n) {
			MCA d;
			d.tag = n == 0 ? "SoundfieldGroupLabelSubDescriptor" : "AudioChannelLabelSubDescriptor";
			d.instance = full::uuid(s);
			d.dictionary = "urn:smpte:ul:060e2b34.0401010d.03020101." + s.str("0123456789abcdef", 8, 8);
			d.link = full::uuid(s);
			d.symbol = full::text(s, 1, 4);
			d.name = maybe_text(s);
			if (s.boolean()) { d.channel = std::to_string(s.irange(1, 16)); }
			if (s.boolean()) { d.language = s.pick(tags()); }
			if (s.boolean()) { d.group = full::uuid(s); }
			m.mca.push_back(d);
		}
	}
	return m;
}

inline CPL cpl(pbt::Src& s, Bounds const& b = Bounds())
{
	CPL c;
	c.standard = s.chance(70) ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	c.id = full::uuid(s);
	c.issuer = full::text(s, 0, 6);
	c.creator = full::text(s, 0, 6);
	c.date = "2024-0" + std::to_string(s.irange(1, 9)) + "-17T0" + std::to_string(s.irange(0, 9)) + ":00:00+00:00";
	c.title = full::text(s, 0, 8);
	if (s.chance(80)) {
		c.annotation = full::text(s, 0, 8);
	}
	c.kind = s.pick<std::string>({ "feature", "short", "trailer", "test", "transitional", "rating", "teaser", "policy", "psa", "advertisement", "episode", "promo", "clip" });
	if (s.chance(30)) {
		c.kind_scope = "http://" + full::text(s, 1, 4);
		c.kind = full::text(s, 1, 5);
	}
	if (s.chance(90)) {
		c.version = std::make_pair("urn:uuid:" + full::uuid(s), full::text(s, 1, 6));
	}
	for (int n = 0; s.more(n, 0, 3, 40); ++n) {
		c.ratings.push_back({ "http://" + full::text(s, 0, 4), full::text(s, 1, 3) });
	}
	for (int n = 0; s.more(n, 1, b.max_reels, 50); ++n) {
		c.reels.push_back(reel(s, c.standard, b));
	}
	if (c.standard == dcp::Standard::SMPTE && s.chance(60)) {
		c.meta = metadata(s, c);
	}
	return c;
}

}

#endif
