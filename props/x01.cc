/* CPLs: reading, writing and comparing */

#include "cplmodel.h"
#include "mono_j2k_picture_asset.h"
#include "mono_mpeg2_picture_asset.h"
#include "stereo_j2k_picture_asset.h"
#include "equality_options.h"
#include "exceptions.h"
#include <libxml++/libxml++.h>
#include <set>

using namespace pbt;

static full::Setup setup;

static void describe(Src& s, model::CPL const& c)
{
	s.note("standard", c.standard == dcp::Standard::SMPTE ? "SMPTE" : "Interop");
	s.note("title", c.title);
	std::string k;
	for (auto const& r: c.reels) {
		k += "[";
		for (auto const& a: r.assets) {
			k += std::string(model::kind_name(a.kind)) + (a.key ? "*" : "") + " ";
		}
		k += "]";
	}
	s.note("reels", k);
	s.note("metadata", c.meta ? c.meta->title + " " + show(c.meta->languages) : "none");
	s.nontrivial_if(c.reels.size() > 1 || c.meta);
}

static std::string put(Src& s, std::string name, std::string text)
{
	auto f = s.scratch() + "/" + name;
	dcp::write_string_to_file(text, f);
	return f;
}

static std::shared_ptr<dcp::CPL> read(std::string file)
{
	std::vector<dcp::VerificationNote> notes;
	return std::make_shared<dcp::CPL>(file, &notes);
}

static void flatten(xmlpp::Node* node, std::string within, bool in, std::string& out)
{
	auto e = dynamic_cast<xmlpp::Element*>(node);
	if (!e) {
		auto t = dynamic_cast<xmlpp::ContentNode*>(node);
		if (in && t && t->get_content().find_first_not_of(" \n\t") != Glib::ustring::npos) {
			out += "'" + t->get_content() + "'";
		}
		return;
	}
	in = in || e->get_name() == within;
	if (in) {
		out += "<" + e->get_name() + ">";
		if (auto a = e->get_attribute("scope")) {
			out += "[" + a->get_value() + "]";
		}
	}
	for (auto c: e->get_children()) {
		flatten(c, within, in, out);
	}
	if (in) {
		out += "\n";
	}
}

/** Names, scopes and text of all the elements inside a particular one, regardless of their namespaces */
static std::string flatten(std::string file, std::string within)
{
	xmlpp::DomParser parser(file);
	std::string out;
	flatten(parser.get_document()->get_root_node(), within, false, out);
	return out;
}

static Register encoding("encoding", 3000, 60000, "pictures of more than one kind", [](Src& s) {
	auto const file = put(s, "picture", "x");
	dcp::CPL cpl("", dcp::ContentKind::FEATURE, dcp::Standard::INTEROP);
	std::set<dcp::PictureEncoding> used;
	std::string text;
	for (int n = 0; s.more(n, 0, 5, 70); ++n) {
		auto reel = std::make_shared<dcp::Reel>();
		auto want = dcp::PictureEncoding::NO_VIDEO;
		std::shared_ptr<dcp::PictureAsset> picture;
		dcp::Fraction const rate(24, 1);
		switch (s.weighted({3, 3, 1, 1})) {
		case 0: picture = std::make_shared<dcp::MonoJ2KPictureAsset>(rate, dcp::Standard::INTEROP); want = dcp::PictureEncoding::JPEG2000; break;
		case 1: picture = std::make_shared<dcp::MonoMPEG2PictureAsset>(rate); want = dcp::PictureEncoding::MPEG2; break;
		case 2: picture = std::make_shared<dcp::StereoJ2KPictureAsset>(rate, dcp::Standard::INTEROP); want = dcp::PictureEncoding::JPEG2000; break;
		}
		text += std::to_string(static_cast<int>(want));
		if (picture) {
			picture->set_file(file);
			if (auto stereo = std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(picture)) {
				reel->add(std::make_shared<dcp::ReelStereoPictureAsset>(stereo, 0));
			} else {
				reel->add(std::make_shared<dcp::ReelMonoPictureAsset>(picture, 0));
			}
			used.insert(want);
		}
		check(reel->picture_encoding() == want, "encoding of reel " + std::to_string(n));
		cpl.add(reel);
	}
	s.note("encodings", text);
	s.nontrivial_if(used.size() > 1);
	auto const want = used.empty() ? dcp::PictureEncoding::NO_VIDEO : (used.size() == 1 ? *used.begin() : dcp::PictureEncoding::MIXED);
	check(cpl.picture_encoding() == want, "encoding of CPL");
});

/* What is in the file, however it was written, is what is read, and what is read is what is written */
static Register round_trip("round_trip", 3500, 60000, "more than one reel, or metadata", [](Src& s) {
	auto const m = model::cpl(s);
	describe(s, m);
	auto cpl = read(put(s, "a.xml", m.xml()));
	m.compare(*cpl, "read");
	if (!m.version) {
		/* One will be made up */
		return;
	}
	auto const b = s.scratch() + "/b.xml";
	cpl->write_xml(b, {});
	check_eq(cpl->file()->string(), b, "file that the CPL says it was written to");
	auto again = read(b);
	m.compare(*again, "written and read");
	for (auto n: { "ExtensionMetadataList", "MCASubDescriptors" }) {
		check_eq(flatten(b, n), flatten(s.scratch() + "/a.xml", n), std::string(n) + " written");
	}
	auto const c = s.scratch() + "/c.xml";
	again->write_xml(c, {});
	check_eq(dcp::file_to_string(c, 10000000), dcp::file_to_string(b, 10000000), "CPL written again");
	auto quiet = [](dcp::NoteType, std::string) {};
	check(cpl->equals(again, dcp::EqualityOptions(), quiet) && again->equals(cpl, dcp::EqualityOptions(), quiet), "CPL is not equal to itself after writing and reading");
});

/* Things that are set are what is read after writing */
static Register set_and_write("set_and_write", 2500, 40000, "more than one reel, or metadata", [](Src& s) {
	auto m = model::cpl(s);
	if (m.standard == dcp::Standard::INTEROP && m.meta) {
		m.meta = boost::none;
	}
	describe(s, m);
	auto const profile = s.boolean() ? dcp::Profile::SMPTE_BV21 : dcp::Profile::SMPTE_BV20;

	/* Reels come from a CPL, in one of two ways */
	auto bare = m;
	bare.meta = boost::none;
	auto source = read(put(s, "a.xml", bare.xml()));
	std::vector<std::shared_ptr<dcp::Reel>> reels;
	if (s.boolean()) {
		reels = source->reels();
	} else {
		for (size_t i = 0; i < source->reels().size(); ++i) {
			auto r = source->reels()[i];
			auto n = std::make_shared<dcp::Reel>();
			std::vector<std::shared_ptr<dcp::ReelAsset>> assets;
			for (auto j: r->file_assets()) {
				assets.push_back(j);
			}
			if (r->main_markers()) {
				assets.push_back(r->main_markers());
			}
			/* Order only matters between captions of the same type */
			if (s.boolean()) {
				std::stable_sort(assets.begin(), assets.end(), [](std::shared_ptr<dcp::ReelAsset> a, std::shared_ptr<dcp::ReelAsset> b) {
					return !std::dynamic_pointer_cast<dcp::ReelTextAsset>(a) && std::dynamic_pointer_cast<dcp::ReelTextAsset>(b);
				});
			}
			for (auto a: assets) {
				n->add(a);
			}
			m.reels[i].id = n->id();
			reels.push_back(n);
		}
	}

	dcp::CPL cpl("annotation", dcp::ContentKind::TRAILER, m.standard, profile);
	check_eq(cpl.content_title_text(), std::string("annotation"), "default title");
	check_eq(cpl.issuer(), std::string("libdcp devel"), "default issuer");
	check_eq(cpl.creator(), std::string("libdcp devel"), "default creator");
	m.id = cpl.id();
	bool threw = false;
	try {
		cpl.write_xml(s.scratch() + "/none.xml", {});
	} catch (dcp::NoReelsError&) {
		threw = true;
	}
	check(threw, "CPL with no reels written");
	if (s.boolean()) {
		cpl.set(reels);
	} else {
		for (auto r: reels) {
			cpl.add(r);
		}
	}

	if (!m.annotation) {
		m.annotation = "annotation";
	} else {
		cpl.set_annotation_text(*m.annotation);
	}
	cpl.set_issuer(m.issuer);
	cpl.set_creator(m.creator);
	cpl.set_issue_date(m.date);
	cpl.set_content_title_text(m.title);
	cpl.set_content_kind(dcp::ContentKind(m.kind, m.kind_scope));
	std::vector<dcp::Rating> ratings;
	for (auto const& r: m.ratings) {
		ratings.push_back(dcp::Rating(r.first, r.second));
	}
	cpl.set_ratings(ratings);
	if (!m.version) {
		m.version = std::make_pair(cpl.content_version()->id, cpl.content_version()->label_text);
	}
	std::vector<dcp::ContentVersion> versions;
	versions.push_back(dcp::ContentVersion(m.version->first, m.version->second));
	if (m.meta) {
		for (auto const& v: m.meta->versions) {
			versions.push_back(dcp::ContentVersion(v.first, v.second));
		}
	}
	if (versions.size() == 1 && s.boolean()) {
		cpl.set_content_version(versions[0]);
	} else {
		cpl.set_content_versions(versions);
		versions.push_back(versions[s.draw(versions.size() - 1)]);
		threw = false;
		try {
			cpl.set_content_versions(versions);
		} catch (dcp::DuplicateIdError&) {
			threw = true;
		}
		check(threw, "content versions with the same ID accepted");
	}

	if (m.meta) {
		auto& t = *m.meta;
		cpl.set_full_content_title_text(t.title);
		if (t.title_language) { cpl.set_full_content_title_text_language(dcp::LanguageTag(*t.title_language)); }
		if (t.territory) { cpl.set_release_territory(dcp::LanguageTag::RegionSubtag(*t.territory)); }
		t.territory_scope = boost::none;
		if (s.chance(20)) {
			threw = false;
			try {
				cpl.set_version_number(-s.irange(1, 1000));
			} catch (dcp::BadSettingError&) {
				threw = true;
			}
			check(threw, "negative version number accepted");
		}
		if (t.version) {
			cpl.set_version_number(*t.version);
		} else if (s.boolean()) {
			cpl.set_version_number(4);
			cpl.unset_version_number();
		}
		if (t.status) { cpl.set_status(dcp::string_to_status(*t.status)); }
		if (t.chain) { cpl.set_chain(*t.chain); }
		if (t.distributor) { cpl.set_distributor(*t.distributor); }
		if (t.facility) { cpl.set_facility(*t.facility); }
		if (t.luminance) {
			cpl.set_luminance(dcp::Luminance(t.luminance->first / 1000.0f, t.luminance->second == "foot-lambert" ? dcp::Luminance::Unit::FOOT_LAMBERT : dcp::Luminance::Unit::CANDELA_PER_SQUARE_METRE));
		}
		std::vector<dcp::LanguageTag> langs;
		for (auto const& l: t.languages) {
			langs.push_back(dcp::LanguageTag(l));
		}
		cpl.set_additional_subtitle_languages(langs);
		std::vector<model::Extension> ext;
		for (auto const& e: t.extensions) {
			if (e.name == "Sign Language Video") {
				cpl.set_sign_language_video_language(dcp::LanguageTag(e.properties[0].second));
				ext.push_back(e);
			} else if (e.name == "Dolby EDR") {
				cpl.set_dolby_edr_image_transfer_function("something else");
				cpl.set_dolby_edr_image_transfer_function(e.properties[0].second);
				ext.push_back(e);
			}
		}
		t.extensions = ext;
		t.mca.clear();
		/* The metadata's time comes from the first picture; there is none without a picture, or without any of the compulsory parts */
		auto pic = m.reels[0].find(model::MONO) ? m.reels[0].find(model::MONO) : m.reels[0].find(model::STEREO);
		int const omit = s.chance(25) ? s.irange(0, 3) : 4;
		if (omit != 0) { cpl.set_main_sound_configuration(dcp::MainSoundConfiguration(t.sound)); }
		if (omit != 1) { cpl.set_main_sound_sample_rate(t.sample_rate); }
		if (omit != 2) { cpl.set_main_picture_stored_area(dcp::Size(t.sw, t.sh)); }
		if (omit != 3) {
			threw = false;
			try {
				cpl.set_main_picture_active_area(s.boolean() ? dcp::Size(t.aw + 1, t.ah) : dcp::Size(t.aw, t.ah + 1));
			} catch (dcp::BadSettingError&) {
				threw = true;
			}
			check(threw, "odd active area accepted");
			cpl.set_main_picture_active_area(dcp::Size(t.aw, t.ah));
		}
		if (profile == dcp::Profile::SMPTE_BV21 && m.reels[0].find(model::SOUND) && pic && omit == 4) {
			/* Sound is looked at for channel labels, but it is not here */
			threw = false;
			try {
				cpl.write_xml(s.scratch() + "/none.xml", {});
			} catch (dcp::UnresolvedRefError&) {
				threw = true;
			}
			check(threw, "CPL written without the channel labels of its sound");
			return;
		}
		if (!pic || omit != 4) {
			m.meta = boost::none;
		}
	}
	auto const b = s.scratch() + "/b.xml";
	cpl.write_xml(b, {});
	auto again = read(b);
	m.compare(*again, "set and written");
});

/* CPLs are equal if and only if nothing of what matters differs */
static Register equality("equality", 2500, 40000, "something differs", [](Src& s) {
	auto const m = model::cpl(s);
	auto o = m;
	bool same = true;
	dcp::EqualityOptions opt;
	opt.cpl_annotation_texts_can_differ = s.boolean();
	opt.reel_annotation_texts_can_differ = s.boolean();
	opt.reel_hashes_can_differ = s.boolean();
	std::string what = "nothing";
	auto& r = o.reels[s.draw(o.reels.size() - 1)];
	auto& a = r.assets[s.draw(r.assets.size() - 1)];
	auto const other = [](boost::optional<std::string> x) { return boost::optional<std::string>(x.get_value_or("") + "z"); };
	switch (s.draw(15)) {
	case 0: break;
	case 1: o.annotation = other(o.annotation); same = opt.cpl_annotation_texts_can_differ; what = "CPL annotation text"; break;
	case 2: o.kind += "z"; same = false; what = "content kind"; break;
	case 3: o.kind_scope = other(o.kind_scope); same = false; what = "content kind scope"; break;
	case 4: o.reels.push_back(o.reels.back()); same = false; what = "number of reels"; break;
	case 5: a.annotation = other(a.annotation); same = opt.reel_annotation_texts_can_differ; what = "reel annotation text"; break;
	case 6: if (a.kind != model::MARKERS) { a.num++; } else { a.den++; } same = false; what = "edit rate"; break;
	case 7: a.intrinsic++; same = false; what = "intrinsic duration"; break;
	case 8: a.entry = a.entry ? boost::optional<int64_t>() : boost::optional<int64_t>(0); same = false; what = "presence of entry point"; break;
	case 9: a.entry = a.entry.get_value_or(0) + 1; same = false; what = "entry point"; break;
	case 10: a.duration = a.duration.get_value_or(0) + 1; same = false; what = "duration"; break;
	case 11:
		if (a.kind != model::MARKERS) {
			a.hash = other(a.hash);
			same = opt.reel_hashes_can_differ;
			what = "hash";
		} else {
			auto& t = a.markers[s.pick<std::string>({ "FFOC", "LFOC", "FFTC", "LFTC", "FFOI", "LFOI", "FFEC", "LFEC", "FFMC", "LFMC", "FFOB", "LFOB" })];
			t += 24;
			same = false;
			what = "marker";
		}
		break;
	case 12:
		if (a.kind == model::MONO || a.kind == model::STEREO) {
			a.fps++;
			same = false;
			what = "frame rate";
		}
		break;
	case 13:
		if (a.kind == model::MONO || a.kind == model::STEREO) {
			a.sar_x += 10;
			same = false;
			what = "screen aspect ratio";
		}
		break;
	case 14:
		if (r.assets.size() > 1) {
			auto const k = s.draw(r.assets.size() - 1);
			what = std::string("presence of ") + model::kind_name(r.assets[k].kind);
			r.assets.erase(r.assets.begin() + k);
			same = false;
		}
		break;
	case 15:
		/* Things that don't matter */
		o.id = full::uuid(s);
		o.title += "z";
		o.issuer += "z";
		o.creator += "z";
		o.date = "2001-01-01T00:00:00+00:00";
		what = "issuer, title etc.";
		break;
	}
	s.note("difference", what);
	s.note("same", same);
	describe(s, m);
	s.label(what);
	s.nontrivial_if(what != "nothing");
	auto x = read(put(s, "a.xml", m.xml()));
	auto y = read(put(s, "b.xml", o.xml()));
	auto quiet = [](dcp::NoteType, std::string) {};
	check_eq(x->equals(y, opt, quiet), same, "equality of CPLs which differ in " + what);
	check_eq(y->equals(x, opt, quiet), same, "equality (the other way round) of CPLs which differ in " + what);
});
