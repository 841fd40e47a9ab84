/* Makes small but complete DCPs on disk, remembering what went into them */

#ifndef VERIF_PACKAGE_H
#define VERIF_PACKAGE_H

#include "full.h"
#include "media.h"
#include "array_data.h"
#include "atmos_asset.h"
#include "atmos_asset_writer.h"
#include "certificate_chain.h"
#include "cpl.h"
#include "dcp.h"
#include "equality_options.h"
#include "interop_text_asset.h"
#include "j2k_picture_asset_writer.h"
#include "mono_j2k_picture_asset.h"
#include "mono_mpeg2_picture_asset.h"
#include "mpeg2_picture_asset_writer.h"
#include "reel.h"
#include "reel_atmos_asset.h"
#include "reel_interop_text_asset.h"
#include "reel_markers_asset.h"
#include "reel_mono_picture_asset.h"
#include "reel_smpte_text_asset.h"
#include "reel_sound_asset.h"
#include "reel_stereo_picture_asset.h"
#include "smpte_text_asset.h"
#include "sound_asset.h"
#include "sound_asset_writer.h"
#include "stereo_j2k_picture_asset.h"
#include "text_image.h"
#include "text_string.h"
#include <openssl/evp.h>
#include <fstream>
#include <map>
#include <set>

namespace package {

using std::string;
using std::vector;
using std::shared_ptr;
using std::make_shared;
using boost::filesystem::path;

/** Base64-encoded SHA1 digest, found without the library's help */
inline string digest(string const& data)
{
	uint8_t d[EVP_MAX_MD_SIZE];
	unsigned int n = 0;
	EVP_Digest(data.data(), data.size(), d, &n, EVP_sha1(), nullptr);
	uint8_t b[64];
	EVP_EncodeBlock(b, d, n);
	return reinterpret_cast<char*>(b);
}

inline void put(path p, string x)
{
	std::ofstream f(p.string(), std::ios::binary);
	f << x;
}

/** Contents of all <name> elements in some XML */
inline vector<string> contents(string const& x, string name)
{
	vector<string> r;
	size_t i = 0;
	while ((i = x.find("<" + name + ">", i)) != string::npos) {
		i += name.size() + 2;
		auto const j = x.find("</" + name + ">", i);
		r.push_back(x.substr(i, j - i));
		i = j;
	}
	return r;
}

inline shared_ptr<dcp::CertificateChain> signer()
{
	static shared_ptr<dcp::CertificateChain> chain;
	if (!chain) {
		chain = make_shared<dcp::CertificateChain>(media::read_file(full::repo() + "/test/data/certificate_chain"));
		chain->set_key(media::read_file(full::repo() + "/test/data/private.key"));
	}
	return chain;
}

inline string const& image()
{
	static string data;
	if (data.empty()) {
		data = media::read_file(full::repo() + "/test/data/32x32_red_square.j2c");
	}
	return data;
}

enum Kind { MONO, STEREO, MPEG2, SOUND, TEXT, ATMOS, FONT, IMAGE, CPL };

inline char const* name(Kind k)
{
	static char const* n[] = { "mono", "stereo", "mpeg2", "sound", "text", "atmos", "font", "image", "cpl" };
	return n[k];
}

/** Something in the DCP apart from the PKL and the asset map */
struct File
{
	Kind kind;
	string id;
	path file;
	bool encrypted = false;
	shared_ptr<dcp::Asset> asset;
	media::Lock lock;
	int64_t length = 0;

	string type(dcp::Standard standard) const
	{
		bool const smpte = standard == dcp::Standard::SMPTE;
		switch (kind) {
		case MONO:
		case STEREO:
			return smpte ? "application/mxf" : "application/x-smpte-mxf;asdcpKind=Picture";
		case MPEG2:
			return "application/x-smpte-mxf;asdcpKind=Picture";
		case SOUND:
			return smpte ? "application/mxf" : "application/x-smpte-mxf;asdcpKind=Sound";
		case ATMOS:
			return "application/mxf";
		case TEXT:
			return smpte ? "application/mxf" : "text/xml;asdcpKind=Subtitle";
		case FONT:
			return "application/ttf";
		case IMAGE:
			return "image/png";
		case CPL:
			return smpte ? "text/xml" : "text/xml;asdcpKind=CPL";
		}
		return "";
	}
};

struct Options
{
	int encrypted = 20;
	int max_cpls = 3;
	int max_reels = 3;
	int reuse = 25;   ///< chance of using an existing asset rather than making another
	int outside = 0;  ///< chance of putting assets outside the DCP
	bool need_picture = true;
	boost::optional<dcp::Standard> standard;
};

class Package
{
public:
	path root;
	path outside;
	dcp::Standard standard;
	vector<File> files;
	vector<shared_ptr<dcp::CPL>> cpls;
	Options options;

	bool smpte() const { return standard == dcp::Standard::SMPTE; }

	File const* find(string id) const
	{
		for (auto const& f: files) {
			if (f.id == id) {
				return &f;
			}
		}
		return nullptr;
	}

	bool inside(File const& f) const
	{
		return f.file.string().compare(0, root.string().size() + 1, root.string() + "/") == 0;
	}

	void generate(pbt::Src& s, path where, Options o = Options())
	{
		options = o;
		root = where / s.pick({"dcp", "a dcp", "d\xc3\xa9p"});
		outside = where / "other";
		boost::filesystem::create_directories(root);
		boost::filesystem::create_directories(outside);
		Kumu::shim_seed(s.draw(0xffffffff));
		standard = o.standard ? *o.standard : (s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
		for (int n = 0; s.more(n, 1, o.max_cpls, 35); ++n) {
			make_cpl(s);
		}
	}

	shared_ptr<dcp::CPL> make_cpl(pbt::Src& s)
	{
		auto cpl = make_shared<dcp::CPL>(full::text(s, 1, 4), dcp::ContentKind::FEATURE, standard);
		if (s.boolean()) {
			cpl->set_annotation_text(full::text(s, 1, 4));
		}
		for (int n = 0; s.more(n, 1, options.max_reels, 40); ++n) {
			cpl->add(make_reel(s));
		}
		cpls.push_back(cpl);
		return cpl;
	}

	string describe() const
	{
		string d = smpte() ? "SMPTE" : "Interop";
		for (auto const& c: cpls) {
			d += "; CPL " + c->id().substr(0, 4);
			for (auto r: c->reels()) {
				d += " {";
				for (auto a: r->file_assets()) {
					auto f = find(a->asset_ref().id());
					d += string(" ") + (f ? name(f->kind) : "?") + ":" + a->id().substr(0, 4) + (f && f->encrypted ? "*" : "") + (f && !inside(*f) ? "^" : "");
				}
				d += " }";
			}
		}
		return d;
	}

	/** Do something with a particular asset, whatever it is */
	File& get(pbt::Src& s, Kind kind)
	{
		vector<size_t> same;
		for (size_t i = 0; i < files.size(); ++i) {
			if (files[i].kind == kind) {
				same.push_back(i);
			}
		}
		if (!same.empty() && s.chance(options.reuse)) {
			return files[s.pick(same)];
		}
		File f;
		f.kind = kind;
		auto dir = root;
		if (options.outside && s.chance(options.outside)) {
			dir = outside;
		}
		if (kind == TEXT && !smpte()) {
			/* These need their own directories as they all have the same names for their fonts */
			dir /= "text" + std::to_string(files.size());
		} else if (s.chance(20)) {
			dir /= s.pick({"sub", "a/b"});
		}
		boost::filesystem::create_directories(dir);
		f.file = dir / (string(name(kind)) + std::to_string(files.size()) + (kind == TEXT && !smpte() ? ".xml" : ".mxf"));
		if (!(kind == TEXT && !smpte())) {
			f.lock.generate(s, options.encrypted);
		}
		f.length = 1 + s.draw(3);
		auto const at = files.size();
		files.push_back(f);
		make(s, at);
		files[at].encrypted = static_cast<bool>(files[at].lock.key);
		files[at].id = files[at].asset->id();
		return files[at];
	}

private:
	void make(pbt::Src& s, size_t at)
	{
		auto& f = files[at];
		switch (f.kind) {
		case MONO:
		case STEREO: {
			shared_ptr<dcp::J2KPictureAsset> a;
			if (f.kind == MONO) {
				a = make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), standard);
			} else {
				a = make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), standard);
			}
			f.lock.apply(*a);
			auto w = a->start_write(f.file, dcp::Behaviour::MAKE_NEW);
			for (int i = 0; i < f.length * (f.kind == STEREO ? 2 : 1); ++i) {
				/* A real image, and something after it to make frames different */
				auto d = image();
				auto const extra = s.bytes(0, 20);
				d.append(extra.begin(), extra.end());
				w->write(reinterpret_cast<uint8_t const*>(d.data()), d.size());
			}
			w->finalize();
			f.asset = a;
			break;
		}
		case MPEG2: {
			auto a = make_shared<dcp::MonoMPEG2PictureAsset>(dcp::Fraction(24, 1));
			f.lock.apply(*a);
			auto w = a->start_write(f.file, dcp::Behaviour::MAKE_NEW);
			for (int i = 0; i < f.length; ++i) {
				media::Bytes const d = { 0, 0, 1, 0xb3, 4, 4, 64, 0x21, 0, 0, 0, 0, 0, 0, 1, 0xb8, 0, 8, 0, 0, 0, 0, 1, 0, 0, 8, 0, 0, uint8_t(1 + s.draw(200)) };
				w->write(d.data(), d.size());
			}
			w->finalize();
			f.asset = a;
			break;
		}
		case SOUND: {
			auto a = make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 48000, 2, dcp::LanguageTag("en"), standard);
			f.lock.apply(*a);
			auto w = a->start_write(f.file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
			vector<int32_t> d(2000 * f.length, s.draw(100000));
			int32_t const* p[] = { d.data(), d.data() };
			w->write(p, 2, d.size());
			w->finalize();
			f.asset = a;
			break;
		}
		case ATMOS: {
			auto a = make_shared<dcp::AtmosAsset>(dcp::Fraction(24, 1), 0, 1, 1, 1);
			f.lock.apply(*a);
			auto w = a->start_write(f.file);
			for (int i = 0; i < f.length; ++i) {
				auto const d = s.bytes(1, 30);
				w->write(d.data(), d.size());
			}
			w->finalize();
			f.asset = a;
			break;
		}
		case TEXT:
			make_text(s, at);
			break;
		default:
			break;
		}
	}

	void make_text(pbt::Src& s, size_t at)
	{
		shared_ptr<dcp::TextAsset> a;
		auto const file = files[at].file;
		if (smpte()) {
			auto sm = make_shared<dcp::SMPTETextAsset>();
			sm->set_content_title_text(full::text(s, 1, 3));
			sm->set_language(dcp::LanguageTag("de"));
			sm->set_reel_number(1 + s.draw(3));
			files[at].lock.apply(*sm);
			a = sm;
		} else {
			auto in = make_shared<dcp::InteropTextAsset>();
			in->set_language("German");
			in->set_movie_title(full::text(s, 1, 3));
			in->set_reel_number(std::to_string(1 + s.draw(3)));
			a = in;
		}
		vector<string> fonts;
		for (int n = 0; s.more(n, 0, 2, 50); ++n) {
			auto const d = s.bytes(1, 40);
			fonts.push_back("font" + std::to_string(n));
			a->add_font(fonts.back(), dcp::ArrayData(d.data(), d.size()));
		}
		for (int n = 0; s.more(n, 1, 3, 60); ++n) {
			/* Times that can be written exactly */
			int const tcr = smpte() ? 24 : 250;
			dcp::Time const in(0, 0, n * 2, 0, tcr);
			dcp::Time const out(0, 0, n * 2 + 1, s.draw(tcr - 1), tcr);
			if (s.chance(25)) {
				auto const d = s.bytes(1, 40);
				a->add(make_shared<dcp::TextImage>(dcp::ArrayData(d.data(), d.size()), in, out, 0, dcp::HAlign::CENTER, 0.5, dcp::VAlign::TOP, 0, vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time()));
			} else {
				boost::optional<string> font;
				if (!fonts.empty()) {
					font = s.pick(fonts);
				}
				a->add(make_shared<dcp::TextString>(
					font, s.boolean(), false, false, dcp::Colour(255, 255, 255), 42, 1, in, out, 0, dcp::HAlign::CENTER, 0.5, dcp::VAlign::TOP, 0,
					vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, full::text(s, 1, 4), dcp::Effect::NONE, dcp::Colour(0, 0, 0), dcp::Time(), dcp::Time(), 0, vector<dcp::Ruby>()
					));
			}
		}
		a->write(file);
		files[at].asset = a;
		if (!smpte()) {
			auto in = std::dynamic_pointer_cast<dcp::InteropTextAsset>(a);
			for (auto i: in->font_assets()) {
				File f;
				f.kind = FONT;
				f.id = i->id();
				f.file = *i->file();
				f.asset = i;
				files.push_back(f);
			}
			for (auto i: a->texts()) {
				if (auto im = std::dynamic_pointer_cast<const dcp::TextImage>(i)) {
					File f;
					f.kind = IMAGE;
					f.id = im->id();
					f.file = *im->file();
					files.push_back(f);
				}
			}
		}
	}

	shared_ptr<dcp::ReelTextAsset> reel_text(pbt::Src& s, dcp::TextType type)
	{
		auto& f = get(s, TEXT);
		auto asset = std::dynamic_pointer_cast<dcp::TextAsset>(f.asset);
		if (smpte()) {
			return make_shared<dcp::ReelSMPTETextAsset>(type, std::dynamic_pointer_cast<dcp::SMPTETextAsset>(asset), dcp::Fraction(24, 1), f.length, 0);
		}
		return make_shared<dcp::ReelInteropTextAsset>(type, asset, dcp::Fraction(24, 1), f.length, 0);
	}

	shared_ptr<dcp::Reel> make_reel(pbt::Src& s)
	{
		auto reel = make_shared<dcp::Reel>();
		auto shape = [&s](shared_ptr<dcp::ReelAsset> a) {
			if (s.chance(30)) {
				a->set_entry_point(s.draw(a->intrinsic_duration() - 1));
				a->set_duration(1 + s.draw(a->intrinsic_duration() - a->entry_point().get_value_or(0) - 1));
			}
			return a;
		};
		if (options.need_picture || s.chance(80)) {
			shared_ptr<dcp::ReelPictureAsset> p;
			switch (s.weighted({60, 25, smpte() ? 0 : 15})) {
			case 0:
				p = make_shared<dcp::ReelMonoPictureAsset>(std::dynamic_pointer_cast<dcp::PictureAsset>(get(s, MONO).asset), 0);
				break;
			case 1:
				p = make_shared<dcp::ReelStereoPictureAsset>(std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(get(s, STEREO).asset), 0);
				break;
			case 2:
				p = make_shared<dcp::ReelMonoPictureAsset>(std::dynamic_pointer_cast<dcp::PictureAsset>(get(s, MPEG2).asset), 0);
				break;
			}
			shape(p);
			/* Interop can say this only as a decimal, which is read as a fraction like this */
			p->set_screen_aspect_ratio(dcp::Fraction(1850, 1000));
			reel->add(p);
		}
		if (s.chance(60)) {
			auto a = make_shared<dcp::ReelSoundAsset>(std::dynamic_pointer_cast<dcp::SoundAsset>(get(s, SOUND).asset), 0);
			shape(a);
			reel->add(a);
		}
		if (s.chance(50)) {
			auto a = reel_text(s, dcp::TextType::OPEN_SUBTITLE);
			shape(a);
			reel->add(a);
		}
		if (s.chance(20)) {
			auto a = reel_text(s, dcp::TextType::CLOSED_CAPTION);
			shape(a);
			reel->add(a);
		}
		if (smpte() && s.chance(20)) {
			auto a = make_shared<dcp::ReelAtmosAsset>(std::dynamic_pointer_cast<dcp::AtmosAsset>(get(s, ATMOS).asset), 0);
			reel->add(a);
		}
		if (s.chance(20)) {
			auto a = make_shared<dcp::ReelMarkersAsset>(dcp::Fraction(24, 1), 3);
			a->set(dcp::Marker::FFOC, dcp::Time(0, 0, 0, 1, 24));
			reel->add(a);
		}
		return reel;
	}
};

}

#endif
