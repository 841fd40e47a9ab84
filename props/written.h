/* Checks on DCPs which have been written, made without the library's help, or read */

#ifndef VERIF_WRITTEN_H
#define VERIF_WRITTEN_H

#include "package.h"
#include "exceptions.h"
#include "font_asset.h"
#include "pkl.h"
#include "verify.h"

namespace written {

using package::path;
using pbt::check;
using pbt::check_eq;
using pbt::Src;
using boost::optional;
using std::dynamic_pointer_cast;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;

/** What can be said about how a DCP is to be written */
struct How
{
	optional<string> issuer, creator, date, annotation, group;
	bool sign = false;
	string format = "%t";

	void generate(Src& s, bool can_sign)
	{
		auto t = [&s]() -> optional<string> {
			if (s.boolean()) {
				return full::text(s, 1, 4);
			}
			return {};
		};
		issuer = t();
		creator = t();
		annotation = t();
		if (s.boolean()) {
			date = "2020-01-02T03:04:05+00:00";
		}
		if (s.chance(30)) {
			group = full::uuid(s);
		}
		sign = can_sign && s.chance(8);
		format = s.pick({"%t", "%t", "x-%t", "%t.foo", "a%tb"});
	}

	void apply(dcp::DCP& dcp) const
	{
		if (issuer) {
			dcp.set_issuer(*issuer);
		}
		if (creator) {
			dcp.set_creator(*creator);
		}
		if (annotation) {
			dcp.set_annotation_text(*annotation);
		}
		if (date) {
			dcp.set_issue_date(*date);
		}
	}

	void write(dcp::DCP& dcp, dcp::Filenames filenames = dcp::Filenames::NEW) const
	{
		dcp.write_xml(sign ? package::signer() : shared_ptr<dcp::CertificateChain>(), filenames, dcp::NameFormat(format), group);
	}

	string name(string t, string id) const
	{
		auto f = format;
		f.replace(f.find("%t"), 2, t);
		return f + "_" + id + ".xml";
	}

	void compare(dcp::AssetList const& list, string what) const
	{
		if (issuer) {
			check_eq(list.issuer(), *issuer, "issuer of " + what);
		}
		if (creator) {
			check_eq(list.creator(), *creator, "creator of " + what);
		}
		if (annotation) {
			check_eq(list.annotation_text().get_value_or("none"), *annotation, "annotation of " + what);
		}
		if (date) {
			check_eq(list.issue_date(), *date, "issue date of " + what);
		}
	}
};

/** Assets which should be in the PKL: everything that's referred to and that is inside the DCP */
inline map<string, package::File> expected(package::Package const& p, How const& how, bool new_names = true)
{
	map<string, package::File> e;
	for (auto const& f: p.files) {
		if (p.inside(f)) {
			e[f.id] = f;
		}
	}
	for (auto const& c: p.cpls) {
		package::File f;
		f.kind = package::CPL;
		f.id = c->id();
		f.file = new_names ? p.root / how.name("cpl", c->id()) : *c->file();
		f.asset = c;
		e[f.id] = f;
	}
	return e;
}

inline string in_xml(string t)
{
	string e;
	for (auto c: t) {
		e += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : string(1, c);
	}
	return e;
}

/** Look at what was written, without using the library to do it */
inline void check_written(package::Package const& p, How const& how, map<string, package::File> const& want, string pkl_name)
{
	auto text = [](path f) { return media::read_file(f); };
	auto const map_file = p.root / (p.smpte() ? "ASSETMAP.xml" : "ASSETMAP");
	check(boost::filesystem::exists(map_file), "no asset map");
	check(!boost::filesystem::exists(p.root / (p.smpte() ? "ASSETMAP" : "ASSETMAP.xml")), "asset map for the other standard");
	check(boost::filesystem::exists(p.root / (p.smpte() ? "VOLINDEX.xml" : "VOLINDEX")), "no volume index");
	check(boost::filesystem::exists(p.root / pkl_name), "no PKL");

	auto const volindex = text(p.root / (p.smpte() ? "VOLINDEX.xml" : "VOLINDEX"));
	check_eq(package::contents(volindex, "Index").size(), size_t(1), "indices in volume index");
	check_eq(package::contents(volindex, "Index")[0], "1", "volume index");
	check(volindex.find(p.smpte() ? "http://www.smpte-ra.org/schemas/429-9/2007/AM" : "http://www.digicine.com/PROTO-ASDCP-VL-20040311#") != string::npos, "namespace of volume index");

	auto const pkl = text(p.root / pkl_name);
	map<string, string> in_pkl;
	for (auto const& a: package::contents(pkl, "Asset")) {
		auto const id = package::contents(a, "Id").at(0);
		check_eq(id.substr(0, 9), "urn:uuid:", "start of ID");
		check(in_pkl.insert({id.substr(9), a}).second, id + " is twice in PKL");
	}
	for (auto const& w: want) {
		auto i = in_pkl.find(w.first);
		check(i != in_pkl.end(), string(package::name(w.second.kind)) + " " + w.first + " is not in the PKL");
		auto const data = text(w.second.file);
		check_eq(package::contents(i->second, "Hash").at(0), package::digest(data), string("hash of ") + package::name(w.second.kind));
		check_eq(package::contents(i->second, "Size").at(0), std::to_string(data.size()), string("size of ") + package::name(w.second.kind));
		check_eq(package::contents(i->second, "Type").at(0), w.second.type(p.standard), string("type of ") + package::name(w.second.kind));
		/* The library's tests expect the name of the DCP's directory for images, so we say nothing about that */
		if (w.second.kind != package::IMAGE) {
			check_eq(package::contents(i->second, "OriginalFileName").at(0), in_xml(w.second.file.filename().string()), string("original filename of ") + package::name(w.second.kind));
		}
	}
	check_eq(in_pkl.size(), want.size(), "number of assets in PKL");
	auto const group = package::contents(pkl, "GroupId");
	check_eq(group.empty() ? "none" : group[0], p.smpte() && how.group ? "urn:uuid:" + *how.group : "none", "group ID");

	auto const am = text(map_file);
	map<string, string> in_map;
	int pkls = 0;
	for (auto const& a: package::contents(am, "Asset")) {
		auto const id = package::contents(a, "Id").at(0).substr(9);
		check(in_map.insert({id, a}).second, id + " is twice in asset map");
		auto const is_pkl = package::contents(a, "PackingList");
		if (!is_pkl.empty()) {
			++pkls;
			check_eq(is_pkl[0], "true", "PackingList");
			check_eq(package::contents(a, "Path").at(0), in_xml(pkl_name), "path of PKL");
			check_eq(package::contents(pkl, "Id").at(0), "urn:uuid:" + id, "ID of PKL");
		}
	}
	check_eq(pkls, 1, "number of PKLs");
	check_eq(in_map.size(), want.size() + 1, "number of assets in asset map");
	for (auto const& w: want) {
		auto i = in_map.find(w.first);
		check(i != in_map.end(), string(package::name(w.second.kind)) + " " + w.first + " is not in the asset map");
		check_eq(package::contents(i->second, "Path").at(0), in_xml(boost::filesystem::relative(w.second.file, p.root).generic_string()), "path in asset map");
		check_eq(package::contents(i->second, "Length").at(0), std::to_string(boost::filesystem::file_size(w.second.file)), "length in asset map");
	}
}

inline string list(vector<dcp::VerificationNote> const& notes)
{
	string r;
	for (auto const& n: notes) {
		r += dcp::note_to_string(n) + "; ";
	}
	return r;
}

/** Give keys to everything which needs them */
inline void unlock(package::Package const& p, dcp::DCP& dcp)
{
	for (auto a: dcp.assets(true)) {
		if (auto m = dynamic_pointer_cast<dcp::MXF>(a)) {
			auto f = p.find(a->id());
			if (f && f->lock.key) {
				m->set_key(*f->lock.key);
			}
		}
	}
}

inline void check_kind(package::File const& f, shared_ptr<dcp::Asset> a)
{
	bool ok = false;
	switch (f.kind) {
	case package::MONO: ok = static_cast<bool>(dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(a)); break;
	case package::STEREO: ok = static_cast<bool>(dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(a)); break;
	case package::MPEG2: ok = static_cast<bool>(dynamic_pointer_cast<dcp::MonoMPEG2PictureAsset>(a)); break;
	case package::SOUND: ok = static_cast<bool>(dynamic_pointer_cast<dcp::SoundAsset>(a)); break;
	case package::TEXT: ok = static_cast<bool>(dynamic_pointer_cast<dcp::TextAsset>(a)); break;
	case package::ATMOS: ok = static_cast<bool>(dynamic_pointer_cast<dcp::AtmosAsset>(a)); break;
	case package::FONT: ok = static_cast<bool>(dynamic_pointer_cast<dcp::FontAsset>(a)); break;
	case package::CPL: ok = static_cast<bool>(dynamic_pointer_cast<dcp::CPL>(a)); break;
	case package::IMAGE: break;
	}
	check(ok, string("asset is not a ") + package::name(f.kind));
}

/** Compare a DCP that has been read with what was written
 *  @param root Directory that the DCP is in.
 *  @param missing IDs of things that are not there.
 */
inline void check_read(package::Package const& p, dcp::DCP const& dcp, map<string, package::File> const& want, path root, set<string> const& missing)
{
	check(dcp.standard() && *dcp.standard() == p.standard, "wrong standard");
	check_eq(dcp.pkls().size(), size_t(1), "number of PKLs");
	check_eq(dcp.cpls().size(), p.cpls.size(), "number of CPLs");
	bool any = false;
	bool all = true;
	for (auto c: p.cpls) {
		shared_ptr<dcp::CPL> got;
		for (auto i: dcp.cpls()) {
			if (i->id() == c->id()) {
				got = i;
			}
		}
		check(static_cast<bool>(got), "no CPL " + c->id());
		auto a = c->reel_file_assets();
		auto b = got->reel_file_assets();
		check_eq(b.size(), a.size(), "number of assets in CPL");
		for (size_t i = 0; i < a.size(); ++i) {
			auto f = p.find(a[i]->id());
			any = any || f->encrypted;
			all = all && f->encrypted;
			check_eq(b[i]->id(), a[i]->id(), "ID in reel");
			check_eq(b[i]->encrypted(), f->encrypted, "encrypted");
			check_eq(b[i]->key_id().get_value_or("none"), f->lock.key ? *f->lock.id : "none", "key ID");
			check_eq(b[i]->actual_duration(), a[i]->actual_duration(), "duration");
			check_eq(b[i]->hash().get_value_or("none"), package::digest(media::read_file(f->file)), "hash in CPL");
			bool const there = !missing.count(f->id);
			check_eq(b[i]->asset_ref().resolved(), there, string(package::name(f->kind)) + " is resolved");
			if (there) {
				check_kind(*f, b[i]->asset_ref().asset());
			}
		}
	}
	check_eq(dcp.any_encrypted(), any, "any encrypted");
	check_eq(dcp.all_encrypted(), all, "all encrypted");

	set<string> want_ids;
	for (auto const& w: want) {
		/* Images are part of their subtitles */
		if (w.second.kind != package::IMAGE && !missing.count(w.first)) {
			want_ids.insert(w.first);
		}
	}
	set<string> got_ids;
	for (auto a: dcp.assets(true)) {
		auto w = want.find(a->id());
		check(w != want.end(), "unexpected asset " + a->id());
		check(got_ids.insert(a->id()).second, "asset is there twice");
		check_kind(w->second, a);
		auto const where = root / boost::filesystem::relative(w->second.file, p.root);
		check(a->file() && boost::filesystem::equivalent(*a->file(), where), "file of asset is wrong");
		if (w->second.kind != package::FONT) {
			check_eq(a->hash(), package::digest(media::read_file(where)), string("hash of ") + package::name(w->second.kind) + " which was read");
		}
		if (auto m = dynamic_pointer_cast<dcp::MXF>(a)) {
			check_eq(m->encrypted(), w->second.encrypted, "asset is encrypted");
		}
	}
	check(got_ids == want_ids, "wrong assets");
}

}

#endif
