/* R01: combining DCPs */

#include "pbt.h"
#include "written.h"
#include "combine.h"

using pbt::fail;
using pbt::Register;
using namespace written;

static full::Setup setup;

namespace {

/** @return digests of everything in a directory, by its path within that directory */
map<string, string> digests(path dir)
{
	map<string, string> r;
	for (auto const& i: boost::filesystem::recursive_directory_iterator(dir)) {
		if (boost::filesystem::is_regular_file(i)) {
			r[boost::filesystem::relative(i.path(), dir).string()] = package::digest(media::read_file(i.path()));
		}
	}
	return r;
}

void write(package::Package const& p)
{
	dcp::DCP dcp(p.root);
	for (auto c: p.cpls) {
		dcp.add(c);
	}
	dcp.write_xml();
}

/** Make something from another DCP available to be used by this one
 *  @param copy true to put a copy in the new DCP.
 */
void offer(package::Package& to, package::File f, bool copy)
{
	if (copy) {
		auto const file = to.root / ("copy" + std::to_string(to.files.size()) + ".mxf");
		boost::filesystem::copy_file(f.file, file);
		f.file = file;
		if (f.kind == package::MONO) {
			f.asset = std::make_shared<dcp::MonoJ2KPictureAsset>(file);
		} else if (f.kind == package::SOUND) {
			f.asset = std::make_shared<dcp::SoundAsset>(file);
		}
	}
	to.files.push_back(f);
}

/** Packages which may refer to each others' assets */
vector<package::Package> packages(Src& s, int min, optional<dcp::Standard> standard)
{
	vector<package::Package> p;
	for (int n = 0; s.more(n, min, 3, 40); ++n) {
		p.push_back({});
		auto& me = p.back();
		package::Options o;
		o.max_cpls = 2;
		o.max_reels = 2;
		o.reuse = 60;
		o.standard = standard;
		/* Like generate(), but with things that might be used from the others */
		me.options = o;
		me.root = path(s.scratch()) / std::to_string(n) / s.pick({"dcp", "a dcp", "d\xc3\xa9p"});
		me.outside = path(s.scratch()) / "outside";
		boost::filesystem::create_directories(me.root);
		Kumu::shim_seed(s.draw(0xffffffff));
		me.standard = standard ? *standard : (s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
		for (int i = 0; i < n; ++i) {
			if (p[i].standard != me.standard) {
				continue;
			}
			for (auto const& f: p[i].files) {
				if (p[i].inside(f) && (f.kind == package::MONO || f.kind == package::SOUND || (f.kind == package::TEXT && me.smpte())) && s.chance(60)) {
					offer(me, f, f.kind != package::TEXT && s.chance(40));
				}
			}
		}
		for (int i = 0; s.more(i, 1, o.max_cpls, 35); ++i) {
			me.make_cpl(s);
		}
		/* Forget what was not used */
		set<string> used;
		for (auto c: me.cpls) {
			for (auto a: c->reel_file_assets()) {
				used.insert(a->id());
			}
		}
		vector<package::File> files;
		for (auto const& f: me.files) {
			if (used.count(f.id) || f.kind == package::FONT || f.kind == package::IMAGE) {
				files.push_back(f);
			}
		}
		me.files = files;
		write(me);
	}
	return p;
}

Register combine("combine", 700, 12000, "some DCP uses something which is in another one", [](Src& s) {
	auto const standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	auto const p = packages(s, 1, standard);
	How how;
	how.generate(s, true);
	how.format = "%t";
	how.group = boost::none;
	vector<path> inputs;
	vector<map<string, string>> before;
	bool linked = false;
	for (auto const& i: p) {
		s.note("input", i.describe());
		inputs.push_back(i.root);
		before.push_back(digests(i.root));
		for (auto const& f: i.files) {
			linked = linked || !i.inside(f) || f.file.filename().string().find("copy") == 0;
		}
	}
	s.label(standard == dcp::Standard::SMPTE ? "SMPTE" : "Interop");
	s.nontrivial_if(linked);
	std::reverse(inputs.begin(), inputs.begin() + s.draw(inputs.size()));

	path const output = path(s.scratch()) / "output";
	dcp::combine(
		inputs, output,
		how.issuer.get_value_or("issuer"), how.creator.get_value_or("creator"), how.date.get_value_or("2021-02-03T04:05:06+00:00"), how.annotation.get_value_or("annotation"),
		how.sign ? package::signer() : shared_ptr<dcp::CertificateChain>()
		);
	how.issuer = how.issuer.get_value_or("issuer");
	how.creator = how.creator.get_value_or("creator");
	how.date = how.date.get_value_or("2021-02-03T04:05:06+00:00");
	how.annotation = how.annotation.get_value_or("annotation");

	for (size_t i = 0; i < p.size(); ++i) {
		check(digests(p[i].root) == before[i], "something in an input was changed");
	}

	/* Find where everything is */
	dcp::AssetMap am(output / (standard == dcp::Standard::SMPTE ? "ASSETMAP.xml" : "ASSETMAP"));
	auto const paths = am.asset_ids_and_paths();
	package::Package all;
	all.root = output;
	all.standard = standard;
	set<string> ids;
	/* The IDs of fonts and images within Interop subtitles may be changed */
	map<string, std::multiset<string>> fonts;
	for (auto const& i: p) {
		for (auto f: i.files) {
			if (ids.count(f.id) || f.kind == package::FONT || f.kind == package::IMAGE) {
				continue;
			}
			auto const w = paths.find(f.id);
			check(w != paths.end(), string(package::name(f.kind)) + " is not in the combined asset map");
			auto const original = f.file;
			f.file = w->second;
			check(boost::filesystem::exists(f.file), string(package::name(f.kind)) + " is not in the combined DCP");
			if (f.kind != package::TEXT || standard == dcp::Standard::SMPTE) {
				check(media::read_file(f.file) == media::read_file(original), string(package::name(f.kind)) + " is not the same in the combined DCP");
			}
			ids.insert(f.id);
			all.files.push_back(f);
		}
		for (auto c: i.cpls) {
			all.cpls.push_back(c);
		}
	}
	{
		set<string> files;
		for (auto const& i: paths) {
			check(files.insert(i.second.string()).second, "two assets have the same file");
		}
	}

	vector<dcp::VerificationNote> notes;
	dcp::DCP again(output);
	again.read(&notes);
	check(notes.empty(), "notes after reading: " + list(notes));
	check_eq(again.cpls().size(), all.cpls.size(), "number of CPLs");
	how.compare(*again.pkls().at(0), "PKL");
	how.compare(*again.asset_map(), "asset map");

	/* Everything that's there should have the right hash */
	for (auto const& i: paths) {
		if (i.first == again.pkls().at(0)->id()) {
			continue;
		}
		auto const h = again.pkls().at(0)->hash(i.first);
		check(bool(h), "something in the asset map is not in the PKL");
		check_eq(*h, package::digest(media::read_file(i.second)), "hash in combined PKL of " + i.second.filename().string());
	}
	/* And everything on disk should be in the asset map */
	auto const there = digests(output);
	check_eq(there.size(), paths.size() + 2, "number of files");

	for (auto c: all.cpls) {
		shared_ptr<dcp::CPL> got;
		for (auto i: again.cpls()) {
			if (i->id() == c->id()) {
				got = i;
			}
		}
		check(bool(got), "a CPL is not there");
		check_eq(got->content_title_text(), c->content_title_text(), "title");
		auto a = c->reel_file_assets();
		auto b = got->reel_file_assets();
		check_eq(b.size(), a.size(), "number of assets in CPL");
		for (size_t i = 0; i < a.size(); ++i) {
			check_eq(b[i]->id(), a[i]->id(), "ID in reel");
			check_eq(b[i]->actual_duration(), a[i]->actual_duration(), "duration in reel");
			check(b[i]->asset_ref().resolved(), "asset is not resolved");
			check_kind(*all.find(a[i]->id()), b[i]->asset_ref().asset());
			if (auto text = dynamic_pointer_cast<dcp::InteropTextAsset>(b[i]->asset_ref().asset())) {
				auto original = dynamic_pointer_cast<dcp::InteropTextAsset>(all.find(a[i]->id())->asset);
				check_eq(text->texts().size(), original->texts().size(), "number of texts");
				string differ;
				dcp::EqualityOptions options;
				options.load_font_nodes_can_differ = true;
				check(
					text->equals(original, options, [&differ](dcp::NoteType t, string n) { if (t == dcp::NoteType::ERROR) { differ += n + "; "; } }),
					"text is not the same: " + differ
					);
				auto const x = original->font_data();
				auto const y = text->font_data();
				check_eq(y.size(), x.size(), "number of fonts");
				for (auto const& f: x) {
					check(y.count(f.first), "no font " + f.first);
					check(y.at(f.first) == f.second, "font has different data");
				}
			}
		}
	}
});

Register different("different", 200, 3000, "all", [](Src& s) {
	vector<package::Package> p;
	vector<path> inputs;
	p = packages(s, 2, boost::none);
	bool mixed = false;
	for (auto const& i: p) {
		inputs.push_back(i.root);
		mixed = mixed || i.standard != p[0].standard;
	}
	s.nontrivial();
	path const output = path(s.scratch()) / "output";
	try {
		dcp::combine(inputs, output, "i", "c", "2021-02-03T04:05:06+00:00", "a");
		check(!mixed, "DCPs of different standards were combined");
		check(boost::filesystem::exists(output / (p[0].smpte() ? "ASSETMAP.xml" : "ASSETMAP")), "nothing was written");
	} catch (dcp::CombineError& e) {
		check(mixed, string("refused: ") + e.what());
		check(!boost::filesystem::exists(output / "ASSETMAP.xml") && !boost::filesystem::exists(output / "ASSETMAP"), "something was written");
	}
});

}
