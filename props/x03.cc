/* X03: whole DCPs */

#include "pbt.h"
#include "written.h"
#include "cpl_summary.h"

using pbt::Src;
using pbt::Register;
using pbt::fail;
using std::dynamic_pointer_cast;
using std::map;
using std::set;
using std::shared_ptr;
using std::string;
using std::vector;
using boost::optional;
using namespace written;

static full::Setup setup;

static Register round_trip("round_trip", 2000, 30000, "some asset is used twice, or there is more than one CPL", [](Src& s) {
	package::Package p;
	p.generate(s, s.scratch());
	How how;
	how.generate(s, true);
	s.note("dcp", p.describe());
	s.note("format", how.format);
	{
		size_t uses = 0;
		set<string> ids;
		for (auto c: p.cpls) {
			for (auto a: c->reel_file_assets()) {
				++uses;
				ids.insert(a->id());
			}
		}
		s.nontrivial_if(uses > ids.size() || p.cpls.size() > 1);
		s.label(how.sign ? "signed" : "not signed");
		s.label(p.smpte() ? "SMPTE" : "Interop");
	}

	dcp::DCP made(p.root);
	for (auto c: p.cpls) {
		made.add(c);
	}
	check(!made.standard(), "standard before writing");
	how.apply(made);
	if (s.chance(15)) {
		/* Moving it should not change anything */
		dcp::DCP other(std::move(made));
		how.write(other);
		made = std::move(other);
	} else {
		how.write(made);
	}
	auto const want = expected(p, how);
	check_eq(made.pkls().size(), size_t(1), "number of PKLs after writing");
	auto const pkl_name = how.name("pkl", made.pkls()[0]->id());
	check_written(p, how, want, pkl_name);
	how.compare(*made.pkls()[0], "PKL");
	how.compare(*made.asset_map(), "asset map");

	path root = p.root;
	if (s.chance(30)) {
		root = p.root.parent_path() / "moved";
		boost::filesystem::rename(p.root, root);
		/* The library's idea of where things were can't be used from now on */
	}
	vector<dcp::VerificationNote> notes;
	dcp::DCP again(root);
	again.read(&notes);
	check(notes.empty(), "notes after reading: " + list(notes));
	if (root != p.root) {
		boost::filesystem::create_directory_symlink(root, p.root);
	}
	check_read(p, again, want, root, {});
	how.compare(*again.pkls()[0], "PKL");
	how.compare(*again.asset_map(), "asset map");
	for (auto const& w: want) {
		check_eq(again.pkls()[0]->type(w.first).get_value_or("none"), w.second.type(p.standard), "type in PKL");
	}
	bool readable = true;
	bool mpeg2 = false;
	for (auto c: p.cpls) {
		for (auto a: c->reel_file_assets()) {
			auto f = p.find(a->id());
			readable = readable && !f->encrypted;
			mpeg2 = mpeg2 || f->kind == package::MPEG2;
		}
	}
	if (!mpeg2) {
		check_eq(again.can_be_read(), readable, "can be read, without keys");
	}
	unlock(p, again);
	if (!mpeg2) {
		/* There are no real images in our MPEG2 */
		check(again.can_be_read(), "can't be read with keys");
	}

	string differ;
	dcp::EqualityOptions opt;
	opt.issue_dates_can_differ = true;
	/* Hashes are not found until they are needed */
	for (auto a: made.assets()) {
		a->hash();
	}
	auto const equal = made.equals(again, opt, [&differ](dcp::NoteType t, string n) { if (t == dcp::NoteType::ERROR) { differ += n + "; "; } });
	check(equal, "not equal to what was written: " + differ);

	/* Summaries */
	auto summaries = again.cpl_summaries();
	check_eq(summaries.size(), p.cpls.size(), "number of summaries");
	for (auto c: p.cpls) {
		bool found = false;
		for (auto const& i: summaries) {
			if (i.cpl_id == c->id()) {
				check(!found, "two summaries of the same CPL");
				found = true;
				check_eq(i.cpl_annotation_text.get_value_or("none"), c->annotation_text().get_value_or("none"), "annotation in summary");
				check_eq(i.encrypted, c->any_encrypted(), "encrypted in summary");
				check(boost::filesystem::equivalent(i.cpl_file, root / how.name("cpl", c->id())), "file in summary");
				check(boost::filesystem::equivalent(i.dcp_directory, root), "directory in summary");
			}
		}
		check(found, "no summary of CPL");
	}

	/* Finding DCPs from lists of files */
	vector<path> all;
	for (auto i: boost::filesystem::recursive_directory_iterator(root)) {
		if (boost::filesystem::is_regular_file(i)) {
			all.push_back(i.path());
		}
	}
	auto dirs = dcp::DCP::directories_from_files(all);
	check_eq(dirs.size(), size_t(1), "DCPs found in list of files");
	check(boost::filesystem::equivalent(dirs[0], root), "wrong DCP found in list of files");
});

/** DCPs which refer to things that are outside them, or that have gone */
static Register gaps("gaps", 1500, 20000, "something is missing or external", [](Src& s) {
	package::Package p;
	package::Options o;
	o.outside = 25;
	o.max_cpls = 2;
	p.generate(s, s.scratch(), o);
	How how;
	how.generate(s, false);
	s.note("dcp", p.describe());
	dcp::DCP made(p.root);
	for (auto c: p.cpls) {
		made.add(c);
	}
	how.write(made);
	auto want = expected(p, how);
	check_written(p, how, want, how.name("pkl", made.pkls()[0]->id()));

	/* Count how many times each thing outside is used; there's a note for each */
	set<string> missing;
	vector<string> external;
	for (auto c: p.cpls) {
		for (auto a: c->reel_file_assets()) {
			if (!p.inside(*p.find(a->id()))) {
				external.push_back(a->id());
				missing.insert(a->id());
			}
		}
	}
	/* Take some things away, though not those that other files need for them to be read */
	vector<string> gone;
	for (auto const& f: p.files) {
		if (p.inside(f) && f.kind != package::FONT && f.kind != package::IMAGE && !(f.kind == package::TEXT && !p.smpte()) && s.chance(15)) {
			boost::filesystem::rename(f.file, p.root.parent_path() / ("gone" + std::to_string(gone.size())));
			gone.push_back(f.id);
			missing.insert(f.id);
		}
	}
	s.note("gone", gone.size());
	s.nontrivial_if(!missing.empty());

	dcp::DCP again(p.root);
	vector<dcp::VerificationNote> notes;
	again.read(&notes);
	std::multiset<string> got_external, want_external(external.begin(), external.end());
	set<string> got_gone, want_gone;
	for (auto const& n: notes) {
		switch (n.code()) {
		case dcp::VerificationNote::Code::EXTERNAL_ASSET:
			got_external.insert(n.asset_id().get_value_or("none"));
			break;
		case dcp::VerificationNote::Code::MISSING_ASSET:
			check(got_gone.insert(n.file().get_value_or("none").filename().string()).second, "two notes about the same missing file");
			break;
		default:
			fail("unexpected note " + dcp::note_to_string(n));
		}
	}
	for (auto const& g: gone) {
		want_gone.insert(p.find(g)->file.filename().string());
	}
	check(got_external == want_external, "wrong notes about external assets: " + list(notes));
	check(got_gone == want_gone, "wrong notes about missing assets: " + list(notes));

	/* Put the files back to see what they are */
	for (size_t i = 0; i < gone.size(); ++i) {
		boost::filesystem::rename(p.root.parent_path() / ("gone" + std::to_string(i)), p.find(gone[i])->file);
	}
	check_read(p, again, want, p.root, missing);

	bool all = true;
	try {
		again.assets(false);
	} catch (dcp::UnresolvedRefError&) {
		all = false;
	}
	check_eq(all, missing.empty(), "everything is resolved");
	if (!missing.empty()) {
		check(!again.can_be_read(), "can be read with assets missing");
	}

	/* Give it what it needs, a bit at a time */
	vector<shared_ptr<dcp::Asset>> supply;
	for (auto const& f: p.files) {
		if (missing.count(f.id)) {
			supply.push_back(f.asset);
		}
	}
	auto const half = supply.size() / 2;
	again.resolve_refs(vector<shared_ptr<dcp::Asset>>(supply.begin(), supply.begin() + half));
	again.resolve_refs(vector<shared_ptr<dcp::Asset>>(supply.begin() + half, supply.end()));
	for (auto c: again.cpls()) {
		for (auto a: c->reel_file_assets()) {
			check(a->asset_ref().resolved(), "not resolved when everything was supplied");
			check_eq(a->asset_ref()->id(), a->id(), "resolved to the wrong asset");
		}
	}

	/* Now that it's all there, it can be written again: things outside stay outside */
	how.group = boost::none;
	if (again.pkls()[0]->group_id()) {
		how.group = again.pkls()[0]->group_id();
	}
	how.write(again);
	check_written(p, how, expected(p, how), how.name("pkl", again.pkls()[0]->id()));
});

static Register rewrite("rewrite", 1500, 20000, "something was changed", [](Src& s) {
	package::Package p;
	package::Options o;
	o.max_cpls = 2;
	p.generate(s, s.scratch(), o);
	How how;
	how.generate(s, false);
	s.note("dcp", p.describe());
	dcp::DCP made(p.root);
	for (auto c: p.cpls) {
		made.add(c);
	}
	how.apply(made);
	how.write(made);

	/* Read it; after that, nothing which happens to the files should change the digests that they ought to have */
	dcp::DCP again(p.root);
	again.read();
	map<string, string> hashes;
	for (auto const& f: p.files) {
		hashes[f.id] = package::digest(media::read_file(f.file));
	}
	vector<string> damaged;
	for (auto const& f: p.files) {
		if (f.kind != package::IMAGE && f.kind != package::FONT && s.chance(15)) {
			auto d = media::read_file(f.file);
			auto const at = s.draw(d.size() - 1);
			d[at] = d[at] ^ (1 << s.draw(7));
			package::put(f.file, d);
			damaged.push_back(f.id);
		}
	}
	s.note("damaged", damaged.size());
	How how2;
	how2.generate(s, false);
	how2.apply(again);
	auto const names = s.boolean() ? dcp::Filenames::NEW : dcp::Filenames::ORIGINAL;
	how2.write(again, names);
	s.note("new names", names == dcp::Filenames::NEW);
	s.nontrivial_if(!damaged.empty() || how2.issuer || how2.creator);

	/* The second one takes priority */
	How both = how;
	if (how2.issuer) {
		both.issuer = how2.issuer;
	}
	if (how2.creator) {
		both.creator = how2.creator;
	}
	if (how2.annotation) {
		both.annotation = how2.annotation;
	}
	if (how2.date) {
		both.date = how2.date;
	}

	dcp::PKL pkl(p.root / (names == dcp::Filenames::NEW ? how2 : how).name("pkl", made.pkls()[0]->id()));
	check_eq(pkl.id(), made.pkls()[0]->id(), "ID of PKL");
	check_eq(pkl.group_id().get_value_or("none"), p.smpte() ? how.group.get_value_or("none") : "none", "group ID");
	both.compare(pkl, "PKL");
	dcp::AssetMap am(p.root / (p.smpte() ? "ASSETMAP.xml" : "ASSETMAP"));
	both.compare(am, "asset map");
	check_eq(am.id(), made.asset_map()->id(), "ID of asset map");
	check_eq(am.pkl_paths().size(), size_t(1), "number of PKLs");
	check(boost::filesystem::equivalent(am.pkl_paths()[0], *pkl.file()), "wrong PKL in asset map");
	for (auto const& f: p.files) {
		check_eq(pkl.hash(f.id).get_value_or("none"), hashes[f.id], string("hash in PKL of ") + package::name(f.kind));
		check(am.asset_ids_and_paths().count(f.id), "asset is no longer in the asset map");
	}
	for (auto c: p.cpls) {
		auto const file = p.root / (names == dcp::Filenames::NEW ? how2 : how).name("cpl", c->id());
		check_eq(pkl.hash(c->id()).get_value_or("none"), package::digest(media::read_file(file)), "hash of CPL");
		dcp::CPL cpl(file);
		auto got = cpl.reel_file_assets();
		auto want = c->reel_file_assets();
		check_eq(got.size(), want.size(), "number of assets in CPL");
		for (size_t i = 0; i < got.size(); ++i) {
			check_eq(got[i]->id(), want[i]->id(), "ID in CPL");
			check_eq(got[i]->hash().get_value_or("none"), hashes[got[i]->id()], "hash in CPL");
		}
	}
});

static Register refused("refused", 600, 6000, "all", [](Src& s) {
	package::Package p;
	package::Options o;
	o.max_cpls = 1;
	p.generate(s, s.scratch(), o);
	s.note("dcp", p.describe());
	auto const what = s.draw(4);
	s.note("what", what);
	s.nontrivial();
	dcp::DCP made(p.root);
	auto try_write = [&]() {
		try {
			made.write_xml();
			fail("written");
		} catch (dcp::MiscError&) {}
	};
	auto try_read = [&](string why) {
		try {
			dcp::DCP again(p.root);
			vector<dcp::VerificationNote> notes;
			again.read(&notes);
			fail("read with " + why);
		} catch (dcp::ReadError&) {
		} catch (dcp::XMLError&) {
		} catch (cxml::Error&) {
		}
	};
	if (what == 0) {
		try_write();
		return;
	}
	made.add(p.cpls[0]);
	if (what == 1) {
		auto other = std::make_shared<dcp::CPL>("other", dcp::ContentKind::TRAILER, p.smpte() ? dcp::Standard::INTEROP : dcp::Standard::SMPTE);
		made.add(other);
		try_write();
		check(!boost::filesystem::exists(p.root / "ASSETMAP") && !boost::filesystem::exists(p.root / "ASSETMAP.xml"), "asset map written though there was an error");
		return;
	}
	made.write_xml();
	auto const am = *made.asset_map_file();
	auto const pkl = *made.pkls()[0]->file();
	auto change = [](path f, string from, string to) {
		auto t = media::read_file(f);
		auto i = t.find(from);
		check(i != string::npos, "no " + from);
		t.replace(i, from.size(), to);
		package::put(f, t);
	};
	if (what == 2) {
		boost::filesystem::remove(am);
		try {
			dcp::DCP again(p.root);
			again.read();
			fail("read with no asset map");
		} catch (dcp::MissingAssetmapError&) {}
	} else if (what == 3) {
		change(am, "<PackingList>true</PackingList>", "");
		try_read("no PKL");
	} else {
		change(pkl, "<Type>", "<Type>strange-");
		try_read("strange type");
	}
});

static Register hashes("hashes", 2000, 40000, "the file is changed after a hash was worked out", [](Src& s) {
	/* An asset remembers its hash until it is told that its file is different */
	vector<string> files;
	vector<string> want;
	for (int i = 0; i < 3; ++i) {
		files.push_back(s.scratch() + "/" + std::to_string(i));
		auto const d = s.bytes(0, 20);
		std::ofstream(files.back(), std::ios::binary).write(reinterpret_cast<char const*>(d.data()), d.size());
		want.push_back(package::digest(media::read_file(files.back())));
	}
	int file = 0;
	dcp::FontAsset asset("id", files[0]);
	optional<string> known;
	string text;
	bool changed = false;
	for (int n = 0; s.more(n, 1, 12, 85); ++n) {
		auto const op = s.draw(5);
		text += std::to_string(op);
		switch (op) {
		case 0:
			file = s.draw(2);
			asset.set_file(files[file]);
			changed = changed || known;
			known = boost::none;
			break;
		case 1:
			file = s.draw(2);
			asset.set_file_preserving_hash(files[file]);
			changed = changed || known;
			break;
		case 2:
			file = s.draw(2);
			asset.rename_file(files[file]);
			changed = changed || known;
			break;
		case 3:
			known = s.str("abc", 1, 3);
			asset.set_hash(*known);
			break;
		case 4:
			known = boost::none;
			asset.unset_hash();
			break;
		case 5:
			if (!known) {
				known = want[file];
			}
			check_eq(asset.hash(), *known, "hash after " + text);
			break;
		}
		check(asset.file() && *asset.file() == files[file], "wrong file after " + text);
	}
	s.note("operations", text);
	s.nontrivial_if(changed);
	check_eq(asset.hash(), known ? *known : want[file], "hash after " + text);
});
