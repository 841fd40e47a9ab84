/* R02: finding DCPs and resolving them with each other */

#include "pbt.h"
#include "written.h"
#include "search.h"
#include <unistd.h>

using pbt::fail;
using pbt::Register;
using namespace written;

static full::Setup setup;

namespace {

/** Make some directories and say which should be found */
void tree(Src& s, path dir, int depth, bool found, set<string>& want, bool& nested)
{
	boost::filesystem::create_directories(dir);
	int const kind = s.weighted({ 60, 15, 15, 5, 5 });
	bool is_dcp = false;
	switch (kind) {
	case 0:
		break;
	case 1:
		package::put(dir / "ASSETMAP", "x");
		is_dcp = true;
		break;
	case 2:
		package::put(dir / "ASSETMAP.xml", "x");
		is_dcp = true;
		break;
	case 3:
		package::put(dir / s.pick<string>({ "assetmap", "ASSETMAP.XML", "ASSETMAP.xml.bak", "VOLINDEX.xml", "xASSETMAP", "PKL.xml" }), "x");
		break;
	case 4:
		package::put(dir / "ASSETMAP", "");
		package::put(dir / "ASSETMAP.xml", "");
		is_dcp = true;
		break;
	}
	if (is_dcp) {
		if (found) {
			/* Inside something that has already been found */
			nested = true;
		} else {
			want.insert(dir.string());
		}
	}
	for (int n = 0; s.more(n, 0, 3, 60); ++n) {
		if (depth > 0 && s.chance(75)) {
			tree(s, dir / s.pick<string>({ "a", "b b", "\xc3\xa9", ".hidden", "%1" }), depth - 1, found || is_dcp, want, nested);
		} else {
			auto const f = dir / s.pick<string>({ "file", "file.mxf", "a.xml" });
			if (!boost::filesystem::exists(f)) {
				package::put(f, "contents");
			}
		}
	}
}

Register find("find", 4000, 80000, "there is more than one DCP, or one inside another", [](Src& s) {
	path const root = path(s.scratch()) / "root";
	set<string> want;
	bool nested = false;
	tree(s, root, 4, false, want, nested);
	/* Directories may have been visited more than once, so look again at what is really there */
	want.clear();
	std::function<void (path)> look = [&](path p) {
		if (boost::filesystem::exists(p / "ASSETMAP") || boost::filesystem::exists(p / "ASSETMAP.xml")) {
			want.insert(p.string());
		} else {
			for (auto const& i: boost::filesystem::directory_iterator(p)) {
				if (boost::filesystem::is_directory(i)) {
					look(i.path());
				}
			}
		}
	};
	look(root);
	s.nontrivial_if(want.size() > 1 || nested);
	for (auto const& i: boost::filesystem::recursive_directory_iterator(root)) {
		s.note("there", boost::filesystem::relative(i.path(), root).string());
	}
	std::multiset<string> got;
	for (auto const& i: dcp::find_potential_dcps(root)) {
		got.insert(i.string());
	}
	check(got == std::multiset<string>(want.begin(), want.end()), "found " + std::to_string(got.size()) + " rather than " + std::to_string(want.size()));
	/* Something which isn't a directory has nothing in it */
	package::put(path(s.scratch()) / "file", "x");
	check(dcp::find_potential_dcps(path(s.scratch()) / "file").empty(), "found something in a file");
});

Register resolve("resolve", 700, 12000, "some DCP uses something from another", [](Src& s) {
	vector<package::Package> p;
	set<string> available;
	bool linked = false;
	for (int n = 0; s.more(n, 1, 3, 50); ++n) {
		p.push_back({});
		auto& me = p.back();
		package::Options o;
		o.max_cpls = 2;
		o.max_reels = 2;
		o.reuse = 60;
		me.options = o;
		me.root = path(s.scratch()) / ("dcp" + std::to_string(n));
		me.outside = path(s.scratch()) / "outside";
		boost::filesystem::create_directories(me.root);
		Kumu::shim_seed(s.draw(0xffffffff));
		me.standard = n ? p[0].standard : (s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP);
		for (int i = 0; i < n; ++i) {
			for (auto const& f: p[i].files) {
				if (p[i].inside(f) && (f.kind == package::MONO || f.kind == package::SOUND || (f.kind == package::TEXT && me.smpte())) && s.chance(70)) {
					me.files.push_back(f);
				}
			}
		}
		for (int i = 0; s.more(i, 1, o.max_cpls, 35); ++i) {
			me.make_cpl(s);
		}
		dcp::DCP dcp(me.root);
		for (auto c: me.cpls) {
			dcp.add(c);
			for (auto a: c->reel_file_assets()) {
				linked = linked || !me.inside(*me.find(a->id()));
			}
		}
		dcp.write_xml();
		s.note("dcp", me.describe());
	}
	s.nontrivial_if(linked);

	/* Take away one file, perhaps */
	string gone;
	if (s.chance(25)) {
		auto const& q = s.pick(p);
		for (auto const& f: q.files) {
			if (q.inside(f) && f.kind != package::FONT && f.kind != package::IMAGE && !(f.kind == package::TEXT && !q.smpte())) {
				gone = f.id;
				boost::filesystem::remove(f.file);
				break;
			}
		}
	}
	s.label(gone.empty() ? "complete" : "incomplete");

	/* Look in some of them in some order */
	vector<path> dirs;
	vector<size_t> used;
	vector<size_t> order;
	for (size_t i = 0; i < p.size(); ++i) {
		order.insert(order.begin() + s.draw(i), i);
	}
	for (auto i: order) {
		if (s.chance(80)) {
			dirs.push_back(p[i].root);
			used.push_back(i);
		}
		if (s.chance(15)) {
			dirs.push_back(path(s.scratch()) / "not" / "there");
		}
	}
	vector<shared_ptr<dcp::CPL>> want;
	bool incomplete = false;
	for (auto i: used) {
		for (auto c: p[i].cpls) {
			want.push_back(c);
		}
		for (auto const& f: p[i].files) {
			if (p[i].inside(f)) {
				if (f.id == gone) {
					incomplete = true;
				} else {
					available.insert(f.id);
				}
			}
		}
	}
	bool const tolerant = s.boolean();
	vector<shared_ptr<dcp::CPL>> got;
	try {
		got = dcp::find_and_resolve_cpls(dirs, tolerant);
		check(tolerant || !incomplete, "a missing asset was tolerated");
	} catch (dcp::ReadError& e) {
		check(!tolerant && incomplete, string("refused: ") + e.what());
		return;
	}
	check(!boost::filesystem::exists(path(s.scratch()) / "not"), "a directory was made");
	check_eq(got.size(), want.size(), "number of CPLs");
	set<string> ids;
	for (auto c: got) {
		ids.insert(c->id());
	}
	for (auto w: want) {
		check(ids.count(w->id()), "a CPL was not found");
		for (auto c: got) {
			if (c->id() != w->id()) {
				continue;
			}
			auto a = w->reel_file_assets();
			auto b = c->reel_file_assets();
			check_eq(b.size(), a.size(), "number of assets");
			for (size_t i = 0; i < a.size(); ++i) {
				check_eq(b[i]->id(), a[i]->id(), "ID");
				check_eq(b[i]->asset_ref().resolved(), bool(available.count(a[i]->id())), "whether an asset is resolved");
				if (b[i]->asset_ref().resolved()) {
					check_eq(b[i]->asset_ref()->id(), a[i]->id(), "ID of asset");
					check(boost::filesystem::equivalent(*b[i]->asset_ref()->file(), *dynamic_pointer_cast<dcp::Asset>(a[i]->asset_ref().asset())->file()), "file of asset");
				}
			}
		}
	}
	/* CPLs are in the order that their directories were given */
	size_t at = 0;
	for (auto i: used) {
		set<string> here;
		for (auto c: p[i].cpls) {
			here.insert(c->id());
		}
		for (size_t j = 0; j < here.size(); ++j) {
			check(here.count(got[at++]->id()), "CPLs are in a different order to directories");
		}
	}
});

}
