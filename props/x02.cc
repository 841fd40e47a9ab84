/* X02: packing lists and asset maps */

#include "pbt.h"
#include "full.h"
#include "cplmodel.h"
#include "media.h"
#include "asset_map.h"
#include "pkl.h"
#include "exceptions.h"
#include "verify.h"
#include <fstream>
#include <set>

using pbt::Src;
using pbt::Register;
using pbt::check;
using pbt::check_eq;
using model::opt;
using model::same;
using model::tag;
using std::string;
using std::vector;

static full::Setup setup;

/** What packing lists and asset maps have in common */
struct Head
{
	dcp::Standard standard;
	string id;
	opt<string> annotation;
	string date, issuer, creator;

	void generate(Src& s)
	{
		standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
		id = full::uuid(s);
		if (s.chance(70)) {
			annotation = full::text(s, 1, 6);
		}
		date = s.pick({"2026-01-02T03:04:05+01:00", "1999-12-31T23:59:59-11:30", "2038-02-28T00:00:00+00:00"});
		issuer = full::text(s, 1, 6);
		creator = full::text(s, 1, 6);
	}

	string xml() const
	{
		string x = tag("Id", "urn:uuid:" + id);
		if (annotation) {
			x += tag("AnnotationText", *annotation);
		}
		return x + tag("IssueDate", date) + tag("Issuer", issuer) + tag("Creator", creator);
	}

	void compare(dcp::AssetList const& list, dcp::Object const& object, bool check_id) const
	{
		check(list.standard() == standard, "wrong standard");
		if (check_id) {
			check_eq(object.id(), id, "ID");
		}
		same(list.annotation_text(), annotation, "annotation text");
		check_eq(list.issue_date(), date, "issue date");
		check_eq(list.issuer(), issuer, "issuer");
		check_eq(list.creator(), creator, "creator");
	}

	/** Change some parts using the setters */
	void change(Src& s, dcp::AssetList& list)
	{
		if (s.chance(30)) {
			annotation = full::text(s, 1, 6);
			list.set_annotation_text(*annotation);
		}
		if (s.chance(30)) {
			date = "2001-01-01T00:00:00+00:00";
			list.set_issue_date(date);
		}
		if (s.chance(30)) {
			issuer = full::text(s, 1, 6);
			list.set_issuer(issuer);
		}
		if (s.chance(30)) {
			creator = full::text(s, 1, 6);
			list.set_creator(creator);
		}
	}
};

struct PKLModel : public Head
{
	struct Asset
	{
		string id;
		opt<string> annotation;
		string hash;
		int64_t size;
		string type;
		opt<string> original;
	};

	opt<string> group;
	vector<Asset> assets;

	void generate(Src& s, bool need_original)
	{
		Head::generate(s);
		if (standard == dcp::Standard::SMPTE && s.chance(40)) {
			group = full::uuid(s);
		}
		for (int n = 0; s.more(n, 0, 6, 75); ++n) {
			Asset a;
			/* Sometimes there is the same ID twice */
			a.id = !assets.empty() && s.chance(15) ? s.pick(assets).id : full::uuid(s);
			if (s.boolean()) {
				a.annotation = full::text(s, 1, 6);
			}
			a.hash = s.str("ABCxyz019+/", 27, 27) + "=";
			a.size = s.edgy(0, INT64_MAX, {0, 1, 4294967295LL, 4294967296LL, INT64_MAX});
			a.type = s.pick({"text/xml", "application/mxf", "text/xml;asdcpKind=CPL", "application/x-smpte-mxf;asdcpKind=Picture", "image/png", "application/ttf"});
			if (need_original || s.boolean()) {
				a.original = full::text(s, 1, 6);
			}
			assets.push_back(a);
		}
	}

	string xml() const
	{
		string x = string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<PackingList xmlns=\"") +
			(standard == dcp::Standard::SMPTE ? "http://www.smpte-ra.org/schemas/429-8/2007/PKL" : "http://www.digicine.com/PROTO-ASDCP-PKL-20040311#") + "\">\n" + Head::xml();
		if (group) {
			x += tag("GroupId", "urn:uuid:" + *group);
		}
		x += "<AssetList>\n";
		for (auto const& a: assets) {
			x += "<Asset>" + tag("Id", "urn:uuid:" + a.id);
			if (a.annotation) {
				x += tag("AnnotationText", *a.annotation);
			}
			x += tag("Hash", a.hash) + tag("Size", std::to_string(a.size)) + tag("Type", a.type);
			if (a.original) {
				x += tag("OriginalFileName", *a.original);
			}
			x += "</Asset>\n";
		}
		return x + "</AssetList>\n</PackingList>\n";
	}

	void compare(Src& s, dcp::PKL const& pkl, bool check_id) const
	{
		Head::compare(pkl, pkl, check_id);
		same(pkl.group_id(), group, "group ID");
		auto got = pkl.assets();
		check_eq(got.size(), assets.size(), "number of assets");
		for (size_t i = 0; i < got.size(); ++i) {
			auto const& a = assets[i];
			check_eq(got[i]->id(), a.id, "asset ID");
			same(got[i]->annotation_text(), a.annotation, "asset annotation");
			check_eq(got[i]->hash(), a.hash, "asset hash");
			check_eq(got[i]->size(), a.size, "asset size");
			check_eq(got[i]->type(), a.type, "asset type");
			same(got[i]->original_filename(), a.original, "original filename");
		}
		auto lookup = [&](string id) {
			opt<string> hash, type;
			for (auto const& a: assets) {
				if (a.id == id) {
					hash = a.hash;
					type = a.type;
					break;
				}
			}
			same(pkl.hash(id), hash, "hash of " + id);
			same(pkl.type(id), type, "type of " + id);
		};
		for (auto const& a: assets) {
			lookup(a.id);
		}
		lookup(full::uuid(s));
		lookup("");
	}
};

static void put(boost::filesystem::path p, string x)
{
	std::ofstream f(p.string(), std::ios::binary);
	f << x;
}

static Register pkl_read("pkl_read", 12000, 250000, "some assets", [](Src& s) {
	PKLModel m;
	m.generate(s, false);
	boost::filesystem::path const dir = s.scratch();
	s.note("xml", m.xml());
	s.nontrivial_if(!m.assets.empty());
	put(dir / "a.xml", m.xml());

	dcp::PKL pkl(dir / "a.xml");
	check(pkl.file() && *pkl.file() == dir / "a.xml", "wrong file after reading");
	m.compare(s, pkl, true);
	m.change(s, pkl);
	pkl.write_xml(dir / "b.xml", {});
	check(pkl.file() && *pkl.file() == dir / "b.xml", "wrong file after writing");
	m.compare(s, pkl, true);
	vector<dcp::VerificationNote> notes;
	dcp::PKL again(dir / "b.xml", &notes);
	check_eq(notes.size(), size_t(0), "number of notes");
	m.compare(s, again, true);
});

static Register pkl_set("pkl_set", 8000, 200000, "some assets", [](Src& s) {
	PKLModel m;
	m.generate(s, true);
	boost::filesystem::path const dir = s.scratch();
	s.note("as xml", m.xml());
	s.nontrivial_if(!m.assets.empty());
	dcp::PKL pkl(m.standard, m.annotation, m.date, m.issuer, m.creator, m.group);
	check(!pkl.file(), "file before writing");
	auto add = [&]() {
		for (auto const& a: m.assets) {
			pkl.add_asset(a.id, a.annotation, a.hash, a.size, a.type, *a.original);
		}
	};
	if (s.chance(30)) {
		add();
		pkl.clear_assets();
		check(pkl.assets().empty(), "assets left after clearing");
	}
	add();
	m.compare(s, pkl, false);
	m.id = pkl.id();
	m.change(s, pkl);
	pkl.write_xml(dir / "a.xml", {});
	dcp::PKL again(dir / "a.xml");
	m.compare(s, again, true);
});

static Register pkl_namespace("pkl_namespace", 2000, 20000, "all", [](Src& s) {
	PKLModel m;
	m.generate(s, false);
	boost::filesystem::path const dir = s.scratch();
	auto x = m.xml();
	auto const start = x.find("xmlns=\"") + 7;
	auto const end = x.find("\"", start);
	auto ns = x.substr(start, end - start);
	bool resolve = false;
	if (s.chance(30)) {
		ns = "http://www.smpte-ra.org/schemas/2067-2/2016/PKL";
		resolve = true;
	} else {
		/* One character different, but still a URL */
		auto const i = s.range(7, ns.size() - 1);
		ns[i] = ns[i] == 'x' ? 'y' : 'x';
	}
	x.replace(start, end - start, ns);
	s.note("namespace", ns);
	s.note("id", m.id);
	s.nontrivial();
	put(dir / "a.xml", x);
	vector<dcp::VerificationNote> notes;
	bool ok = true;
	try {
		dcp::PKL pkl(dir / "a.xml", &notes);
		m.standard = dcp::Standard::SMPTE;
		auto const group = m.group;
		m.compare(s, pkl, true);
	} catch (dcp::XMLError&) {
		ok = false;
	}
	check_eq(ok, resolve, "accepted");
	if (resolve) {
		check_eq(notes.size(), size_t(1), "number of notes");
		check(notes[0].code() == dcp::VerificationNote::Code::INVALID_PKL_NAMESPACE, "wrong note");
		check_eq(notes[0].xml_namespace().get_value_or(""), ns, "namespace in note");
		/* It's OK not to want the notes */
		dcp::PKL quiet(dir / "a.xml");
	}
});

struct MapModel : public Head
{
	struct Asset
	{
		string id;
		string path;  ///< path to put in the XML, or to use in the interface
		string file;  ///< path relative to the root, simplified
		int pkl;      ///< 0 for no, 1 for yes, 2 for <PackingList> with "false"
		int size;
	};

	vector<Asset> assets;

	void generate(Src& s)
	{
		Head::generate(s);
		vector<string> const dirs = { "", "", "sub/", "sub/deeper/", "a b/" };
		std::set<string> used;
		for (int n = 0; s.more(n, 0, 6, 75); ++n) {
			Asset a;
			a.id = !assets.empty() && s.chance(10) ? s.pick(assets).id : full::uuid(s);
			string name;
			do {
				name = s.str({"a", "b", "C", "1", " ", "-", "_", "&", "\xc3\xa9", "%", ".", "'", "<", "#"}, 1, 6);
			} while (name == "." || name == ".." || name[0] == ' ' || name.back() == ' ' || name.find("  ") != string::npos);
			name = s.pick(dirs) + name + ".mxf";
			if (!used.insert(name).second) {
				continue;
			}
			a.file = a.path = name;
			a.pkl = s.weighted({50, 40, 10});
			a.size = s.draw(3000);
			assets.push_back(a);
		}
	}

	bool pkl(Asset const& a) const
	{
		return a.pkl == 1 || (a.pkl == 2 && standard == dcp::Standard::INTEROP);
	}

	string xml() const
	{
		string x = string("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<AssetMap xmlns=\"") +
			(standard == dcp::Standard::SMPTE ? "http://www.smpte-ra.org/schemas/429-9/2007/AM" : "http://www.digicine.com/PROTO-ASDCP-AM-20040311#") + "\">\n" + Head::xml() + tag("VolumeCount", "1") + "<AssetList>\n";
		for (auto const& a: assets) {
			x += "<Asset>" + tag("Id", "urn:uuid:" + a.id);
			if (a.pkl == 1) {
				/* Interop ones often have an empty node */
				x += standard == dcp::Standard::INTEROP && (a.size & 1) ? "<PackingList/>" : "<PackingList>true</PackingList>";
			} else if (a.pkl == 2) {
				x += "<PackingList>false</PackingList>";
			}
			x += "<ChunkList><Chunk>" + tag("Path", a.path) + "</Chunk></ChunkList></Asset>\n";
		}
		return x + "</AssetList></AssetMap>\n";
	}

	void make(boost::filesystem::path root) const
	{
		for (auto const& a: assets) {
			boost::filesystem::create_directories((root / a.file).parent_path());
			put(root / a.file, string(a.size, 'x'));
		}
	}

	static string simple(boost::filesystem::path p)
	{
		return p.lexically_normal().generic_string();
	}

	void compare(dcp::AssetMap const& map, boost::filesystem::path root, bool check_id) const
	{
		Head::compare(map, map, check_id);
		auto got = map.assets();
		check_eq(got.size(), assets.size(), "number of assets");
		std::map<string, string> want_map, got_map;
		vector<string> want_pkl, got_pkl;
		for (size_t i = 0; i < assets.size(); ++i) {
			auto const want = simple(root / assets[i].file);
			check_eq(got[i].id(), assets[i].id, "asset ID");
			check_eq(simple(got[i].path()), want, "asset path");
			check_eq(got[i].pkl(), pkl(assets[i]), "is " + assets[i].file + " a PKL");
			want_map[assets[i].id] = want;
			if (pkl(assets[i])) {
				want_pkl.push_back(want);
			}
		}
		for (auto const& i: map.asset_ids_and_paths()) {
			got_map[i.first] = simple(i.second);
		}
		for (auto const& i: map.pkl_paths()) {
			got_pkl.push_back(simple(i));
		}
		check(want_map == got_map, "wrong IDs and paths");
		check(want_pkl == got_pkl, "wrong PKL paths");
	}
};

/** Contents of all <name> elements in some XML */
static vector<string> contents(string const& x, string name)
{
	vector<string> r;
	size_t i = 0;
	while ((i = x.find("<" + name + ">", i)) != string::npos) {
		i += name.size() + 2;
		auto const j = x.find("</" + name + ">", i);
		r.push_back(x.substr(i, j - i));
		i = j;
	}
	return r;
}

static void check_written(MapModel const& m, boost::filesystem::path file)
{
	auto const x = media::read_file(file);
	auto lengths = contents(x, "Length");
	auto paths = contents(x, "Path");
	check_eq(lengths.size(), m.assets.size(), "number of lengths");
	check_eq(paths.size(), m.assets.size(), "number of paths");
	for (size_t i = 0; i < lengths.size(); ++i) {
		check_eq(lengths[i], std::to_string(m.assets[i].size), "length of " + m.assets[i].file);
		check_eq(paths[i], [&]() {
			/* " need not be escaped here */
			string e;
			for (auto c: m.assets[i].file) {
				e += c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : string(1, c);
			}
			return e;
		}(), "path in XML");
	}
}

static Register map_read("map_read", 6000, 120000, "some assets", [](Src& s) {
	MapModel m;
	m.generate(s);
	boost::filesystem::path const root = boost::filesystem::path(s.scratch()) / "dcp";
	boost::filesystem::create_directory(root);
	m.make(root);
	for (auto& a: m.assets) {
		switch (s.weighted({60, 20, 20})) {
		case 1:
			a.path = "file://" + a.path;
			break;
		case 2:
			a.path = "./" + a.path;
			break;
		}
	}
	s.note("xml", m.xml());
	s.nontrivial_if(!m.assets.empty());
	put(root / "AM", m.xml());
	dcp::AssetMap map(root / "AM");
	m.compare(map, root, true);
	m.change(s, map);
	map.write_xml(root / "ASSETMAP");
	check(map.file() && *map.file() == root / "ASSETMAP", "wrong file after writing");
	check_written(m, root / "ASSETMAP");

	/* Whatever the directory is called, the asset map means the same */
	boost::filesystem::path moved = root;
	if (s.boolean()) {
		moved = root.parent_path() / "elsewhere";
		boost::filesystem::rename(root, moved);
	}
	dcp::AssetMap again(moved / "ASSETMAP");
	if (m.standard == dcp::Standard::INTEROP) {
		for (auto& a: m.assets) {
			a.pkl = m.pkl(a) ? 1 : 0;
		}
	}
	m.compare(again, moved, true);
});

static Register map_set("map_set", 6000, 120000, "some assets", [](Src& s) {
	MapModel m;
	m.generate(s);
	boost::filesystem::path const root = boost::filesystem::path(s.scratch()) / "dcp";
	boost::filesystem::create_directory(root);
	boost::filesystem::create_directory(root / "sub");
	m.make(root);
	s.note("as xml", m.xml());
	s.nontrivial_if(!m.assets.empty());
	dcp::AssetMap map(m.standard, m.annotation, m.date, m.issuer, m.creator);
	for (auto& a: m.assets) {
		a.pkl = a.pkl == 1;
		boost::filesystem::path p = root / a.file;
		switch (s.weighted({60, 20, 20})) {
		case 1:
			p = root / "sub" / ".." / a.file;
			break;
		case 2:
			p = root / "." / a.file;
			break;
		}
		if (s.chance(10)) {
			map.add_asset(a.id, p, a.pkl);
			map.clear_assets();
			/* Put back the earlier ones */
			for (auto const& b: m.assets) {
				if (&b == &a) {
					break;
				}
				map.add_asset(b.id, root / b.file, b.pkl);
			}
		}
		map.add_asset(a.id, p, a.pkl);
	}
	m.compare(map, root, false);
	m.id = map.id();
	m.change(s, map);
	map.write_xml(root / "ASSETMAP");
	check_written(m, root / "ASSETMAP");
	dcp::AssetMap again(root / "ASSETMAP");
	m.compare(again, root, true);
});

static Register map_refused("map_refused", 3000, 60000, "all", [](Src& s) {
	MapModel m;
	m.generate(s);
	boost::filesystem::path const dir = s.scratch();
	auto x = m.xml();
	auto cut = [&](string from, string to) {
		auto const i = x.find(from);
		if (i == string::npos) {
			s.discard();
		}
		x.replace(i, from.size(), to);
	};
	switch (s.weighted({1, 1, 1, 1, 1})) {
	case 0:
		cut("</Chunk>", "</Chunk><Chunk><Path>x</Path></Chunk>");
		break;
	case 1:
	{
		auto const i = x.find("<Chunk>");
		if (i == string::npos) {
			s.discard();
		}
		auto const j = x.find("</Chunk>");
		x.replace(i, j + 8 - i, "");
		break;
	}
	case 2:
	{
		auto const start = x.find("xmlns=\"") + 7;
		auto const end = x.find("\"", start);
		x[start + s.draw(end - start - 1)] = '~';
		break;
	}
	case 3:
		cut("<AssetMap", "<AssetMop");
		cut("</AssetMap", "</AssetMop");
		break;
	case 4:
	{
		auto const name = s.pick({"IssueDate", "Issuer", "Creator", "Id"});
		cut(string("<") + name + ">", "<Other>");
		cut(string("</") + name + ">", "</Other>");
		break;
	}
	}
	s.note("xml", x);
	s.nontrivial();
	put(dir / "ASSETMAP", x);
	bool ok = true;
	try {
		dcp::AssetMap map(dir / "ASSETMAP");
	} catch (dcp::XMLError&) {
		ok = false;
	} catch (cxml::Error&) {
		ok = false;
	}
	check(!ok, "bad asset map was accepted");
});
