/* Path names */

#include "blob.h"
#include "filesystem.h"
#include <boost/filesystem.hpp>

using namespace pbt;
namespace df = dcp::filesystem;
namespace bf = boost::filesystem;

static std::vector<std::string> split(std::string const& p)
{
	std::vector<std::string> o;
	std::string part;
	for (auto c: p + "/") {
		if (c == '/') {
			if (!part.empty()) {
				o.push_back(part);
			}
			part.clear();
		} else {
			part += c;
		}
	}
	return o;
}

static std::string gen_tail(Src& s, std::vector<std::string> const& names, int max)
{
	std::string p;
	int n = 0;
	for (; s.more(n, 0, max, 80); ++n) {
		if (n) {
			p += s.chance(10) ? "//" : "/";
		}
		switch (s.weighted({55, 30, 15})) {
		case 0: p += s.pick(names); break;
		case 1: p += ".."; break;
		case 2: p += "."; break;
		}
	}
	if (n && s.chance(10)) {
		p += "/";
	}
	return p;
}

static std::string without_slash(std::string p)
{
	while (p.size() > 1 && p.back() == '/') {
		p.pop_back();
	}
	if (p.size() > 2 && p.substr(p.size() - 2) == "/.") {
		p = p.substr(0, p.size() - 2);
	}
	return p;
}

static std::vector<std::string> const made_up = {"a", "b", "foo.x", "...", "..x", ".y", "é", "long name", std::string(255, 'n')};

static Register lexical("lexical", 400000, 10000000, "there is a .. in the path", [](Src& s) {
	/* Nothing of this path exists except, perhaps, where it starts */
	unprivileged();
	static std::string dir;
	if (dir.empty()) {
		dir = scratch_root() + "/lexical" + std::to_string(getpid());
		mkdir(dir.c_str(), 0755);
	}
	if (chdir(dir.c_str())) {
		throw std::runtime_error("harness could not change directory");
	}
	auto const tail = gen_tail(s, made_up, 10);
	std::string path;
	switch (s.weighted({40, 30, 30})) {
	case 0:
		path = tail;
		break;
	case 1:
		path = "/nonexistent-root/" + tail;
		break;
	case 2:
		/* perhaps straight up from the root */
		path = "/" + tail;
		while (path.size() > 1 && path[1] == '/') {
			path.erase(1, 1);
		}
		break;
	}
	if (path.empty()) {
		s.discard();
	}
	s.note("path", path);
	s.nontrivial_if(path.find("..") != std::string::npos);
	std::vector<std::string> want;
	for (auto const& i: split(path[0] == '/' ? path : dir + "/" + path)) {
		if (i == "..") {
			if (!want.empty()) {
				want.pop_back();
			}
		} else if (i != ".") {
			want.push_back(i);
		}
		struct stat st;
		std::string so_far;
		for (auto const& j: want) {
			so_far += "/" + j;
		}
		if (!so_far.empty() && lstat(so_far.c_str(), &st) == 0 && S_ISLNK(st.st_mode)) {
			/* The machine we're on happens to have links */
			s.discard();
		}
	}
	std::string w;
	for (auto const& i: want) {
		w += "/" + i;
	}
	if (w.empty()) {
		w = "/";
	}
	check_eq(without_slash(df::weakly_canonical(path).string()), w, "weakly_canonical");
});

/** @return where a path leads, following any links; going into something that does not exist, then out of it, has no effect */
static std::string follow(std::vector<std::string> const& parts)
{
	std::string at;
	for (auto const& i: parts) {
		if (i == "..") {
			at = at.substr(0, at.empty() ? 0 : at.rfind('/'));
		} else if (i != ".") {
			at += "/" + i;
			if (bf::is_symlink(at)) {
				at = bf::canonical(at).string();
				if (at == "/") {
					at = "";
				}
			}
		}
	}
	return at;
}

static Register links("links", 40000, 1000000, "the path goes up from inside a symbolic link", [](Src& s) {
	unprivileged();
	auto const dir = bf::canonical(s.scratch()).string();
	std::vector<std::string> dirs = {""};
	std::vector<std::string> const names = {"a", "b", "c", "d"};
	std::string tree;
	int links_made = 0;
	int n = 0;
	for (; s.more(n, 2, 8, 80); ++n) {
		auto const p = s.pick(dirs) + "/" + s.pick(names);
		if (there(dir + p)) {
			continue;
		}
		switch (s.weighted({45, 45, 10})) {
		case 0:
			mkdir((dir + p).c_str(), 0755);
			dirs.push_back(p);
			tree += p + " ";
			break;
		case 1:
		{
			/* to a directory which exists, so there are no loops */
			auto const t = s.pick(dirs);
			std::string to = dir + t;
			if (s.boolean()) {
				/* the same, relatively */
				to = "";
				for (size_t i = 1; i < split(p).size(); ++i) {
					to += "../";
				}
				/* .. from a directory reached through a link goes up from where the link points */
				auto const parent = bf::canonical(dir + p.substr(0, p.rfind('/'))).string();
				to = bf::path(dir + t).lexically_relative(parent).string();
			}
			if (symlink(to.c_str(), (dir + p).c_str())) {
				throw std::runtime_error("harness could not make link");
			}
			dirs.push_back(p);
			tree += p + "->" + (to[0] == '/' ? "ROOT" + t : to) + " ";
			++links_made;
			break;
		}
		default:
			put_file(dir + p, {1});
			tree += p + "=file ";
		}
	}
	if (chdir((dir + s.pick(dirs)).c_str())) {
		throw std::runtime_error("harness could not change directory");
	}
	auto const cwd = bf::current_path().string();
	auto path = gen_tail(s, names, 8);
	if (s.boolean()) {
		path = dir + "/" + path;
	}
	if (path.empty()) {
		s.discard();
	}
	s.note("tree", tree);
	s.note("cwd", cwd.substr(dir.size()));
	s.note("path", path.compare(0, dir.size(), dir) == 0 ? "ROOT" + path.substr(dir.size()) : path);
	auto const got = df::weakly_canonical(path).string();
	check(got.size() && got[0] == '/', "result is not absolute: " + got);
	bool through = false;
	std::string so_far;
	for (auto const& i: split(got)) {
		check(i != ".", ". in the result " + got);
		if (i == "..") {
			through = true;
			check(bf::is_symlink(so_far) || bf::path(so_far).filename() == "..", ".. in the result which isn't after a link: " + got);
		}
		so_far += "/" + i;
	}
	s.nontrivial_if(through);
	/* It refers to the same place */
	check_eq(follow(split(got)), follow(split(path[0] == '/' ? path : cwd + "/" + path)), "where the result " + got + " points");
});

static Register extensions("extensions", 400000, 10000000, "the name has a dot in it", [](Src& s) {
	auto const name = s.str({"a", "bc", "é", " ", ".", ".", "mxf", "-", "X", std::string(120, 'q')}, 1, 8);
	if (name[0] == '.') {
		s.discard();
	}
	auto const dir = s.str({"d", "e.f", "/", "..", ".", "/"}, 0, 6);
	auto const path = dir.empty() ? name : (dir.back() == '/' ? dir + name : dir + "/" + name);
	if (path.size() > 1 && path[0] == '/' && path[1] == '/') {
		s.discard();
	}
	auto ext = s.str({"mxf", "x", "é", " ", "tmp"}, 0, 3);
	bool const dot = s.boolean();
	if (dot && !ext.empty()) {
		ext = "." + ext;
	}
	s.note("path", path);
	s.note("extension", ext);
	auto const d = name.rfind('.');
	s.nontrivial_if(d != std::string::npos);
	check_eq(df::extension(path), d == std::string::npos ? "" : name.substr(d), "extension");
	auto want = path.substr(0, path.size() - name.size()) + (d == std::string::npos ? name : name.substr(0, d));
	if (!ext.empty()) {
		want += (ext[0] == '.' ? "" : ".") + ext;
	}
	check_eq(df::change_extension(path, ext).string(), want, "change_extension");
	/* There's nothing to do to long paths unless you are on Windows */
	check_eq(df::fix_long_path(path).string(), path, "fix_long_path");
	check_eq(df::unfix_long_path(path).string(), path, "unfix_long_path");
});
