/* Filesystem operations do what boost's do */

#include "blob.h"
#include "filesystem.h"
#include <boost/filesystem.hpp>
#include <algorithm>
#include <sys/time.h>

using namespace pbt;
namespace df = dcp::filesystem;
namespace bf = boost::filesystem;
using boost::system::error_code;

static std::vector<std::string> const names = {"a", "b", "c", "d.mxf", "e.x.y", "é f"};

/** Symbolic links never point upwards, so a path with no more .. than there are names before them stays inside our tree */
static std::string gen_path(Src& s, std::string const& root, bool plain = false)
{
	std::string p;
	int depth = 0;
	int n = 0;
	for (; s.more(n, 1, 4, 45); ++n) {
		if (n) {
			p += !plain && s.chance(5) ? "//" : "/";
		}
		int const k = plain ? 0 : s.weighted({88, 6, 6});
		if (k == 0) {
			p += s.pick(names);
			++depth;
		} else if (k == 1 || depth == 0) {
			p += ".";
		} else {
			p += "..";
			--depth;
		}
	}
	if (!plain) {
		switch (s.weighted({70, 20, 8, 2})) {
		case 1:
			p = root + "/" + p;
			break;
		case 2:
			p += "/";
			break;
		case 3:
			p = "";
			break;
		}
	}
	return p;
}

/** Everything about a tree of files except times and where it is */
static std::string snapshot(std::string const& dir, std::string const& indent = "")
{
	std::vector<std::string> entries;
	if (auto d = opendir(dir.c_str())) {
		while (auto e = readdir(d)) {
			std::string const n = e->d_name;
			if (n != "." && n != "..") {
				entries.push_back(n);
			}
		}
		closedir(d);
	}
	std::sort(entries.begin(), entries.end());
	std::string out;
	for (auto const& n: entries) {
		auto const p = dir + "/" + n;
		struct stat st;
		if (lstat(p.c_str(), &st)) {
			continue;
		}
		char mode[16];
		snprintf(mode, sizeof(mode), "%o", static_cast<unsigned>(st.st_mode & 07777));
		out += indent + n + " " + mode + " ";
		if (S_ISLNK(st.st_mode)) {
			char t[4096];
			auto k = readlink(p.c_str(), t, sizeof(t));
			out += "-> " + std::string(t, std::max<ssize_t>(k, 0)) + "\n";
		} else if (S_ISDIR(st.st_mode)) {
			out += "dir\n" + snapshot(p, indent + "  ");
		} else {
			out += std::to_string(st.st_nlink) + " links, " + std::to_string(st.st_size) + " bytes " + hash_bytes(get_file(p)) + "\n";
		}
	}
	return out;
}

/** The result of something, or its error */
template <class F>
std::string outcome(F f)
{
	try {
		return f();
	} catch (bf::filesystem_error& e) {
		return "error " + std::to_string(e.code().value());
	}
}

static std::string with(error_code const& ec, std::string r)
{
	return r + " ec=" + std::to_string(ec.value());
}

static std::string yes(bool b)
{
	return b ? "true" : "false";
}

template <class Iter>
std::vector<std::string> walk(Iter i, Iter end)
{
	std::vector<std::string> o;
	int n = 0;
	for (; i != end && n < 1000; ++i, ++n) {
		o.push_back(i->path().string());
		bf::path const p = *i;
		check_eq(p.string(), o.back(), "entry by * and by ->");
	}
	std::sort(o.begin(), o.end());
	return o;
}

static std::string join(std::vector<std::string> const& v)
{
	std::string o;
	for (auto const& i: v) {
		o += i + "\n";
	}
	return o;
}

static void populate(Src& s, std::string const& a, std::string const& b)
{
	std::vector<std::string> dirs = {""};
	int n = 0;
	for (; s.more(n, 2, 14, 88); ++n) {
		auto const d = s.pick(dirs);
		auto const p = d + "/" + s.pick(names);
		if (there(a + p)) {
			continue;
		}
		switch (s.weighted({40, 40, 20})) {
		case 0:
			mkdir((a + p).c_str(), 0755);
			mkdir((b + p).c_str(), 0755);
			if (std::count(p.begin(), p.end(), '/') < 4) {
				dirs.push_back(p);
			}
			break;
		case 1:
		{
			auto const c = s.chance(30) ? Bytes() : s.bytes(0, 40);
			put_file(a + p, c);
			put_file(b + p, c);
			if (s.chance(20)) {
				chmod((a + p).c_str(), 0444);
				chmod((b + p).c_str(), 0444);
			}
			timeval const tv[2] = {{1000000000, 0}, {static_cast<time_t>(s.draw(2000000000)), 0}};
			utimes((a + p).c_str(), tv);
			utimes((b + p).c_str(), tv);
			break;
		}
		default:
		{
			auto const t = gen_path(s, "", true);
			if (symlink(t.c_str(), (a + p).c_str()) || symlink(t.c_str(), (b + p).c_str())) {
				throw std::runtime_error("harness could not make link");
			}
		}
		}
	}
}

/** Operations which change nothing: ask the same question about the same tree */
static Register queries("queries", 20000, 600000, "the path exists", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	auto const a = dir + "/A", b = dir + "/B";
	mkdir(a.c_str(), 0755);
	mkdir(b.c_str(), 0755);
	populate(s, a, b);
	auto const before = snapshot(a);
	if (chdir(a.c_str())) {
		throw std::runtime_error("harness could not change directory");
	}
	int found = 0;
	std::string paths;
	for (int i = 0; i < 5; ++i) {
		auto const path = gen_path(s, a);
		paths += quote(path.compare(0, a.size(), a) == 0 ? "ROOT" + path.substr(a.size()) : path) + " ";
		bf::path const p = path;
		auto compare = [&](char const* what, std::function<std::string ()> x, std::function<std::string ()> y) {
			check_eq(outcome(x), outcome(y), std::string(what) + " of " + quote(path), "tree:\n" + before);
		};
		{
			error_code ec;
			if (bf::exists(p, ec)) {
				++found;
			}
		}
		compare("exists", [&]() { return yes(df::exists(p)); }, [&]() { return yes(bf::exists(p)); });
		compare("exists", [&]() { error_code ec; auto r = df::exists(p, ec); return with(ec, yes(r)); }, [&]() { error_code ec; auto r = bf::exists(p, ec); return with(ec, yes(r)); });
		compare("is_directory", [&]() { return yes(df::is_directory(p)); }, [&]() { return yes(bf::is_directory(p)); });
		compare("is_regular_file", [&]() { return yes(df::is_regular_file(p)); }, [&]() { return yes(bf::is_regular_file(p)); });
		compare("is_empty", [&]() { return yes(df::is_empty(p)); }, [&]() { return yes(bf::is_empty(p)); });
		compare("file_size", [&]() { return std::to_string(df::file_size(p)); }, [&]() { return std::to_string(bf::file_size(p)); });
		compare("file_size", [&]() { error_code ec; auto r = df::file_size(p, ec); return with(ec, std::to_string(r)); }, [&]() { error_code ec; auto r = bf::file_size(p, ec); return with(ec, std::to_string(r)); });
		compare("hard_link_count", [&]() { return std::to_string(df::hard_link_count(p)); }, [&]() { return std::to_string(bf::hard_link_count(p)); });
		compare("last_write_time", [&]() { return std::to_string(df::last_write_time(p)); }, [&]() { return std::to_string(bf::last_write_time(p)); });
		compare("last_write_time", [&]() { error_code ec; auto r = df::last_write_time(p, ec); return with(ec, std::to_string(r)); }, [&]() { error_code ec; auto r = bf::last_write_time(p, ec); return with(ec, std::to_string(r)); });
		compare("absolute", [&]() { return df::absolute(p).string(); }, [&]() { return bf::absolute(p).string(); });
		compare("canonical", [&]() { return df::canonical(p).string(); }, [&]() { return bf::canonical(p).string(); });
		compare("space", [&]() { return std::to_string(df::space(p).capacity); }, [&]() { return std::to_string(bf::space(p).capacity); });
		compare("entries", [&]() { return join(walk(df::directory_iterator(p), df::directory_iterator())); }, [&]() { return join(walk(bf::directory_iterator(p), bf::directory_iterator())); });
		compare("entries (for)", [&]() { std::vector<std::string> v; for (auto j: df::directory_iterator(p)) { v.push_back(j.path().string()); } std::sort(v.begin(), v.end()); return join(v); }, [&]() { return join(walk(bf::directory_iterator(p), bf::directory_iterator())); });
		compare("entries", [&]() { error_code ec; auto v = walk(df::directory_iterator(p, ec), df::directory_iterator()); return with(ec, join(v)); }, [&]() { error_code ec; auto v = walk(bf::directory_iterator(p, ec), bf::directory_iterator()); return with(ec, join(v)); });
		compare("recursive entries", [&]() { return join(walk(df::recursive_directory_iterator(p), df::recursive_directory_iterator())); }, [&]() { return join(walk(bf::recursive_directory_iterator(p), bf::recursive_directory_iterator())); });
		compare("recursive entries (for)", [&]() { std::vector<std::string> v; for (auto j: df::recursive_directory_iterator(p)) { v.push_back(j.path().string()); } std::sort(v.begin(), v.end()); return join(v); }, [&]() { return join(walk(bf::recursive_directory_iterator(p), bf::recursive_directory_iterator())); });
		compare("current_path", [&]() { df::current_path(p); auto r = df::current_path().string(); bf::current_path(a); return r; }, [&]() { bf::current_path(p); auto r = bf::current_path().string(); bf::current_path(a); return r; });
	}
	s.note("tree", before);
	s.note("paths", paths);
	s.nontrivial_if(found >= 2);
	check_eq(snapshot(a), before, "tree after questions");
});

static Register changes("changes", 30000, 800000, "at least two operations succeeded", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	auto const a = dir + "/A", b = dir + "/B";
	mkdir(a.c_str(), 0755);
	mkdir(b.c_str(), 0755);
	populate(s, a, b);
	std::string log = snapshot(a);
	s.note("tree", log);
	std::string ops;
	int worked = 0;
	int n = 0;
	for (; s.more(n, 1, 12, 88); ++n) {
		auto const op = s.draw(16);
		/* Make the same choices for each tree */
		auto const p0 = gen_path(s, "\1"), q0 = gen_path(s, "\1");
		auto const target = gen_path(s, "", true);
		auto in = [](std::string p, std::string const& root) {
			return bf::path(!p.empty() && p[0] == '\1' ? root + p.substr(1) : p);
		};
		static char const* op_names[] = {
			"create_directory", "create_directory/ec", "copy", "copy_file", "copy_file/ec", "copy_file/none", "copy_file/overwrite", "create_directories", "create_directories/ec",
			"remove", "remove/ec", "remove_all", "remove_all/ec", "create_hard_link", "create_hard_link/ec", "create_symlink", "rename"
		};
		bool const with_ec = s.boolean();
		auto name = std::string(op_names[op]) + (op == 16 && with_ec ? "/ec" : "");
		/* Leave the root where it is */
		auto const root = bf::path(in(p0, "/R")).lexically_normal().string();
		if ((op >= 9 && op <= 12) || op == 16) {
			if (root == "/R" || root == "." || root == "" || root == "./" || root == "/R/" || root == "/R/.") {
				continue;
			}
		}
		ops += name + "(" + quote(in(p0, "ROOT").string()) + ", " + quote(op == 15 ? target : in(q0, "ROOT").string()) + ") ";
		auto const p = in(p0, a), q = in(q0, a), P = in(p0, b), Q = in(q0, b);
		if (chdir(a.c_str())) {
			fail("the root directory has gone after " + ops);
		}
		auto const got = outcome([&]() -> std::string {
			error_code ec;
			switch (op) {
			case 0: return yes(df::create_directory(p));
			case 1: { auto r = df::create_directory(p, ec); return with(ec, yes(r)); }
			case 2: df::copy(p, q); return "ok";
			case 3: df::copy_file(p, q); return "ok";
			case 4: df::copy_file(p, q, ec); return with(ec, "ok");
			case 5: df::copy_file(p, q, df::CopyOptions::NONE); return "ok";
			case 6: df::copy_file(p, q, df::CopyOptions::OVERWRITE_EXISTING); return "ok";
			case 7: return yes(df::create_directories(p));
			case 8: { auto r = df::create_directories(p, ec); return with(ec, yes(r)); }
			case 9: return yes(df::remove(p));
			case 10: { auto r = df::remove(p, ec); return with(ec, yes(r)); }
			case 11: return std::to_string(df::remove_all(p));
			case 12: { auto r = df::remove_all(p, ec); return with(ec, std::to_string(r)); }
			case 13: df::create_hard_link(p, q); return "ok";
			case 14: df::create_hard_link(p, q, ec); return with(ec, "ok");
			case 15: df::create_symlink(target, p, ec); return with(ec, "ok");
			default:
				if (with_ec) {
					df::rename(p, q, ec);
					return with(ec, "ok");
				}
				df::rename(p, q);
				return "ok";
			}
		});
		if (chdir(b.c_str())) {
			fail("the other root directory has gone after " + ops);
		}
		auto const want = outcome([&]() -> std::string {
			error_code ec;
			switch (op) {
			case 0: return yes(bf::create_directory(P));
			case 1: { auto r = bf::create_directory(P, ec); return with(ec, yes(r)); }
			case 2: bf::copy(P, Q); return "ok";
			case 3: bf::copy_file(P, Q); return "ok";
			case 4: bf::copy_file(P, Q, ec); return with(ec, "ok");
			case 5: bf::copy_file(P, Q, bf::copy_options::none); return "ok";
			case 6: bf::copy_file(P, Q, bf::copy_options::overwrite_existing); return "ok";
			case 7: return yes(bf::create_directories(P));
			case 8: { auto r = bf::create_directories(P, ec); return with(ec, yes(r)); }
			case 9: return yes(bf::remove(P));
			case 10: { auto r = bf::remove(P, ec); return with(ec, yes(r)); }
			case 11: return std::to_string(bf::remove_all(P));
			case 12: { auto r = bf::remove_all(P, ec); return with(ec, std::to_string(r)); }
			case 13: bf::create_hard_link(P, Q); return "ok";
			case 14: bf::create_hard_link(P, Q, ec); return with(ec, "ok");
			case 15: bf::create_symlink(target, P, ec); return with(ec, "ok");
			default:
				if (with_ec) {
					bf::rename(P, Q, ec);
					return with(ec, "ok");
				}
				bf::rename(P, Q);
				return "ok";
			}
		});
		check_eq(got, want, "result of the last of " + ops);
		if (want.compare(0, 5, "error") && want.find("ec=") == std::string::npos) {
			++worked;
		} else if (want.find(" ec=0") != std::string::npos) {
			++worked;
		}
		s.label(name);
		check_eq(snapshot(a), snapshot(b), "files after " + ops);
	}
	s.note("operations", ops);
	s.nontrivial_if(worked >= 2);
});
