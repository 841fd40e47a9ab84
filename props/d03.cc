/* The file wrapper against stdio */

#include "blob.h"
#include "file.h"
#include "exceptions.h"
#include <memory>

using namespace pbt;

static Bytes nonempty(Src& s)
{
	auto b = gen_blob(s);
	if (b.empty()) {
		b.push_back('x');
	}
	return b;
}

/* Each slot has a dcp::File and what we think that it should be */
struct Slot
{
	std::unique_ptr<dcp::File> file;
	FILE* model = nullptr;
	bool model_open = false;
	int which = -1; ///< index of file that the model has open
	int error = 0;
};

static Register model("model", 60000, 900000, "at least four operations, on an open file or by moving one", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	/* Two lots of files: those used via dcp::File (f0 to f2) and those used with stdio (m0 to m2) */
	for (int i = 0; i < 3; ++i) {
		auto const b = s.chance(70) ? gen_blob(s) : Bytes();
		Bytes text;
		for (auto c: b) {
			text.push_back(c % 16 == 0 ? '\n' : 'a' + c % 26);
		}
		if (s.chance(80)) {
			put_file(dir + "/f" + std::to_string(i), text);
			put_file(dir + "/m" + std::to_string(i), text);
		}
	}
	int const fds = count_fds();
	int interesting = 0;
	std::string log;
	{
		std::vector<Slot> slots(3);
		auto close_model = [&](Slot& x) {
			if (x.model_open) {
				fclose(x.model);
			}
			x.model_open = false;
			x.model = nullptr;
		};
		auto any = [&](bool want_open) -> Slot* {
			std::vector<Slot*> v;
			for (auto& i: slots) {
				if (i.file && (!want_open || i.model_open)) {
					v.push_back(&i);
				}
			}
			return v.empty() ? nullptr : s.pick(v);
		};
		std::set<int> in_use;
		int n = 0;
		for (; s.more(n, 1, 30, 92); ++n) {
			auto const op = s.weighted({22, 8, 10, 8, 10, 8, 4, 5, 5, 5, 4, 5, 3, 3});
			if (op == 0) {
				/* Open */
				auto& x = slots[s.draw(2)];
				std::vector<int> free;
				for (int i = 0; i < 3; ++i) {
					bool used = false;
					for (auto const& y: slots) {
						used = used || (&y != &x && y.model_open && y.which == i);
					}
					if (!used) {
						free.push_back(i);
					}
				}
				int const w = s.pick(free);
				std::string const mode = s.pick<std::string>({"rb", "wb", "r+b", "w+b", "a+b", "ab"});
				auto const num = std::to_string(w);
				log += "open" + num + mode + " ";
				x.file.reset();
				close_model(x);
				errno = 0;
				x.model = fopen((dir + "/m" + num).c_str(), mode.c_str());
				x.error = x.model ? 0 : errno;
				x.model_open = x.model != nullptr;
				x.which = w;
				x.file.reset(new dcp::File(dir + "/f" + num, mode));
				check_eq(static_cast<bool>(*x.file), x.model_open, "open");
				check_eq(x.file->open_error(), x.error, "open_error");
				check_eq(x.file->path().string(), dir + "/f" + num, "path");
				continue;
			}
			if (op == 10 || op == 11) {
				/* Move (construct or assign) from one slot to another */
				auto from = any(false);
				if (!from) {
					continue;
				}
				auto& to = slots[s.draw(2)];
				if (&to == from) {
					if (op == 11) {
						/* to itself: nothing changes */
						log += "self-assign ";
						auto& f = *from->file;
						f = std::move(f);
						check_eq(static_cast<bool>(f), from->model_open, "open after self-assignment");
						++interesting;
					}
					continue;
				}
				if (op == 10) {
					log += "move ";
					to.file.reset();
					close_model(to);
					to.file.reset(new dcp::File(std::move(*from->file)));
				} else {
					if (!to.file) {
						continue;
					}
					log += std::string("assign") + (to.model_open ? "O" : "C") + (from->model_open ? "O " : "C ");
					close_model(to);
					*to.file = std::move(*from->file);
				}
				++interesting;
				to.model = from->model;
				to.model_open = from->model_open;
				to.which = from->which;
				to.error = from->error;
				from->model = nullptr;
				from->model_open = false;
				check_eq(static_cast<bool>(*to.file), to.model_open, "moved-to file is open");
				check_eq(static_cast<bool>(*from->file), false, "moved-from file is open");
				check_eq(to.file->path().string(), dir + "/f" + std::to_string(to.which), "path of moved-to file");
				check_eq(to.file->open_error(), to.error, "open_error of moved-to file");
				continue;
			}
			if (op == 12) {
				if (auto x = any(false)) {
					log += "close ";
					x->file->close();
					close_model(*x);
					check(!*x->file, "open after close");
				}
				continue;
			}
			if (op == 13) {
				if (auto x = any(true)) {
					log += "take ";
					auto f = x->file->take();
					check(f != nullptr, "nothing taken");
					check(!*x->file, "open after take");
					/* It's still open, and ours to close */
					check_eq(static_cast<int64_t>(ftell(f)), static_cast<int64_t>(ftell(x->model)), "position of taken file");
					x->file.reset();
					check_eq(fclose(f), 0, "closing taken file");
					close_model(*x);
					++interesting;
				}
				continue;
			}
			auto x = any(true);
			if (!x) {
				continue;
			}
			++interesting;
			auto& f = *x->file;
			auto m = x->model;
			switch (op) {
			case 1:
			{
				auto const b = nonempty(s);
				size_t const size = std::min<size_t>(b.size(), s.pick({1, 1, 2, 7, 4096}));
				log += "write" + std::to_string(b.size() / size) + "x" + std::to_string(size) + " ";
				check_eq(f.write(b.data(), size, b.size() / size), fwrite(b.data(), size, b.size() / size, m), "write");
				break;
			}
			case 2:
			{
				int const size = s.pick({1, 1, 2, 7});
				int const k = static_cast<int>(s.skewed(0, 9000)) / size;
				log += "read" + std::to_string(k) + "x" + std::to_string(size) + " ";
				Bytes a(k * size + 1), b(k * size + 1);
				check_eq(f.read(a.data(), size, k), fread(b.data(), size, k, m), "read");
				check(a == b, "data read");
				break;
			}
			case 3:
			{
				int64_t const o = s.edgy(-20, 10000, {0});
				int const whence = s.pick({SEEK_SET, SEEK_CUR, SEEK_END});
				log += "seek" + std::to_string(o) + "/" + std::to_string(whence) + " ";
				check_eq(f.seek(o, whence), fseek(m, o, whence), "seek");
				break;
			}
			case 4:
				log += "tell ";
				break;
			case 5:
			{
				int const size = s.pick({2, 10, 64, 5000});
				log += "gets" + std::to_string(size) + " ";
				std::vector<char> a(size), b(size);
				auto p = f.gets(a.data(), size);
				auto q = fgets(b.data(), size, m);
				check_eq(p != nullptr, q != nullptr, "gets");
				check(p == nullptr || p == a.data(), "gets result");
				check(a == b, "line read");
				break;
			}
			case 6:
			{
				auto const t = s.str("ab\n", 0, 20);
				log += "puts ";
				check_eq(f.puts(t.c_str()) < 0, fputs(t.c_str(), m) < 0, "puts");
				break;
			}
			case 7:
			{
				auto const b = nonempty(s);
				log += "checked_write" + std::to_string(b.size()) + " ";
				bool const ok = fwrite(b.data(), 1, b.size(), m) == b.size();
				bool threw = false;
				try {
					f.checked_write(b.data(), b.size());
				} catch (dcp::FileError&) {
					threw = true;
				}
				check_eq(threw, !ok, "checked_write throws");
				break;
			}
			case 8:
			{
				int const k = static_cast<int>(s.skewed(0, 9000));
				log += "checked_read" + std::to_string(k) + " ";
				Bytes a(k + 1), b(k + 1);
				bool const ok = fread(b.data(), 1, k, m) == static_cast<size_t>(k);
				bool threw = false;
				try {
					f.checked_read(a.data(), k);
				} catch (dcp::FileError&) {
					threw = true;
				}
				check_eq(threw, !ok, "checked_read throws");
				if (ok) {
					check(a == b, "data read");
				}
				break;
			}
			default:
				log += "eof/error ";
				check(f.get() != nullptr, "get");
			}
			check_eq(f.tell(), static_cast<int64_t>(ftell(m)), "position", log);
			check_eq(f.eof() != 0, feof(m) != 0, "eof", log);
			check_eq(f.error() != 0, ferror(m) != 0, "error", log);
		}
		for (auto& i: slots) {
			i.file.reset();
			close_model(i);
		}
		s.note("operations", log);
		s.nontrivial_if(n >= 4 && interesting >= 3);
	}
	check_eq(count_fds(), fds, "open files at the end", log);
	for (int i = 0; i < 3; ++i) {
		auto const a = dir + "/f" + std::to_string(i), b = dir + "/m" + std::to_string(i);
		check_eq(there(a), there(b), "file exists");
		if (there(a)) {
			check(get_file(a) == get_file(b), "contents of file " + std::to_string(i) + " after " + log);
		}
	}
});

static Register closed("closed", 4000, 60000, "every case", [](Src& s) {
	/* Nothing can be done with a file that isn't open, but asking is safe */
	unprivileged();
	auto const dir = s.scratch();
	auto const path = dir + "/f";
	put_file(path, {'a', 'b', 'c'});
	int const how = s.draw(2);
	dcp::File f(how == 0 ? dir + "/none" : path, "rb");
	if (how == 1) {
		f.close();
	} else if (how == 2) {
		dcp::File g(std::move(f));
		check(static_cast<bool>(g), "moved file not open");
	}
	int const op = s.draw(8);
	s.note("how", how);
	s.note("op", op);
	s.nontrivial();
	check(!f, "file is open");
	char b[16] = "x";
	bool threw = false;
	try {
		switch (op) {
		case 0: f.write(b, 1, 1); break;
		case 1: f.read(b, 1, 1); break;
		case 2: f.eof(); break;
		case 3: f.gets(b, 4); break;
		case 4: f.puts(b); break;
		case 5: f.seek(0, SEEK_SET); break;
		case 6: f.tell(); break;
		case 7: f.checked_read(b, 1); break;
		default: f.checked_write(b, 1); break;
		}
	} catch (std::exception&) {
		threw = true;
	}
	check(threw, "using a file which isn't open gave no error");
	/* Closing it again does no harm */
	f.close();
	f.close();
	check(f.take() == nullptr, "something to take");
});

/** There is room for only some of what is written */
static Register limited("limited", 8000, 200000, "a checked write could not be completed", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	size_t const limit = s.edgy(0, 20000, {4096, 8192});
	s.note("limit", limit);
	std::string log;
	Limit const l(limit, false);
	dcp::File f(dir + "/f", "wb");
	auto m = fopen((dir + "/m").c_str(), "wb");
	check(f && m, "file could not be opened");
	bool done = false;
	for (int n = 0; !done && s.more(n, 1, 10, 80); ++n) {
		auto const b = nonempty(s);
		auto const wrote = fwrite(b.data(), 1, b.size(), m);
		done = wrote != b.size();
		if (s.chance(70)) {
			log += "checked_write" + std::to_string(b.size()) + " ";
			bool threw = false;
			try {
				f.checked_write(b.data(), b.size());
			} catch (dcp::FileError&) {
				threw = true;
			}
			check_eq(threw, done, "checked_write throws", log);
			s.nontrivial_if(done);
		} else {
			log += "write" + std::to_string(b.size()) + " ";
			check_eq(f.write(b.data(), 1, b.size()), wrote, "write", log);
		}
		check_eq(f.error() != 0, ferror(m) != 0, "error", log);
	}
	s.note("operations", log);
	f.close();
	fclose(m);
	if (!done) {
		check(get_file(dir + "/f") == get_file(dir + "/m"), "contents of file after " + log);
	}
});

/** Opening things which perhaps can't be opened */
static Register opening("opening", 3000, 60000, "it could not be opened", [](Src& s) {
	unprivileged();
	auto const dir = s.scratch();
	put_file(dir + "/file", {'a', 'b', 'c'});
	put_file(dir + "/unreadable", {'a', 'b', 'c'});
	put_file(dir + "/unwritable", {'a', 'b', 'c'});
	chmod((dir + "/unreadable").c_str(), 0200);
	chmod((dir + "/unwritable").c_str(), 0400);
	mkdir((dir + "/directory").c_str(), 0755);
	mkdir((dir + "/locked").c_str(), 0);
	if (symlink("loop", (dir + "/loop").c_str()) || symlink("nothing", (dir + "/dangling").c_str())) {
		throw std::runtime_error("harness could not make link");
	}
	auto const name = s.pick<std::string>(
		{"file", "unreadable", "unwritable", "directory", "directory/", "directory/new", "locked/file", "loop", "dangling", "file/x", "none", "none/x", ".", "..", "", "-", " ", std::string(255, 'n'), std::string(256, 'n')}
		);
	auto const mode = s.pick<std::string>({"rb", "wb", "r+b", "w+b", "a+b", "ab", "r", "w"});
	/* The empty path, or one inside our directory */
	auto const path = name.empty() && s.boolean() ? "" : dir + "/" + name;
	s.note("name", path.empty() ? "(empty)" : name);
	s.note("mode", mode);
	bool const new_one = !there(path);
	errno = 0;
	auto m = fopen(path.c_str(), mode.c_str());
	int const error = m ? 0 : errno;
	s.nontrivial_if(!m);
	if (m) {
		fclose(m);
		if (new_one && there(path)) {
			unlink(path.c_str());
		}
	}
	/* What failed before has no effect */
	errno = s.pick({0, EPERM, EINTR, 0});
	dcp::File f(path, mode);
	check_eq(static_cast<bool>(f), m != nullptr, "open");
	check_eq(f.open_error(), error, "open_error");
	check_eq(f.path().string(), path, "path");
	if (f && mode == "rb" && name == "directory") {
		/* This can be opened but there is nothing to read */
		char b[8];
		bool threw = false;
		try {
			f.checked_read(b, s.irange(1, 8));
		} catch (dcp::FileError&) {
			threw = true;
		}
		check(threw, "a directory was read");
	}
	f.close();
	chmod((dir + "/locked").c_str(), 0755);
});

/** Files may be larger than 2 or 4GB; these ones have almost nothing in them */
static Register large("large", 1500, 30000, "the position does not fit in 32 bits", [](Src& s) {
	auto const name = s.scratch() + "/large";
	dcp::File f(name, "w+b");
	check(static_cast<bool>(f), "file could not be opened");
	int64_t const power = int64_t(1) << s.irange(30, 34);
	int64_t const position = power + s.irange(-3, 3);
	s.note("position", position);
	s.nontrivial_if(position > 0x7fffffff);
	check_eq(f.seek(position, SEEK_SET), 0, "seek");
	check_eq(f.tell(), position, "position");
	auto const data = s.bytes(1, 8);
	s.note("data", hash_bytes(data));
	f.checked_write(data.data(), data.size());
	int64_t const end = position + data.size();
	check_eq(f.tell(), end, "position after writing");
	check_eq(f.seek(-end, SEEK_CUR), 0, "seek back");
	check_eq(f.tell(), int64_t(0), "position after seeking back");
	check_eq(f.seek(position, SEEK_CUR), 0, "seek forward");
	check_eq(f.tell(), position, "position after seeking forward");
	auto back = data;
	std::fill(back.begin(), back.end(), 0);
	f.checked_read(back.data(), back.size());
	check(back == data, "data read back is different");
	check_eq(f.seek(-end, SEEK_END), 0, "seek from the end");
	check_eq(f.tell(), int64_t(0), "position after seeking from the end");
	check_eq(f.seek(0, SEEK_END), 0, "seek to the end");
	check_eq(f.tell(), end, "position at the end");
	f.close();
	unlink(name.c_str());
});
