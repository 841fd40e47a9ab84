/* Faults and crashes while data is written */

#include "blob.h"
#include "exceptions.h"
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>

using namespace pbt;

struct Setup
{
	Blob data;
	Bytes old;
	bool has_old;
	bool via_temp;
	size_t limit;
	std::string dir, temp, final;
};

static Setup gen(Src& s)
{
	unprivileged();
	Setup o{Blob(gen_blob(s)), {}, false, false, 0, s.scratch(), {}, {}};
	o.temp = o.dir + "/temp";
	o.final = o.dir + "/final";
	o.via_temp = s.chance(70);
	o.has_old = s.boolean();
	if (o.has_old) {
		o.old = gen_blob(s);
		put_file(o.final, o.old);
	}
	auto const n = static_cast<int64_t>(o.data.bytes.size());
	o.limit = s.edgy(0, n, {n - 4096, n / 4096 * 4096, 4096, n - 1});
	s.note("size", n);
	s.note("fails_at", o.limit);
	s.note("via_temp", o.via_temp);
	s.note("old", o.has_old ? std::to_string(o.old.size()) : "none");
	s.note("hash", hash_bytes(o.data.bytes));
	return o;
}

static Register errors("errors", 50000, 500000, "the fault happens before the data has been written", [](Src& s) {
	auto o = gen(s);
	s.nontrivial_if(o.limit < o.data.bytes.size());
	bool threw = false;
	bool file_error = false;
	{
		Limit l(o.limit, false);
		try {
			if (o.via_temp) {
				o.data.write_via_temp(o.temp, o.final);
			} else {
				o.data.write(o.final);
			}
		} catch (dcp::FileError&) {
			threw = file_error = true;
		} catch (std::exception&) {
			threw = true;
		}
	}
	bool const should_fail = o.limit < o.data.bytes.size();
	s.label(should_fail ? "fault" : "no fault");
	if (should_fail) {
		check(threw, "a write which could not be completed was not reported");
		if (o.via_temp) {
			if (o.has_old) {
				check(get_file(o.final) == o.old, "the final file was changed although writing failed");
			} else {
				check(!there(o.final), "a final file was made although writing failed");
			}
		}
		check(file_error, "failure to write was reported as something other than a file error");
	} else {
		check(!threw, "an error was reported but there was no fault");
		check(get_file(o.final) == o.data.bytes, "the file does not hold what was written");
		check(!there(o.temp), "temporary file still there");
	}
});

static Register crashes("crashes", 8000, 100000, "the process dies before the data has been written", [](Src& s) {
	auto o = gen(s);
	s.nontrivial_if(o.limit < o.data.bytes.size());
	o.via_temp = true;
	auto pid = fork();
	if (pid == 0) {
		struct rlimit none = {0, 0};
		setrlimit(RLIMIT_CORE, &none);
		Limit l(o.limit, true);
		try {
			o.data.write_via_temp(o.temp, o.final);
		} catch (...) {
			_exit(3);
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	bool const died = WIFSIGNALED(st) && WTERMSIG(st) == SIGXFSZ;
	s.label(died ? "died" : "survived");
	bool const should_die = o.limit < o.data.bytes.size();
	check(died == should_die || !should_die, "the write went past the end of the file");
	if (died || !WIFEXITED(st) || WEXITSTATUS(st)) {
		if (o.has_old) {
			check(get_file(o.final) == o.old, "after a crash the final file is not the old one");
		} else {
			check(!there(o.final), "after a crash there is a final file, which must be incomplete");
		}
	} else {
		check(get_file(o.final) == o.data.bytes, "the file does not hold what was written");
	}
	/* A later attempt succeeds whatever was left behind */
	o.data.write_via_temp(o.temp, o.final);
	check(get_file(o.final) == o.data.bytes, "the second attempt's file does not hold what was written");
	check(!there(o.temp), "temporary file still there");
});

#if defined(__x86_64__)

/** A system call made by a process that we are watching */
struct Call
{
	Call(user_regs_struct const& r, std::set<int> const& files)
	{
		auto const writing = [](long flags) { return (flags & O_ACCMODE) != O_RDONLY; };
		switch (r.orig_rax) {
		case SYS_open:
			opens = writing(r.rsi);
			break;
		case SYS_openat:
			opens = writing(r.rdx);
			break;
		case SYS_creat:
			opens = true;
			break;
		case SYS_write:
		case SYS_pwrite64:
		case SYS_writev:
			writes = files.find(r.rdi) != files.end();
			break;
		case SYS_close:
			closes = files.find(r.rdi) != files.end();
			break;
		case SYS_rename:
		case SYS_renameat:
		case SYS_renameat2:
			renames = true;
			break;
		}
		plain_write = writes && r.orig_rax == SYS_write;
	}

	bool any() const {
		return opens || writes || closes || renames;
	}

	bool opens = false;
	bool writes = false;
	bool plain_write = false;
	bool closes = false;
	bool renames = false;
};

/** Stop the process before and after each system call and look at the final file: if the process
 *  were to die there that's what would be left.  Perhaps make one of the calls fail.
 */
static Register watched("watched", 3000, 60000, "a call failed, or wrote only some of what it was asked to", [](Src& s) {
	auto o = gen(s);
	int const fail_call = s.chance(60) ? s.draw(5) : -1;
	int const fail_with = s.pick({EIO, ENOSPC, EDQUOT});
	int const short_write = fail_call == -1 && s.boolean() ? s.draw(2) : -1;
	s.note("failing_call", fail_call);
	s.note("error", fail_call == -1 ? 0 : fail_with);
	s.note("short_write", short_write);
	auto pid = fork();
	if (pid == 0) {
		if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr)) {
			_exit(9);
		}
		raise(SIGSTOP);
		try {
			o.data.write_via_temp(o.temp, o.final);
		} catch (dcp::FileError&) {
			_exit(3);
		} catch (...) {
			_exit(4);
		}
		_exit(0);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	if (!WIFSTOPPED(st)) {
		/* We aren't allowed to watch */
		s.discard();
	}
	ptrace(PTRACE_SETOPTIONS, pid, nullptr, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
	std::set<int> files;
	std::string problem, log;
	bool entering = true;
	bool failing = false, failed_rename = false, failed_other = false, shortened = false;
	bool opening = false;
	int calls = 0, plain_writes = 0;
	long signal = 0;
	while (true) {
		ptrace(PTRACE_SYSCALL, pid, nullptr, signal);
		signal = 0;
		if (waitpid(pid, &st, 0) != pid || WIFEXITED(st) || WIFSIGNALED(st)) {
			break;
		}
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
			signal = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
			continue;
		}
		user_regs_struct r;
		ptrace(PTRACE_GETREGS, pid, nullptr, &r);
		if (entering) {
			Call const c(r, files);
			opening = c.opens;
			if (c.any()) {
				log += c.opens ? "open " : (c.writes ? "write " : (c.closes ? "close " : "rename "));
			}
			if (c.any() && calls++ == fail_call) {
				failing = true;
				failed_rename = c.renames;
				failed_other = !c.renames;
				log += "(fails) ";
				r.orig_rax = -1;
				ptrace(PTRACE_SETREGS, pid, nullptr, &r);
			} else if (c.plain_write && r.rdx > 1 && plain_writes++ == short_write) {
				shortened = true;
				log += "(short) ";
				r.rdx = r.rdx / 2;
				ptrace(PTRACE_SETREGS, pid, nullptr, &r);
			}
			if (c.closes) {
				files.erase(r.rdi);
			}
		} else {
			if (failing) {
				r.rax = -fail_with;
				ptrace(PTRACE_SETREGS, pid, nullptr, &r);
				failing = false;
			} else if (opening && static_cast<long>(r.rax) >= 0) {
				files.insert(static_cast<int>(r.rax));
			}
		}
		entering = !entering;
		if (problem.empty()) {
			bool const exists = there(o.final);
			auto const now = exists ? get_file(o.final) : Bytes();
			bool const untouched = o.has_old ? (exists && now == o.old) : !exists;
			if (!untouched && !(exists && now == o.data.bytes)) {
				problem = "part way through, after " + log + ", the final file " + (exists ? "has " + std::to_string(now.size()) + " bytes and is" : "is missing, so it is") + " neither as it was nor complete";
			}
		}
	}
	s.note("calls", log);
	s.nontrivial_if(failed_rename || failed_other || shortened);
	s.label(failed_rename ? "rename failed" : (failed_other ? "other call failed" : (shortened ? "short write" : "no fault")));
	check(problem.empty(), problem);
	check(WIFEXITED(st), "writing was stopped by a signal");
	int const result = WEXITSTATUS(st);
	if (failed_other) {
		check(result != 0, "a fault was not reported after " + log);
		check_eq(result, 3, "failure to write was reported as something other than a file error");
	} else if (failed_rename) {
		check(result != 0, "failure to rename was not reported");
	} else {
		check_eq(result, 0, "an error was reported but there was no fault");
		check(get_file(o.final) == o.data.bytes, "the file does not hold what was written");
		check(!there(o.temp), "temporary file still there");
	}
	/* A later attempt succeeds whatever was left behind */
	o.data.write_via_temp(o.temp, o.final);
	check(get_file(o.final) == o.data.bytes, "the second attempt's file does not hold what was written");
});

#endif

static Register full("full", 4000, 60000, "there is some data", [](Src& s) {
	/* A device with no space */
	Blob b(gen_blob(s));
	s.note("size", b.bytes.size());
	s.note("hash", hash_bytes(b.bytes));
	s.nontrivial_if(!b.bytes.empty());
	bool threw = false;
	try {
		b.write("/dev/full");
	} catch (std::exception&) {
		threw = true;
	}
	check_eq(threw, !b.bytes.empty(), "error reported on writing to a full device");
});
