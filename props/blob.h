/* Blocks of data, and files, for the checks of how they are written */

#ifndef VERIF_BLOB_H
#define VERIF_BLOB_H

#include "pbt.h"
#include "data.h"
#include <cstdio>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

typedef std::vector<uint8_t> Bytes;

class Blob : public dcp::Data
{
public:
	explicit Blob(Bytes b)
		: bytes(b)
	{}

	uint8_t const* data() const override
	{
		return bytes.empty() ? &none : bytes.data();
	}

	uint8_t* data() override
	{
		return bytes.empty() ? &none : bytes.data();
	}

	int size() const override
	{
		return static_cast<int>(bytes.size());
	}

	Bytes bytes;

private:
	uint8_t none = 0;
};

/** Sizes around those of stdio's and the kernel's buffers are the interesting ones */
inline Bytes gen_blob(pbt::Src& s)
{
	int64_t n = 0;
	switch (s.weighted({50, 30, 20})) {
	case 0:
		n = s.skewed(0, 300);
		break;
	case 1:
		n = s.pick({1024, 4096, 8192, 12288, 65536}) + s.irange(-2, 2);
		break;
	default:
		n = s.skewed(0, 40000);
	}
	Bytes b(n);
	if (n <= 32) {
		for (auto& i: b) {
			i = static_cast<uint8_t>(s.edgy(0, 255, {10, 13, 26}));
		}
	} else {
		uint64_t x = s.draw(1 << 20);
		for (auto& i: b) {
			x = x * 6364136223846793005ULL + 1442695040888963407ULL;
			i = static_cast<uint8_t>(x >> 56);
		}
	}
	return b;
}

inline std::string hash_bytes(Bytes const& b)
{
	char c[32];
	snprintf(c, sizeof(c), "%016llx", static_cast<unsigned long long>(pbt::hash_string(std::string(b.begin(), b.end()))));
	return c;
}

inline std::string gen_name(pbt::Src& s)
{
	static std::vector<std::string> const odd = {"a", "b", "x.mxf", " ", ".", "é", "日", "-", "'", "%", "&", "ß", "_", "Z"};
	auto n = s.str(odd, 1, 10);
	if (n == "." || n == ".." || n == "temp") {
		n += "x";
	}
	return n;
}

inline void put_file(std::string const& path, Bytes const& b)
{
	int fd = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0) {
		throw std::runtime_error("harness could not write " + path);
	}
	size_t d = 0;
	while (d < b.size()) {
		auto n = ::write(fd, b.data() + d, b.size() - d);
		if (n <= 0) {
			::close(fd);
			throw std::runtime_error("harness could not write " + path);
		}
		d += n;
	}
	::close(fd);
}

inline Bytes get_file(std::string const& path)
{
	int fd = ::open(path.c_str(), O_RDONLY);
	if (fd < 0) {
		pbt::fail("no file " + path.substr(path.rfind('/') + 1));
	}
	Bytes b;
	uint8_t buffer[65536];
	while (true) {
		auto n = ::read(fd, buffer, sizeof(buffer));
		if (n <= 0) {
			break;
		}
		b.insert(b.end(), buffer, buffer + n);
	}
	::close(fd);
	return b;
}

inline bool there(std::string const& path)
{
	struct stat st;
	return lstat(path.c_str(), &st) == 0;
}

inline int count_entries(std::string const& dir)
{
	int n = 0;
	if (auto d = opendir(dir.c_str())) {
		while (auto e = readdir(d)) {
			std::string const name = e->d_name;
			if (name != "." && name != "..") {
				++n;
			}
		}
		closedir(d);
	}
	return n;
}

inline int count_fds()
{
	return count_entries("/proc/self/fd");
}

/** Stops any file growing past a given size, by error or by death */
class Limit
{
public:
	Limit(size_t bytes, bool die)
	{
		signal(SIGXFSZ, die ? SIG_DFL : SIG_IGN);
		getrlimit(RLIMIT_FSIZE, &_old);
		rlimit n = _old;
		n.rlim_cur = bytes;
		setrlimit(RLIMIT_FSIZE, &n);
	}

	~Limit()
	{
		setrlimit(RLIMIT_FSIZE, &_old);
		signal(SIGXFSZ, SIG_IGN);
	}

private:
	rlimit _old;
};

#endif
