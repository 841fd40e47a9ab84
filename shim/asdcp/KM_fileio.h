/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KM_FILEIO_H
#define VERIF_SHIM_KM_FILEIO_H

#include "KM_util.h"
#include <cstdio>
#include <string>

namespace Kumu {

typedef ui64_t fsize_t;

class IFileReader
{
public:
	virtual ~IFileReader() {}
};

class FileReader : public IFileReader
{
public:
	FileReader() {}
	~FileReader();
	FileReader(FileReader const&) = delete;
	FileReader& operator=(FileReader const&) = delete;

	Result_t OpenRead(std::string const& path);
	Result_t Close();
	Result_t Read(byte_t* buf, ui32_t len, ui32_t* read = nullptr);
	Result_t Seek(fsize_t position);
	fsize_t Size() const;

private:
	FILE* _file = nullptr;
};

class IFileReaderFactory
{
public:
	virtual ~IFileReaderFactory() {}
};

class FileReaderFactory : public IFileReaderFactory
{
};

}

#endif
