/* A stand-in for asdcplib, which is not installed here: the part of its interface that libdcp uses.  The files that it
 * reads and writes are not MXF, but hold what libdcp gives to asdcplib (metadata, frames, resources), encrypted and
 * authenticated in the same way if there is a key.
 */

#ifndef VERIF_SHIM_AS_DCP_H
#define VERIF_SHIM_AS_DCP_H

#include "KLV.h"
#include "KM_fileio.h"
#include "KM_log.h"
#include "KM_util.h"
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ASDCP {

using Kumu::RESULT_OK;
using Kumu::RESULT_FAIL;
using Kumu::RESULT_PTR;
using Kumu::RESULT_PARAM;
using Kumu::RESULT_SMALLBUF;
using Kumu::RESULT_INIT;
using Kumu::RESULT_NOT_FOUND;
using Kumu::RESULT_STATE;
using Kumu::RESULT_FILEOPEN;
using Kumu::RESULT_BADSEEK;
using Kumu::RESULT_READFAIL;
using Kumu::RESULT_WRITEFAIL;
using Kumu::RESULT_ENDOFFILE;

static Result_t const RESULT_FORMAT(-101, "wrong format");
static Result_t const RESULT_RAW_ESS(-102, "unknown raw essence");
static Result_t const RESULT_RAW_FORMAT(-103, "raw essence format");
static Result_t const RESULT_RANGE(-104, "frame out of range");
static Result_t const RESULT_CRYPT_CTX(-105, "crypto context");
static Result_t const RESULT_LARGE_PTO(-106, "large plaintext offset");
static Result_t const RESULT_CHECKFAIL(-109, "check value failed");
static Result_t const RESULT_HMACFAIL(-110, "HMAC failed");
static Result_t const RESULT_CRYPT_INIT(-111, "crypto init");
static Result_t const RESULT_SPHASE(-114, "stereoscopic phase mismatch");
static Result_t const RESULT_SFORMAT(-115, "stereoscopic/monoscopic mismatch");

ui32_t const KeyLen = 16;
ui32_t const UUIDlen = 16;
ui32_t const CBC_BLOCK_SIZE = 16;
ui32_t const HMAC_SIZE = 20;

enum EssenceType_t {
	ESS_UNKNOWN,
	ESS_MPEG2_VES,
	ESS_JPEG_2000,
	ESS_PCM_24b_48k,
	ESS_PCM_24b_96k,
	ESS_TIMED_TEXT,
	ESS_JPEG_2000_S,
	ESS_DCDATA_UNKNOWN,
	ESS_DCDATA_DOLBY_ATMOS,
	ESS_MAX
};

Result_t EssenceType(std::string const& path, EssenceType_t& type, Kumu::IFileReaderFactory const& factory);

enum LabelSet_t {
	LS_MXF_UNKNOWN,
	LS_MXF_INTEROP,
	LS_MXF_SMPTE,
	LS_MAX
};

struct Rational
{
	Rational() {}
	Rational(i32_t n, i32_t d) : Numerator(n), Denominator(d) {}

	double Quotient() const { return double(Numerator) / double(Denominator); }
	bool operator==(Rational const& o) const { return Numerator == o.Numerator && Denominator == o.Denominator; }
	bool operator!=(Rational const& o) const { return !(*this == o); }

	i32_t Numerator = 0;
	i32_t Denominator = 0;
};

struct WriterInfo
{
	byte_t ProductUUID[UUIDlen] = {};
	byte_t AssetUUID[UUIDlen] = {};
	byte_t ContextID[UUIDlen] = {};
	byte_t CryptographicKeyID[UUIDlen] = {};
	bool EncryptedEssence = false;
	bool UsesHMAC = false;
	std::string ProductVersion;
	std::string CompanyName;
	std::string ProductName;
	LabelSet_t LabelSetType = LS_MXF_INTEROP;
};

class AESContext
{
public:
	Result_t InitKey(byte_t const* key);
	Result_t SetIVec(byte_t const* iv);

	byte_t key[KeyLen];
	byte_t iv[CBC_BLOCK_SIZE];
	bool ready = false;
};

class AESEncContext : public AESContext
{
};

class AESDecContext : public AESContext
{
};

class HMACContext
{
public:
	Result_t InitKey(byte_t const* key, LabelSet_t type);

	byte_t key[HMAC_SIZE];
	bool ready = false;
};

class FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t capacity) { Capacity(capacity); }
	virtual ~FrameBuffer() {}

	Result_t SetData(byte_t* data, ui32_t size) {
		_external = data;
		_capacity = size;
		_size = 0;
		return RESULT_OK;
	}

	Result_t Capacity(ui32_t n) {
		if (_external) {
			return RESULT_PTR;
		}
		if (n > _capacity) {
			_own.reset(new byte_t[n]);
			_capacity = n;
			_size = 0;
		}
		return RESULT_OK;
	}

	ui32_t Capacity() const { return _capacity; }
	byte_t* Data() { return _external ? _external : _own.get(); }
	byte_t const* RoData() const { return _external ? _external : _own.get(); }
	ui32_t Size(ui32_t n) { return _size = n; }
	ui32_t Size() const { return _size; }
	void PlaintextOffset(ui32_t n) { _plaintext_offset = n; }
	ui32_t PlaintextOffset() const { return _plaintext_offset; }
	void FrameNumber(ui32_t n) { _frame_number = n; }
	ui32_t FrameNumber() const { return _frame_number; }

private:
	std::unique_ptr<byte_t[]> _own;
	byte_t* _external = nullptr;
	ui32_t _capacity = 0;
	ui32_t _size = 0;
	ui32_t _plaintext_offset = 0;
	ui32_t _frame_number = 0;
};

namespace MXF { class OP1aHeader; }

/** What a file holds; used by all the types of reader and writer */
class Store
{
public:
	typedef std::map<std::string, std::string> Fields;

	Store();
	~Store();
	Store(Store const&) = delete;
	Store& operator=(Store const&) = delete;

	Result_t open_write(std::string const& path, std::string const& kind, WriterInfo const& info, ui32_t header_size, bool overwrite);
	Result_t write(byte_t const* data, ui32_t size, ui32_t tag, AESEncContext* context, HMACContext* hmac, std::string* hash);
	Result_t fake_write(ui32_t size, ui32_t tag);
	Result_t finalize();
	ui64_t tell() const;

	Result_t open_read(std::string const& path, std::string const& kind);
	Result_t read(ui32_t index, FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const;
	ui32_t count() const { return _index.size(); }
	ui32_t tag(ui32_t i) const { return _index[i].tag; }
	WriterInfo const& info() const { return _info; }

	void set(std::string const& key, std::string const& value) { _fields[key] = value; }
	void set(std::string const& key, i64_t value) { _fields[key] = std::to_string(value); }
	void set(std::string const& key, Rational const& value);
	std::string get(std::string const& key) const;
	i64_t get_number(std::string const& key) const;
	Rational get_rational(std::string const& key) const;

	static Result_t kind_of(std::string const& path, std::string& kind, Fields* fields = nullptr);

	MXF::OP1aHeader& header() { return *_header; }

private:
	struct Item {
		ui64_t offset;
		ui64_t size;
		ui64_t tag;
	};

	std::string header_text() const;
	Result_t write_header();

	FILE* _file = nullptr;
	bool _writing = false;
	ui32_t _header_size = 0;
	WriterInfo _info;
	Fields _fields;
	std::vector<Item> _index;
	std::unique_ptr<MXF::OP1aHeader> _header;
};

class ReaderBase
{
public:
	ReaderBase() {}
	Result_t FillWriterInfo(WriterInfo& info) const { info = _store->info(); return RESULT_OK; }
	MXF::OP1aHeader& OP1aHeader() { return _store->header(); }
	Result_t Close() { _store.reset(new Store); return RESULT_OK; }

protected:
	std::unique_ptr<Store> _store{new Store};
};

class WriterBase
{
public:
	MXF::OP1aHeader& OP1aHeader() { return _store->header(); }
	Result_t Finalize() { return _store->finalize(); }
	ui64_t Tell() const { return _store->tell(); }

protected:
	std::unique_ptr<Store> _store{new Store};
};

namespace JP2K {

int const MaxComponents = 3;

struct PictureDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	Rational SampleRate;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui16_t Rsize = 0;
	ui32_t Xsize = 0;
	ui32_t Ysize = 0;
	ui32_t XOsize = 0;
	ui32_t YOsize = 0;
	ui32_t XTsize = 0;
	ui32_t YTsize = 0;
	ui32_t XTOsize = 0;
	ui32_t YTOsize = 0;
	ui16_t Csize = 0;
};

typedef ASDCP::FrameBuffer FrameBufferBase;

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t capacity) : ASDCP::FrameBuffer(capacity) {}
};

enum StereoscopicPhase_t {
	SP_LEFT,
	SP_RIGHT
};

struct SFrameBuffer
{
	explicit SFrameBuffer(ui32_t capacity) : Left(capacity), Right(capacity) {}

	FrameBuffer Left;
	FrameBuffer Right;
};

class CodestreamParser
{
public:
	Result_t OpenReadFrame(byte_t const* data, ui32_t size, FrameBuffer& buffer);
	Result_t FillPictureDescriptor(PictureDescriptor& desc) const;

private:
	PictureDescriptor _desc;
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* context = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size);
};

class MXFSWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer const& buffer, StereoscopicPhase_t phase, AESEncContext* context = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, StereoscopicPhase_t phase);

private:
	StereoscopicPhase_t _next = SP_LEFT;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& path);
	Result_t FillPictureDescriptor(PictureDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
};

class MXFSReader : public ReaderBase
{
public:
	explicit MXFSReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& path);
	Result_t FillPictureDescriptor(PictureDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, SFrameBuffer& buffer, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
};

}

namespace PCM {

enum ChannelFormat_t {
	CF_NONE,
	CF_CFG_1,
	CF_CFG_2,
	CF_CFG_3,
	CF_CFG_4,
	CF_CFG_5,
	CF_CFG_6
};

struct AudioDescriptor
{
	Rational EditRate;
	Rational AudioSamplingRate;
	ui32_t Locked = 0;
	ui32_t ChannelCount = 0;
	ui32_t QuantizationBits = 0;
	ui32_t BlockAlign = 0;
	ui32_t AvgBps = 0;
	ui32_t LinkedTrackID = 0;
	ui32_t ContainerDuration = 0;
	ChannelFormat_t ChannelFormat = CF_NONE;
};

ui32_t CalcFrameBufferSize(AudioDescriptor const& desc);

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t capacity) : ASDCP::FrameBuffer(capacity) {}
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const& info, AudioDescriptor const& desc, ui32_t header_size = 16384);
	Result_t WriteFrame(FrameBuffer const& buffer, AESEncContext* context = nullptr, HMACContext* hmac = nullptr);
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& path);
	Result_t FillAudioDescriptor(AudioDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
};

}

namespace TimedText {

enum MIMEType_t {
	MT_BIN,
	MT_PNG,
	MT_OPENTYPE
};

struct TimedTextResourceDescriptor
{
	byte_t ResourceID[UUIDlen] = {};
	MIMEType_t Type = MT_BIN;
};

typedef std::list<TimedTextResourceDescriptor> ResourceList_t;

struct TimedTextDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	byte_t AssetID[UUIDlen] = {};
	std::string NamespaceName;
	std::string EncodingName = "UTF-8";
	ResourceList_t ResourceList;
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t capacity) : ASDCP::FrameBuffer(capacity) {}
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const& info, TimedTextDescriptor const& desc, ui32_t header_size = 16384);
	Result_t WriteTimedTextResource(std::string const& xml, AESEncContext* context = nullptr, HMACContext* hmac = nullptr);
	Result_t WriteAncillaryResource(FrameBuffer const& buffer, AESEncContext* context = nullptr, HMACContext* hmac = nullptr);

private:
	ui32_t _resources = 0;
	ui32_t _expected = 0;
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& path);
	Result_t FillTimedTextDescriptor(TimedTextDescriptor& desc) const;
	Result_t ReadTimedTextResource(std::string& xml, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
	Result_t ReadAncillaryResource(byte_t const* id, FrameBuffer& buffer, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
};

}

namespace MPEG2 {

enum FrameType_t {
	FRAME_U = 0,
	FRAME_I = 1,
	FRAME_P = 2,
	FRAME_B = 3
};

struct VideoDescriptor
{
	Rational EditRate;
	ui32_t FrameRate = 0;
	Rational SampleRate;
	ui32_t StoredWidth = 0;
	ui32_t StoredHeight = 0;
	Rational AspectRatio;
	ui32_t ContainerDuration = 0;
};

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t capacity) : ASDCP::FrameBuffer(capacity) {}

	FrameType_t FrameType() const { return _type; }
	void FrameType(FrameType_t t) { _type = t; }
	ui8_t TemporalOffset() const { return _temporal_offset; }
	void TemporalOffset(ui8_t o) { _temporal_offset = o; }
	bool GOPStart() const { return _gop_start; }
	void GOPStart(bool s) { _gop_start = s; }
	bool ClosedGOP() const { return _closed_gop; }
	void ClosedGOP(bool c) { _closed_gop = c; }

private:
	FrameType_t _type = FRAME_U;
	ui8_t _temporal_offset = 0;
	bool _gop_start = false;
	bool _closed_gop = false;
};

class Parser
{
public:
	Result_t OpenRead(byte_t const* data, ui32_t size);
	Result_t FillVideoDescriptor(VideoDescriptor& desc) const;

private:
	VideoDescriptor _desc;
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const& info, VideoDescriptor const& desc, ui32_t header_size = 16384, bool overwrite = false);
	Result_t WriteFrame(FrameBuffer& buffer, AESEncContext* context = nullptr, HMACContext* hmac = nullptr, std::string* hash = nullptr);
	Result_t FakeWriteFrame(int size, FrameType_t type, bool gop_start, bool closed_gop, ui8_t temporal_offset);
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& path);
	Result_t FillVideoDescriptor(VideoDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
};

}

namespace DCData {

class FrameBuffer : public ASDCP::FrameBuffer
{
public:
	FrameBuffer() {}
	explicit FrameBuffer(ui32_t capacity) : ASDCP::FrameBuffer(capacity) {}
};

}

namespace ATMOS {

struct AtmosDescriptor
{
	Rational EditRate;
	ui32_t ContainerDuration = 0;
	ui32_t FirstFrame = 0;
	ui16_t MaxChannelCount = 0;
	ui16_t MaxObjectCount = 0;
	byte_t AtmosID[UUIDlen] = {};
	ui8_t AtmosVersion = 0;
};

class MXFWriter : public WriterBase
{
public:
	Result_t OpenWrite(std::string const& path, WriterInfo const& info, AtmosDescriptor const& desc, ui32_t header_size = 16384);
	Result_t WriteFrame(DCData::FrameBuffer const& buffer, AESEncContext* context = nullptr, HMACContext* hmac = nullptr);
};

class MXFReader : public ReaderBase
{
public:
	explicit MXFReader(Kumu::IFileReaderFactory const&) {}
	Result_t OpenRead(std::string const& path);
	Result_t FillAtmosDescriptor(AtmosDescriptor& desc) const;
	Result_t ReadFrame(ui32_t n, DCData::FrameBuffer& buffer, AESDecContext* context = nullptr, HMACContext* hmac = nullptr) const;
};

}

}

#endif
