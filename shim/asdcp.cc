#include "asdcp/AS_DCP.h"
#include "asdcp/KM_prng.h"
#include "asdcp/Metadata.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/md5.h>
#include <openssl/sha.h>
#include <sys/stat.h>
#include <cctype>
#include <cerrno>
#include <cmath>
#include <mutex>
#include <sstream>

using std::string;
using std::vector;

namespace Kumu {

bool dcpomatic_test = false;

static std::mutex rng_mutex;
static ui64_t rng_seed = 1;
static ui64_t rng_counter = 0;

void
shim_seed(ui64_t seed)
{
	std::lock_guard<std::mutex> lm(rng_mutex);
	rng_seed = seed;
	rng_counter = 0;
}

void
ResetTestRNG()
{
	shim_seed(0);
}

void
FortunaRNG::Reset()
{
	shim_seed(0);
}

byte_t const*
FortunaRNG::FillRandom(byte_t* buf, ui32_t len)
{
	std::lock_guard<std::mutex> lm(rng_mutex);
	for (ui32_t done = 0; done < len; ) {
		ui64_t const in[2] = { rng_seed, rng_counter++ };
		byte_t out[SHA256_DIGEST_LENGTH];
		SHA256(reinterpret_cast<byte_t const*>(in), sizeof(in), out);
		ui32_t const now = std::min<ui32_t>(len - done, sizeof(out));
		memcpy(buf + done, out, now);
		done += now;
	}
	return buf;
}

void
GenRandomUUID(byte_t* buf)
{
	FortunaRNG().FillRandom(buf, UUID_Length);
	buf[6] = (buf[6] & 0x0f) | 0x40;
	buf[8] = (buf[8] & 0x3f) | 0x80;
}

static char const digits[] = "0123456789abcdef";

char const*
bin2hex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len)
{
	if (!bin || !str || bin_len * 2 + 1 > str_len) {
		return nullptr;
	}
	for (ui32_t i = 0; i < bin_len; ++i) {
		str[i * 2] = digits[bin[i] >> 4];
		str[i * 2 + 1] = digits[bin[i] & 15];
	}
	str[bin_len * 2] = '\0';
	return str;
}

i32_t
hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size)
{
	*conv_size = 0;
	string hex;
	for (char const* p = str; *p; ++p) {
		if (isxdigit(static_cast<unsigned char>(*p))) {
			hex += *p;
		}
	}
	if (hex.length() % 2) {
		hex = "0" + hex;
	}
	if (hex.length() / 2 > buf_len) {
		*conv_size = hex.length() / 2;
		return -1;
	}
	for (size_t i = 0; i < hex.length(); i += 2) {
		buf[(*conv_size)++] = std::stoi(hex.substr(i, 2), nullptr, 16);
	}
	return 0;
}

char const*
bin2UUIDhex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len)
{
	if (bin_len != UUID_Length || str_len < 37) {
		return nullptr;
	}
	char* p = str;
	for (ui32_t i = 0; i < UUID_Length; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) {
			*p++ = '-';
		}
		*p++ = digits[bin[i] >> 4];
		*p++ = digits[bin[i] & 15];
	}
	*p = '\0';
	return str;
}

char const*
base64encode(byte_t const* buf, ui32_t buf_len, char* str, ui32_t str_len)
{
	if (!buf || !str || str_len < ((buf_len + 2) / 3) * 4 + 1) {
		return nullptr;
	}
	EVP_EncodeBlock(reinterpret_cast<byte_t*>(str), buf, buf_len);
	return str;
}

FileReader::~FileReader()
{
	Close();
}

Result_t
FileReader::OpenRead(string const& path)
{
	Close();
	struct stat st;
	_file = fopen(path.c_str(), "rb");
	if (!_file) {
		return RESULT_FILEOPEN.with_os_error(errno);
	}
	if (fstat(fileno(_file), &st) || S_ISDIR(st.st_mode)) {
		Close();
		return RESULT_FILEOPEN;
	}
	return RESULT_OK;
}

Result_t
FileReader::Close()
{
	if (_file) {
		fclose(_file);
		_file = nullptr;
	}
	return RESULT_OK;
}

Result_t
FileReader::Read(byte_t* buf, ui32_t len, ui32_t* read)
{
	size_t const got = fread(buf, 1, len, _file);
	if (read) {
		*read = got;
	}
	if (got == 0) {
		return ferror(_file) ? RESULT_READFAIL.with_os_error(errno) : RESULT_ENDOFFILE;
	}
	return RESULT_OK;
}

Result_t
FileReader::Seek(fsize_t position)
{
	return fseeko(_file, position, SEEK_SET) ? RESULT_BADSEEK : RESULT_OK;
}

fsize_t
FileReader::Size() const
{
	struct stat st;
	return _file && fstat(fileno(_file), &st) == 0 ? st.st_size : 0;
}

}

namespace ASDCP {

char const*
UL::EncodeString(char* str, ui32_t len) const
{
	if (len < 36) {
		return nullptr;
	}
	/* e.g. 060e2b34.0401.010d.0302.010000000000 is how asdcplib writes these */
	char* p = str;
	for (int i = 0; i < 16; ++i) {
		if (i == 4 || i == 6 || i == 8 || i == 10) {
			*p++ = '.';
		}
		snprintf(p, 3, "%02x", _value[i]);
		p += 2;
	}
	*p = '\0';
	return str;
}

Dictionary::Dictionary()
{
	for (int i = 0; i < MDD_Max; ++i) {
		byte_t value[16] = { 0x06, 0x0e, 0x2b, 0x34, 0x04, 0x01, 0x01, 0x0d, 0x03, 0x02, 0x01, 0x7f, static_cast<byte_t>(i), 0, 0, 0 };
		_ul[i].Set(value);
	}
}

Dictionary const&
DefaultSMPTEDict()
{
	static Dictionary d;
	return d;
}

Result_t
AESContext::InitKey(byte_t const* k)
{
	memcpy(key, k, KeyLen);
	ready = true;
	return RESULT_OK;
}

Result_t
AESContext::SetIVec(byte_t const* i)
{
	if (!ready) {
		return RESULT_INIT;
	}
	memcpy(iv, i, CBC_BLOCK_SIZE);
	return RESULT_OK;
}

Result_t
HMACContext::InitKey(byte_t const* k, LabelSet_t type)
{
	byte_t in[KeyLen + 1];
	memcpy(in, k, KeyLen);
	in[KeyLen] = type == LS_MXF_SMPTE ? 2 : 1;
	SHA1(in, sizeof(in), key);
	ready = true;
	return RESULT_OK;
}

static byte_t const check_value[] = "CHUKCHUKCHUKCHUK";

static vector<byte_t>
aes_cbc(bool encrypt, byte_t const* key, byte_t const* iv, vector<byte_t> const& in)
{
	vector<byte_t> out(in.size() + 32);
	auto context = EVP_CIPHER_CTX_new();
	EVP_CipherInit_ex(context, EVP_aes_128_cbc(), nullptr, key, iv, encrypt);
	EVP_CIPHER_CTX_set_padding(context, 0);
	int a = 0;
	int b = 0;
	EVP_CipherUpdate(context, out.data(), &a, in.data(), in.size());
	EVP_CipherFinal_ex(context, out.data() + a, &b);
	EVP_CIPHER_CTX_free(context);
	out.resize(a + b);
	return out;
}

static vector<byte_t>
make_hmac(HMACContext const* hmac, byte_t const* asset, ui64_t sequence, byte_t const* data, size_t size)
{
	vector<byte_t> in(asset, asset + UUIDlen);
	for (int i = 0; i < 8; ++i) {
		in.push_back(sequence >> (i * 8));
	}
	in.insert(in.end(), data, data + size);
	vector<byte_t> out(HMAC_SIZE);
	unsigned int length = 0;
	HMAC(EVP_sha1(), hmac->key, HMAC_SIZE, in.data(), in.size(), out.data(), &length);
	return out;
}

static string
escape(string const& s)
{
	string out;
	for (unsigned char c: s) {
		if (c < 0x20 || c == '%' || c == '=') {
			char b[4];
			snprintf(b, sizeof(b), "%%%02x", c);
			out += b;
		} else {
			out += c;
		}
	}
	return out;
}

static string
unescape(string const& s)
{
	string out;
	for (size_t i = 0; i < s.length(); ++i) {
		if (s[i] == '%' && i + 2 < s.length()) {
			out += static_cast<char>(strtol(s.substr(i + 1, 2).c_str(), nullptr, 16));
			i += 2;
		} else {
			out += s[i];
		}
	}
	return out;
}

static string
hex(byte_t const* p, size_t n)
{
	vector<char> b(n * 2 + 1);
	Kumu::bin2hex(p, n, b.data(), b.size());
	return b.data();
}

static void
unhex(string const& s, byte_t* p, size_t n)
{
	ui32_t done;
	Kumu::hex2bin(s.c_str(), p, n, &done);
}

static char const magic[] = "SHIM-MXF";
static ui32_t const prefix = 8 + 4 + 4;

Store::Store()
	: _header(new MXF::OP1aHeader)
{

}

Store::~Store()
{
	if (_file) {
		fclose(_file);
	}
}

void
Store::set(string const& key, Rational const& value)
{
	_fields[key] = std::to_string(value.Numerator) + " " + std::to_string(value.Denominator);
}

string
Store::get(string const& key) const
{
	auto i = _fields.find(key);
	return i == _fields.end() ? "" : i->second;
}

i64_t
Store::get_number(string const& key) const
{
	return strtoll(get(key).c_str(), nullptr, 10);
}

Rational
Store::get_rational(string const& key) const
{
	std::istringstream s(get(key));
	Rational r;
	s >> r.Numerator >> r.Denominator;
	return r;
}

string
Store::header_text() const
{
	auto fields = _fields;
	fields["info.product"] = _info.ProductName;
	fields["info.company"] = _info.CompanyName;
	fields["info.version"] = _info.ProductVersion;
	fields["info.asset"] = hex(_info.AssetUUID, UUIDlen);
	fields["info.encrypted"] = _info.EncryptedEssence ? "1" : "0";
	fields["info.hmac"] = _info.UsesHMAC ? "1" : "0";
	if (_info.EncryptedEssence) {
		fields["info.context"] = hex(_info.ContextID, UUIDlen);
		fields["info.key"] = hex(_info.CryptographicKeyID, UUIDlen);
	}
	fields["info.label"] = std::to_string(static_cast<int>(_info.LabelSetType));
	fields["header"] = _header->text();

	string text;
	for (auto const& i: fields) {
		text += escape(i.first) + "=" + escape(i.second) + "\n";
	}
	return text;
}

Result_t
Store::write_header()
{
	auto const text = header_text();
	if (text.length() + prefix > _header_size) {
		return RESULT_SMALLBUF;
	}
	vector<byte_t> block(_header_size);
	memcpy(block.data(), magic, 8);
	ui32_t const length = text.length();
	memcpy(block.data() + 8, &_header_size, 4);
	memcpy(block.data() + 12, &length, 4);
	memcpy(block.data() + prefix, text.data(), text.length());
	auto const now = ftello(_file);
	if (fseeko(_file, 0, SEEK_SET)) {
		return RESULT_BADSEEK;
	}
	if (fwrite(block.data(), 1, block.size(), _file) != block.size() || fflush(_file)) {
		return RESULT_WRITEFAIL.with_os_error(errno);
	}
	if (now > _header_size && fseeko(_file, now, SEEK_SET)) {
		return RESULT_BADSEEK;
	}
	return RESULT_OK;
}

Result_t
Store::open_write(string const& path, string const& kind, WriterInfo const& info, ui32_t header_size, bool overwrite)
{
	if (_file) {
		return RESULT_STATE;
	}

	_file = fopen(path.c_str(), overwrite ? "rb+" : "wb");
	if (!_file) {
		return RESULT_FILEOPEN.with_os_error(errno);
	}

	_writing = true;
	_info = info;
	_fields["kind"] = kind;
	_fields["frames"] = "0";
	_fields["index"] = "0";
	_header_size = header_size + header_text().length();
	return write_header();
}

ui64_t
Store::tell() const
{
	return _file ? ftello(_file) : 0;
}

Result_t
Store::write(byte_t const* data, ui32_t size, ui32_t tag, AESEncContext* context, HMACContext* hmac, string* hash)
{
	if (!_file || !_writing) {
		return RESULT_STATE;
	}

	vector<byte_t> payload;

	if (_info.EncryptedEssence) {
		if (!context || (_info.UsesHMAC && !hmac)) {
			return RESULT_CRYPT_CTX;
		}
		vector<byte_t> plain(check_value, check_value + CBC_BLOCK_SIZE);
		plain.insert(plain.end(), data, data + size);
		plain.resize(((plain.size() / CBC_BLOCK_SIZE) + 1) * CBC_BLOCK_SIZE);
		auto const cipher = aes_cbc(true, context->key, context->iv, plain);
		payload.insert(payload.end(), reinterpret_cast<byte_t const*>(&size), reinterpret_cast<byte_t const*>(&size) + 4);
		payload.insert(payload.end(), context->iv, context->iv + CBC_BLOCK_SIZE);
		payload.insert(payload.end(), cipher.begin(), cipher.end());
		context->SetIVec(cipher.data() + cipher.size() - CBC_BLOCK_SIZE);
		if (_info.UsesHMAC) {
			auto const h = make_hmac(hmac, _info.AssetUUID, _index.size(), payload.data(), payload.size());
			payload.insert(payload.end(), h.begin(), h.end());
		}
	} else {
		payload.assign(data, data + size);
	}

	if (hash) {
		byte_t digest[MD5_DIGEST_LENGTH];
		MD5(payload.data(), payload.size(), digest);
		*hash = hex(digest, MD5_DIGEST_LENGTH);
	}

	_index.push_back({ tell(), payload.size(), tag });
	if (fwrite(payload.data(), 1, payload.size(), _file) != payload.size()) {
		return RESULT_WRITEFAIL.with_os_error(errno);
	}
	return RESULT_OK;
}

Result_t
Store::fake_write(ui32_t size, ui32_t tag)
{
	if (!_file || !_writing) {
		return RESULT_STATE;
	}
	_index.push_back({ tell(), size, tag });
	return fseeko(_file, size, SEEK_CUR) ? RESULT_BADSEEK : RESULT_OK;
}

Result_t
Store::finalize()
{
	if (!_file || !_writing) {
		return RESULT_STATE;
	}

	set("frames", static_cast<i64_t>(_index.size()));
	set("index", static_cast<i64_t>(tell()));
	if (!_index.empty() && fwrite(_index.data(), sizeof(Item), _index.size(), _file) != _index.size()) {
		return RESULT_WRITEFAIL.with_os_error(errno);
	}
	auto const r = write_header();
	bool const closed = fclose(_file) == 0;
	_file = nullptr;
	if (KM_FAILURE(r)) {
		return r;
	}
	return closed ? RESULT_OK : RESULT_WRITEFAIL.with_os_error(errno);
}

static Result_t
read_fields(FILE* file, Store::Fields& fields)
{
	char head[prefix];
	if (fread(head, 1, prefix, file) != prefix || memcmp(head, magic, 8) != 0) {
		return RESULT_FORMAT;
	}
	ui32_t header_size;
	ui32_t length;
	memcpy(&header_size, head + 8, 4);
	memcpy(&length, head + 12, 4);
	if (length > header_size || header_size > 256 * Kumu::Megabyte) {
		return RESULT_FORMAT;
	}
	string text(length, ' ');
	if (fread(&text[0], 1, length, file) != length) {
		return RESULT_READFAIL;
	}
	std::istringstream stream(text);
	string line;
	while (std::getline(stream, line)) {
		auto const split = line.find('=');
		if (split == string::npos) {
			return RESULT_FORMAT;
		}
		fields[unescape(line.substr(0, split))] = unescape(line.substr(split + 1));
	}
	return RESULT_OK;
}

static FILE*
open_file(string const& path)
{
	auto file = fopen(path.c_str(), "rb");
	struct stat st;
	if (file && (fstat(fileno(file), &st) || S_ISDIR(st.st_mode))) {
		fclose(file);
		file = nullptr;
		errno = EISDIR;
	}
	return file;
}

Result_t
Store::kind_of(string const& path, string& kind, Fields* fields)
{
	auto file = open_file(path);
	if (!file) {
		return RESULT_FILEOPEN.with_os_error(errno);
	}
	Fields f;
	auto const r = read_fields(file, f);
	fclose(file);
	kind = f["kind"];
	if (fields) {
		*fields = f;
	}
	return r;
}

Result_t
Store::open_read(string const& path, string const& kind)
{
	_file = open_file(path);
	if (!_file) {
		return RESULT_FILEOPEN.with_os_error(errno);
	}

	auto r = read_fields(_file, _fields);
	if (KM_FAILURE(r)) {
		return r;
	}

	if (get("kind") == "j2k-threed") {
		/* Stereo, though EssenceType says otherwise */
		_fields["kind"] = "j2k-stereo";
	}
	if (get("kind") != kind) {
		bool const pictures = (get("kind") == "j2k" && kind == "j2k-stereo") || (get("kind") == "j2k-stereo" && kind == "j2k");
		return pictures ? RESULT_SFORMAT : RESULT_FORMAT;
	}

	_info.ProductName = get("info.product");
	_info.CompanyName = get("info.company");
	_info.ProductVersion = get("info.version");
	unhex(get("info.asset"), _info.AssetUUID, UUIDlen);
	_info.EncryptedEssence = get_number("info.encrypted");
	_info.UsesHMAC = get_number("info.hmac");
	if (_info.EncryptedEssence) {
		unhex(get("info.context"), _info.ContextID, UUIDlen);
		unhex(get("info.key"), _info.CryptographicKeyID, UUIDlen);
	}
	_info.LabelSetType = static_cast<LabelSet_t>(get_number("info.label"));
	_header->parse(get("header"));

	auto const frames = get_number("frames");
	if (frames < 0 || frames > (1 << 24)) {
		return RESULT_FORMAT;
	}
	_index.resize(frames);
	if (frames && (fseeko(_file, get_number("index"), SEEK_SET) || static_cast<i64_t>(fread(_index.data(), sizeof(Item), frames, _file)) != frames)) {
		return RESULT_READFAIL;
	}
	return RESULT_OK;
}

Result_t
Store::read(ui32_t index, FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	if (!_file) {
		return RESULT_INIT;
	}
	if (index >= _index.size()) {
		return RESULT_RANGE;
	}

	auto const& item = _index[index];
	if (item.size > 256 * Kumu::Megabyte) {
		return RESULT_FORMAT;
	}
	vector<byte_t> payload(item.size);
	if (fseeko(_file, item.offset, SEEK_SET) || fread(payload.data(), 1, payload.size(), _file) != payload.size()) {
		return RESULT_READFAIL;
	}

	if (_info.EncryptedEssence && context) {
		if (_info.UsesHMAC) {
			if (payload.size() < HMAC_SIZE) {
				return RESULT_FORMAT;
			}
			vector<byte_t> const got(payload.end() - HMAC_SIZE, payload.end());
			payload.resize(payload.size() - HMAC_SIZE);
			if (hmac && got != make_hmac(hmac, _info.AssetUUID, index, payload.data(), payload.size())) {
				return RESULT_HMACFAIL;
			}
		}
		if (payload.size() < 4 + CBC_BLOCK_SIZE * 2 || (payload.size() - 4) % CBC_BLOCK_SIZE) {
			return RESULT_FORMAT;
		}
		ui32_t size;
		memcpy(&size, payload.data(), 4);
		auto const plain = aes_cbc(
			false, context->key, payload.data() + 4, vector<byte_t>(payload.begin() + 4 + CBC_BLOCK_SIZE, payload.end())
			);
		if (memcmp(plain.data(), check_value, CBC_BLOCK_SIZE)) {
			return RESULT_CHECKFAIL;
		}
		if (size > plain.size() - CBC_BLOCK_SIZE) {
			return RESULT_FORMAT;
		}
		payload.assign(plain.begin() + CBC_BLOCK_SIZE, plain.begin() + CBC_BLOCK_SIZE + size);
	}

	if (buffer.Capacity() < payload.size()) {
		return RESULT_SMALLBUF;
	}
	if (!payload.empty()) {
		memcpy(buffer.Data(), payload.data(), payload.size());
	}
	buffer.Size(payload.size());
	buffer.FrameNumber(index);
	return RESULT_OK;
}

Result_t
EssenceType(string const& path, EssenceType_t& type, Kumu::IFileReaderFactory const&)
{
	type = ESS_UNKNOWN;
	string kind;
	Store::Fields fields;
	auto const r = Store::kind_of(path, kind, &fields);
	if (KM_FAILURE(r)) {
		return r;
	}
	if (kind == "j2k" || kind == "j2k-threed") {
		type = ESS_JPEG_2000;
	} else if (kind == "j2k-stereo") {
		type = ESS_JPEG_2000_S;
	} else if (kind == "pcm") {
		type = fields["rate"] == "96000 1" ? ESS_PCM_24b_96k : ESS_PCM_24b_48k;
	} else if (kind == "text") {
		type = ESS_TIMED_TEXT;
	} else if (kind == "mpeg2") {
		type = ESS_MPEG2_VES;
	} else if (kind == "atmos") {
		type = ESS_DCDATA_DOLBY_ATMOS;
	}
	return RESULT_OK;
}

namespace JP2K {

Result_t
CodestreamParser::OpenReadFrame(byte_t const* data, ui32_t size, FrameBuffer& buffer)
{
	/* SOC then SIZ */
	static byte_t const start[] = { 0xff, 0x4f, 0xff, 0x51 };
	if (size < 42 || memcmp(data, start, 4)) {
		return RESULT_RAW_FORMAT;
	}
	if (buffer.Capacity() < size) {
		return RESULT_SMALLBUF;
	}
	memcpy(buffer.Data(), data, size);
	buffer.Size(size);

	auto u16 = [data](int o) { return ui16_t((data[o] << 8) | data[o + 1]); };
	auto u32 = [data](int o) { return (ui32_t(data[o]) << 24) | (ui32_t(data[o + 1]) << 16) | (ui32_t(data[o + 2]) << 8) | data[o + 3]; };
	_desc.Rsize = u16(6);
	_desc.Xsize = u32(8);
	_desc.Ysize = u32(12);
	_desc.XOsize = u32(16);
	_desc.YOsize = u32(20);
	_desc.XTsize = u32(24);
	_desc.YTsize = u32(28);
	_desc.XTOsize = u32(32);
	_desc.YTOsize = u32(36);
	_desc.Csize = u16(40);
	_desc.StoredWidth = _desc.Xsize;
	_desc.StoredHeight = _desc.Ysize;
	_desc.AspectRatio = Rational(_desc.Xsize, _desc.Ysize);
	return RESULT_OK;
}

Result_t
CodestreamParser::FillPictureDescriptor(PictureDescriptor& desc) const
{
	desc = _desc;
	return RESULT_OK;
}

static void
put(Store& store, PictureDescriptor const& d, Rational sample_rate)
{
	store.set("edit", d.EditRate);
	store.set("sample", sample_rate);
	store.set("aspect", d.AspectRatio);
	store.set("width", d.StoredWidth);
	store.set("height", d.StoredHeight);
	store.set("Rsize", d.Rsize);
	store.set("Xsize", d.Xsize);
	store.set("Ysize", d.Ysize);
	store.set("XOsize", d.XOsize);
	store.set("YOsize", d.YOsize);
	store.set("XTsize", d.XTsize);
	store.set("YTsize", d.YTsize);
	store.set("XTOsize", d.XTOsize);
	store.set("YTOsize", d.YTOsize);
	store.set("Csize", d.Csize);
}

static Result_t
fill(Store const& store, PictureDescriptor& d)
{
	d.EditRate = store.get_rational("edit");
	d.SampleRate = store.get_rational("sample");
	d.AspectRatio = store.get_rational("aspect");
	d.StoredWidth = store.get_number("width");
	d.StoredHeight = store.get_number("height");
	d.Rsize = store.get_number("Rsize");
	d.Xsize = store.get_number("Xsize");
	d.Ysize = store.get_number("Ysize");
	d.XOsize = store.get_number("XOsize");
	d.YOsize = store.get_number("YOsize");
	d.XTsize = store.get_number("XTsize");
	d.YTsize = store.get_number("YTsize");
	d.XTOsize = store.get_number("XTOsize");
	d.YTOsize = store.get_number("YTOsize");
	d.Csize = store.get_number("Csize");
	d.ContainerDuration = store.count();
	return RESULT_OK;
}

Result_t
MXFWriter::OpenWrite(string const& path, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size, bool overwrite)
{
	put(*_store, desc, desc.EditRate);
	return _store->open_write(path, "j2k", info, header_size, overwrite);
}

Result_t
MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* context, HMACContext* hmac, string* hash)
{
	return _store->write(buffer.RoData(), buffer.Size(), 0, context, hmac, hash);
}

Result_t
MXFWriter::FakeWriteFrame(int size)
{
	return _store->fake_write(size, 0);
}

Result_t
MXFSWriter::OpenWrite(string const& path, WriterInfo const& info, PictureDescriptor const& desc, ui32_t header_size, bool overwrite)
{
	put(*_store, desc, Rational(desc.EditRate.Numerator * 2, desc.EditRate.Denominator));
	return _store->open_write(path, "j2k-stereo", info, header_size, overwrite);
}

Result_t
MXFSWriter::WriteFrame(FrameBuffer const& buffer, StereoscopicPhase_t phase, AESEncContext* context, HMACContext* hmac, string* hash)
{
	if (phase != _next) {
		return RESULT_SPHASE;
	}
	_next = phase == SP_LEFT ? SP_RIGHT : SP_LEFT;
	return _store->write(buffer.RoData(), buffer.Size(), phase, context, hmac, hash);
}

Result_t
MXFSWriter::FakeWriteFrame(int size, StereoscopicPhase_t phase)
{
	if (phase != _next) {
		return RESULT_SPHASE;
	}
	_next = phase == SP_LEFT ? SP_RIGHT : SP_LEFT;
	return _store->fake_write(size, phase);
}

Result_t
MXFReader::OpenRead(string const& path)
{
	return _store->open_read(path, "j2k");
}

Result_t
MXFReader::FillPictureDescriptor(PictureDescriptor& desc) const
{
	return fill(*_store, desc);
}

Result_t
MXFReader::ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	return _store->read(n, buffer, context, hmac);
}

Result_t
MXFSReader::OpenRead(string const& path)
{
	return _store->open_read(path, "j2k-stereo");
}

Result_t
MXFSReader::FillPictureDescriptor(PictureDescriptor& desc) const
{
	fill(*_store, desc);
	desc.ContainerDuration /= 2;
	return RESULT_OK;
}

Result_t
MXFSReader::ReadFrame(ui32_t n, SFrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	auto const r = _store->read(n * 2, buffer.Left, context, hmac);
	if (KM_FAILURE(r)) {
		return r;
	}
	return _store->read(n * 2 + 1, buffer.Right, context, hmac);
}

}

namespace PCM {

ui32_t
CalcFrameBufferSize(AudioDescriptor const& desc)
{
	return static_cast<ui32_t>(ceil(desc.AudioSamplingRate.Quotient() / desc.EditRate.Quotient())) * desc.BlockAlign;
}

Result_t
MXFWriter::OpenWrite(string const& path, WriterInfo const& info, AudioDescriptor const& desc, ui32_t header_size)
{
	_store->set("edit", desc.EditRate);
	_store->set("rate", desc.AudioSamplingRate);
	_store->set("locked", desc.Locked);
	_store->set("channels", desc.ChannelCount);
	_store->set("bits", desc.QuantizationBits);
	_store->set("align", desc.BlockAlign);
	_store->set("bps", desc.AvgBps);
	_store->set("linked", desc.LinkedTrackID);
	_store->set("format", desc.ChannelFormat);
	_store->header().AddChildObject(new MXF::WaveAudioDescriptor);
	return _store->open_write(path, "pcm", info, header_size, false);
}

Result_t
MXFWriter::WriteFrame(FrameBuffer const& buffer, AESEncContext* context, HMACContext* hmac)
{
	return _store->write(buffer.RoData(), buffer.Size(), 0, context, hmac, nullptr);
}

Result_t
MXFReader::OpenRead(string const& path)
{
	return _store->open_read(path, "pcm");
}

Result_t
MXFReader::FillAudioDescriptor(AudioDescriptor& d) const
{
	d.EditRate = _store->get_rational("edit");
	d.AudioSamplingRate = _store->get_rational("rate");
	d.Locked = _store->get_number("locked");
	d.ChannelCount = _store->get_number("channels");
	d.QuantizationBits = _store->get_number("bits");
	d.BlockAlign = _store->get_number("align");
	d.AvgBps = _store->get_number("bps");
	d.LinkedTrackID = _store->get_number("linked");
	d.ChannelFormat = static_cast<ChannelFormat_t>(_store->get_number("format"));
	d.ContainerDuration = _store->count();
	return RESULT_OK;
}

Result_t
MXFReader::ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	return _store->read(n, buffer, context, hmac);
}

}

namespace TimedText {

Result_t
MXFWriter::OpenWrite(string const& path, WriterInfo const& info, TimedTextDescriptor const& desc, ui32_t header_size)
{
	_store->set("edit", desc.EditRate);
	_store->set("duration", desc.ContainerDuration);
	_store->set("namespace", desc.NamespaceName);
	_store->set("encoding", desc.EncodingName);
	_store->set("id", hex(desc.AssetID, UUIDlen));
	string resources;
	for (auto const& i: desc.ResourceList) {
		resources += hex(i.ResourceID, UUIDlen) + std::to_string(static_cast<int>(i.Type)) + " ";
	}
	_store->set("resources", resources);
	_expected = desc.ResourceList.size();
	return _store->open_write(path, "text", info, header_size, false);
}

Result_t
MXFWriter::WriteTimedTextResource(string const& xml, AESEncContext* context, HMACContext* hmac)
{
	return _store->write(reinterpret_cast<byte_t const*>(xml.data()), xml.length(), 0, context, hmac, nullptr);
}

Result_t
MXFWriter::WriteAncillaryResource(FrameBuffer const& buffer, AESEncContext* context, HMACContext* hmac)
{
	if (_resources >= _expected) {
		return RESULT_STATE;
	}
	++_resources;
	return _store->write(buffer.RoData(), buffer.Size(), _resources, context, hmac, nullptr);
}

Result_t
MXFReader::OpenRead(string const& path)
{
	return _store->open_read(path, "text");
}

Result_t
MXFReader::FillTimedTextDescriptor(TimedTextDescriptor& desc) const
{
	desc.EditRate = _store->get_rational("edit");
	desc.ContainerDuration = _store->get_number("duration");
	desc.NamespaceName = _store->get("namespace");
	desc.EncodingName = _store->get("encoding");
	unhex(_store->get("id"), desc.AssetID, UUIDlen);
	desc.ResourceList.clear();
	std::istringstream resources(_store->get("resources"));
	string one;
	while (resources >> one) {
		TimedTextResourceDescriptor r;
		unhex(one.substr(0, 32), r.ResourceID, UUIDlen);
		r.Type = static_cast<MIMEType_t>(one[32] - '0');
		desc.ResourceList.push_back(r);
	}
	return RESULT_OK;
}

Result_t
MXFReader::ReadTimedTextResource(string& xml, AESDecContext* context, HMACContext* hmac) const
{
	FrameBuffer buffer(8 * Kumu::Megabyte);
	auto const r = _store->read(0, buffer, context, hmac);
	if (KM_SUCCESS(r)) {
		xml.assign(reinterpret_cast<char const*>(buffer.RoData()), buffer.Size());
	}
	return r;
}

Result_t
MXFReader::ReadAncillaryResource(byte_t const* id, FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	TimedTextDescriptor desc;
	FillTimedTextDescriptor(desc);
	ui32_t n = 1;
	for (auto const& i: desc.ResourceList) {
		if (memcmp(i.ResourceID, id, UUIDlen) == 0) {
			return _store->read(n, buffer, context, hmac);
		}
		++n;
	}
	return RESULT_RANGE;
}

}

namespace MPEG2 {

static int
find(byte_t const* data, ui32_t size, byte_t code)
{
	for (ui32_t i = 0; i + 8 <= size; ++i) {
		if (data[i] == 0 && data[i + 1] == 0 && data[i + 2] == 1 && data[i + 3] == code) {
			return i + 4;
		}
	}
	return -1;
}

Result_t
Parser::OpenRead(byte_t const* data, ui32_t size)
{
	static Rational const rates[] = {
		{ 0, 1 }, { 24000, 1001 }, { 24, 1 }, { 25, 1 }, { 30000, 1001 }, { 30, 1 }, { 50, 1 }, { 60000, 1001 }, { 60, 1 }
	};

	auto const at = find(data, size, 0xb3);
	if (at < 0) {
		return RESULT_RAW_FORMAT;
	}
	_desc.StoredWidth = (data[at] << 4) | (data[at + 1] >> 4);
	_desc.StoredHeight = ((data[at + 1] & 15) << 8) | data[at + 2];
	auto const aspect = data[at + 3] >> 4;
	_desc.AspectRatio = aspect == 2 ? Rational(4, 3) : aspect == 4 ? Rational(221, 100) : Rational(16, 9);
	auto const rate = data[at + 3] & 15;
	if (rate < 1 || rate > 8) {
		return RESULT_RAW_FORMAT;
	}
	_desc.SampleRate = _desc.EditRate = rates[rate];
	return RESULT_OK;
}

Result_t
Parser::FillVideoDescriptor(VideoDescriptor& desc) const
{
	desc = _desc;
	return RESULT_OK;
}

Result_t
MXFWriter::OpenWrite(string const& path, WriterInfo const& info, VideoDescriptor const& desc, ui32_t header_size, bool overwrite)
{
	_store->set("edit", desc.EditRate);
	_store->set("sample", desc.EditRate);
	_store->set("aspect", desc.AspectRatio);
	_store->set("width", desc.StoredWidth);
	_store->set("height", desc.StoredHeight);
	return _store->open_write(path, "mpeg2", info, header_size, overwrite);
}

static ui32_t
pack(FrameType_t type, bool gop_start, bool closed_gop, ui8_t offset)
{
	return type | (gop_start ? 4 : 0) | (closed_gop ? 8 : 0) | (offset << 8);
}

Result_t
MXFWriter::WriteFrame(FrameBuffer& buffer, AESEncContext* context, HMACContext* hmac, string* hash)
{
	auto const picture = find(buffer.RoData(), buffer.Size(), 0);
	if (picture >= 0) {
		buffer.TemporalOffset((buffer.RoData()[picture] << 2) | (buffer.RoData()[picture + 1] >> 6));
		buffer.FrameType(static_cast<FrameType_t>((buffer.RoData()[picture + 1] >> 3) & 3));
	}
	auto const gop = find(buffer.RoData(), buffer.Size(), 0xb8);
	if (gop >= 0) {
		buffer.GOPStart(true);
		buffer.ClosedGOP(buffer.RoData()[gop + 3] & 0x40);
	}
	return _store->write(
		buffer.RoData(), buffer.Size(), pack(buffer.FrameType(), buffer.GOPStart(), buffer.ClosedGOP(), buffer.TemporalOffset()), context, hmac, hash
		);
}

Result_t
MXFWriter::FakeWriteFrame(int size, FrameType_t type, bool gop_start, bool closed_gop, ui8_t temporal_offset)
{
	return _store->fake_write(size, pack(type, gop_start, closed_gop, temporal_offset));
}

Result_t
MXFReader::OpenRead(string const& path)
{
	return _store->open_read(path, "mpeg2");
}

Result_t
MXFReader::FillVideoDescriptor(VideoDescriptor& desc) const
{
	desc.EditRate = _store->get_rational("edit");
	desc.SampleRate = _store->get_rational("sample");
	desc.AspectRatio = _store->get_rational("aspect");
	desc.StoredWidth = _store->get_number("width");
	desc.StoredHeight = _store->get_number("height");
	desc.ContainerDuration = _store->count();
	return RESULT_OK;
}

Result_t
MXFReader::ReadFrame(ui32_t n, FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	auto const r = _store->read(n, buffer, context, hmac);
	if (KM_SUCCESS(r)) {
		auto const tag = _store->tag(n);
		buffer.FrameType(static_cast<FrameType_t>(tag & 3));
		buffer.GOPStart(tag & 4);
		buffer.ClosedGOP(tag & 8);
		buffer.TemporalOffset(tag >> 8);
	}
	return r;
}

}

namespace ATMOS {

Result_t
MXFWriter::OpenWrite(string const& path, WriterInfo const& info, AtmosDescriptor const& desc, ui32_t header_size)
{
	_store->set("edit", desc.EditRate);
	_store->set("first", desc.FirstFrame);
	_store->set("channels", desc.MaxChannelCount);
	_store->set("objects", desc.MaxObjectCount);
	_store->set("id", hex(desc.AtmosID, UUIDlen));
	_store->set("version", desc.AtmosVersion);
	return _store->open_write(path, "atmos", info, header_size, false);
}

Result_t
MXFWriter::WriteFrame(DCData::FrameBuffer const& buffer, AESEncContext* context, HMACContext* hmac)
{
	return _store->write(buffer.RoData(), buffer.Size(), 0, context, hmac, nullptr);
}

Result_t
MXFReader::OpenRead(string const& path)
{
	return _store->open_read(path, "atmos");
}

Result_t
MXFReader::FillAtmosDescriptor(AtmosDescriptor& desc) const
{
	desc.EditRate = _store->get_rational("edit");
	desc.FirstFrame = _store->get_number("first");
	desc.MaxChannelCount = _store->get_number("channels");
	desc.MaxObjectCount = _store->get_number("objects");
	unhex(_store->get("id"), desc.AtmosID, UUIDlen);
	desc.AtmosVersion = _store->get_number("version");
	desc.ContainerDuration = _store->count();
	return RESULT_OK;
}

Result_t
MXFReader::ReadFrame(ui32_t n, DCData::FrameBuffer& buffer, AESDecContext* context, HMACContext* hmac) const
{
	return _store->read(n, buffer, context, hmac);
}

}

namespace MXF {

char const*
ISO8String::EncodeString(char* str, ui32_t len) const
{
	snprintf(str, len, "%s", c_str());
	return str;
}

InterchangeObject::InterchangeObject(MDD_t type_)
	: type(type_)
{
	Kumu::GenRandomValue(InstanceUID);
}

Result_t
OP1aHeader::GetMDObjectByType(UL const& type, InterchangeObject** object)
{
	std::list<InterchangeObject*> found;
	GetMDObjectsByType(type, found);
	if (object) {
		*object = found.empty() ? nullptr : found.front();
	}
	return found.empty() ? RESULT_FAIL : RESULT_OK;
}

Result_t
OP1aHeader::GetMDObjectsByType(UL const& type, std::list<InterchangeObject*>& objects)
{
	for (auto& i: _objects) {
		if (DefaultSMPTEDict().ul(i->type) == type) {
			objects.push_back(i.get());
		}
	}
	return objects.empty() ? RESULT_FAIL : RESULT_OK;
}

void
OP1aHeader::AddChildObject(InterchangeObject* object)
{
	_objects.emplace_back(object);
}

string
OP1aHeader::text() const
{
	string out;
	for (auto& i: _objects) {
		out += std::to_string(static_cast<int>(i->type)) + "\t" + hex(i->InstanceUID.Value(), 16);
		if (auto d = dynamic_cast<MCALabelSubDescriptor const*>(i.get())) {
			out += "\t" + hex(d->MCALabelDictionaryID.Value(), 16);
			out += "\t" + hex(d->MCALinkID.Value(), 16);
			out += "\t" + escape(d->MCATagSymbol);
			out += "\t" + (d->MCATagName.empty() ? "-" : "+" + escape(d->MCATagName.get()));
			out += "\t" + (d->MCAChannelID.empty() ? "-" : "+" + std::to_string(d->MCAChannelID.get()));
			out += "\t" + (d->RFC5646SpokenLanguage.empty() ? "-" : "+" + escape(d->RFC5646SpokenLanguage.get()));
			out += "\t" + (d->SoundfieldGroupLinkID.empty() ? "-" : "+" + hex(d->SoundfieldGroupLinkID.get().Value(), 16));
		}
		out += "\n";
	}
	return out;
}

void
OP1aHeader::parse(string const& text)
{
	std::istringstream lines(text);
	string line;
	while (std::getline(lines, line)) {
		vector<string> part(1);
		for (char c: line) {
			if (c == '\t') {
				part.push_back("");
			} else {
				part.back() += c;
			}
		}
		auto const type = static_cast<MDD_t>(atoi(part[0].c_str()));
		InterchangeObject* object = nullptr;
		Dictionary const* dict = &DefaultSMPTEDict();
		if (type == MDD_WaveAudioDescriptor) {
			object = new WaveAudioDescriptor;
		} else {
			MCALabelSubDescriptor* d = nullptr;
			if (type == MDD_SoundfieldGroupLabelSubDescriptor) {
				d = new SoundfieldGroupLabelSubDescriptor(dict);
			} else {
				d = new AudioChannelLabelSubDescriptor(dict);
			}
			d->MCALabelDictionaryID.DecodeHex(part.at(2).c_str());
			d->MCALinkID.DecodeHex(part.at(3).c_str());
			d->MCATagSymbol = unescape(part.at(4));
			if (part.at(5)[0] == '+') {
				d->MCATagName = UTF16String(unescape(part[5].substr(1)));
			}
			if (part.at(6)[0] == '+') {
				d->MCAChannelID = atoi(part[6].c_str() + 1);
			}
			if (part.at(7)[0] == '+') {
				d->RFC5646SpokenLanguage = ISO8String(unescape(part[7].substr(1)));
			}
			if (part.at(8)[0] == '+') {
				Kumu::UUID id;
				id.DecodeHex(part[8].c_str() + 1);
				d->SoundfieldGroupLinkID = id;
			}
			object = d;
		}
		object->InstanceUID.DecodeHex(part.at(1).c_str());
		_objects.emplace_back(object);
	}
}

}

}
