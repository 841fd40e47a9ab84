/* Part of a stand-in for asdcplib */

#ifndef VERIF_SHIM_KM_UTIL_H
#define VERIF_SHIM_KM_UTIL_H

#include "KM_error.h"
#include "KM_platform.h"
#include <string>
#include <vector>

namespace Kumu {

ui32_t const UUID_Length = 16;
ui32_t const Kilobyte = 1024;
ui32_t const Megabyte = 1024 * 1024;

extern bool dcpomatic_test;
void ResetTestRNG();

char const* bin2hex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len);
i32_t hex2bin(char const* str, byte_t* buf, ui32_t buf_len, ui32_t* conv_size);
char const* bin2UUIDhex(byte_t const* bin, ui32_t bin_len, char* str, ui32_t str_len);
char const* base64encode(byte_t const* buf, ui32_t buf_len, char* str, ui32_t str_len);

class ByteString
{
public:
	ByteString() {}
	explicit ByteString(ui32_t capacity) : _data(capacity) {}

	Result_t Capacity(ui32_t n) {
		if (_data.size() < n) {
			_data.resize(n);
		}
		return RESULT_OK;
	}

	ui32_t Capacity() const { return _data.size(); }
	byte_t* Data() { return _data.data(); }
	byte_t const* RoData() const { return _data.data(); }
	ui32_t Length() const { return _length; }
	void Length(ui32_t n) { _length = n; }

private:
	std::vector<byte_t> _data;
	ui32_t _length = 0;
};

template <int N>
class Identifier
{
public:
	Identifier() {}
	explicit Identifier(byte_t const* value) { Set(value); }

	void Set(byte_t const* value) {
		for (int i = 0; i < N; ++i) {
			_value[i] = value[i];
		}
		_has = true;
	}

	byte_t const* Value() const { return _value; }
	bool HasValue() const { return _has; }
	ui32_t Size() const { return N; }

	bool DecodeHex(char const* str) {
		ui32_t done = 0;
		_has = hex2bin(str, _value, N, &done) == 0 && done == N;
		return _has;
	}

	char const* EncodeHex(char* str, ui32_t len) const { return bin2hex(_value, N, str, len); }

	bool operator==(Identifier const& other) const {
		for (int i = 0; i < N; ++i) {
			if (_value[i] != other._value[i]) {
				return false;
			}
		}
		return true;
	}

protected:
	byte_t _value[N] = {};
	bool _has = false;
};

class UUID : public Identifier<UUID_Length>
{
public:
	UUID() {}
	explicit UUID(byte_t const* value) : Identifier<UUID_Length>(value) {}

	char const* EncodeHex(char* str, ui32_t len) const { return bin2UUIDhex(_value, UUID_Length, str, len); }
	char const* EncodeString(char* str, ui32_t len) const { return bin2UUIDhex(_value, UUID_Length, str, len); }
};

void GenRandomUUID(byte_t* buf);

inline void GenRandomValue(UUID& id)
{
	byte_t buf[UUID_Length];
	GenRandomUUID(buf);
	id.Set(buf);
}

}

#endif
