/* Makes JPEG2000 codestreams (or rather, all the parts of them which are not image data) */

#ifndef VERIF_CODESTREAM_H
#define VERIF_CODESTREAM_H

#include "media.h"

namespace codestream {

using media::Bytes;

inline void u8(Bytes& b, uint32_t v) { b.push_back(v); }
inline void u16(Bytes& b, uint32_t v) { b.push_back(v >> 8); b.push_back(v); }
inline void u32(Bytes& b, uint32_t v) { u16(b, v >> 16); u16(b, v); }
inline void marker(Bytes& b, uint8_t m) { b.push_back(0xff); b.push_back(m); }

struct Size
{
	int rsiz = 3;
	uint32_t width = 1998;
	uint32_t height = 1080;
	uint32_t x = 0, y = 0;
	uint32_t tile_width = 1998;
	uint32_t tile_height = 1080;
	uint32_t tile_x = 0, tile_y = 0;
	int components = 3;
	uint8_t component[9] = { 11, 1, 1, 11, 1, 1, 11, 1, 1 };
	int length = 47;

	bool fourk() const { return width > 2048; }

	Bytes bytes() const
	{
		Bytes b;
		marker(b, 0x51);
		u16(b, length);
		u16(b, rsiz);
		u32(b, width);
		u32(b, height);
		u32(b, x);
		u32(b, y);
		u32(b, tile_width);
		u32(b, tile_height);
		u32(b, tile_x);
		u32(b, tile_y);
		u16(b, components);
		for (auto c: component) {
			u8(b, c);
		}
		return b;
	}
};

inline Bytes cod(bool fourk)
{
	Bytes b;
	marker(b, 0x52);
	u16(b, fourk ? 19 : 18);
	u8(b, 1);
	u8(b, 4);
	u16(b, 1);
	u8(b, 1);
	u8(b, fourk ? 6 : 5);
	u8(b, 3);
	u8(b, 3);
	u8(b, 0);
	u8(b, 0);
	u8(b, 0x77);
	for (int i = 0; i < (fourk ? 6 : 5); ++i) {
		u8(b, 0x88);
	}
	return b;
}

inline Bytes qcd(bool fourk, int guard_bits)
{
	Bytes b;
	marker(b, 0x5c);
	int const n = 2 * (3 * (fourk ? 6 : 5) + 1);
	u16(b, 3 + n);
	u8(b, (guard_bits << 5) | 2);
	for (int i = 0; i < n; ++i) {
		u8(b, 0x70 + i);
	}
	return b;
}

inline Bytes coc(int component)
{
	Bytes b;
	marker(b, 0x53);
	u16(b, 15);
	u8(b, component);
	u8(b, 1);
	u8(b, 5);
	u8(b, 3);
	u8(b, 3);
	u8(b, 0);
	u8(b, 0x77);
	for (int i = 0; i < 5; ++i) {
		u8(b, 0x88);
	}
	return b;
}

/** A segment whose contents do not matter */
inline Bytes filler(uint8_t m, Bytes const& contents)
{
	Bytes b;
	marker(b, m);
	u16(b, contents.size() + 2);
	b.insert(b.end(), contents.begin(), contents.end());
	return b;
}

inline Bytes poc()
{
	Bytes b;
	marker(b, 0x5f);
	u16(b, 16);
	u8(b, 0);
	u8(b, 0);
	u16(b, 1);
	u8(b, 6);
	u8(b, 3);
	u8(b, 4);
	u8(b, 6);
	u8(b, 0);
	u16(b, 1);
	u8(b, 7);
	u8(b, 3);
	u8(b, 4);
	return b;
}

inline Bytes sot(int index, int parts, uint32_t length)
{
	Bytes b;
	marker(b, 0x90);
	u16(b, 10);
	u16(b, 0);
	u32(b, length);
	u8(b, index);
	u8(b, parts);
	return b;
}

inline Bytes sod()
{
	Bytes b;
	marker(b, 0x93);
	return b;
}

/** Something with which no fault can be found */
inline Bytes good(int width, int height, size_t size = 0, int salt = 0)
{
	Bytes b;
	marker(b, 0x4f);
	auto add = [&b](Bytes const& c) { b.insert(b.end(), c.begin(), c.end()); };
	Size siz;
	siz.width = siz.tile_width = width;
	siz.height = siz.tile_height = height;
	siz.rsiz = siz.fourk() ? 4 : 3;
	add(siz.bytes());
	add(cod(siz.fourk()));
	add(qcd(siz.fourk(), siz.fourk() ? 2 : 1));
	add(filler(0x55, { 0, 0x40, 0, 0, 0, 1 }));
	if (siz.fourk()) {
		add(poc());
	}
	int const parts = siz.fourk() ? 6 : 3;
	for (int i = 0; i < parts; ++i) {
		add(sot(i, parts, 20));
		add(sod());
		for (int j = 0; j < 4; ++j) {
			b.push_back((salt >> (8 * j)) & 0x7f);
		}
	}
	if (b.size() + 2 < size) {
		b.resize(size - 2, 0x11);
	}
	marker(b, 0xd9);
	return b;
}

}

#endif
