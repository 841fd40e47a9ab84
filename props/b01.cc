/* Streams of bits with CRCs */

#include "pbt.h"
#include "bitstream.h"

using namespace pbt;

static uint16_t crc(std::vector<bool> const& bits, uint16_t poly)
{
	uint16_t r = 0;
	for (bool b: bits) {
		bool const top = (r >> 15) & 1;
		r <<= 1;
		if (top != b) {
			r ^= poly;
		}
	}
	return r;
}

static std::string show_bits(std::vector<bool> const& v)
{
	std::string o;
	for (bool b: v) {
		o += b ? '1' : '0';
	}
	return o;
}

static Register stream("stream", 500000, 12000000, "a CRC over something other than nothing", [](Src& s) {
	dcp::Bitstream stream;
	std::vector<bool> want;
	std::vector<bool> covered;
	bool in_crc = false;
	uint16_t poly = 0;
	int crcs = 0;
	bool interesting = false;
	std::string log;
	int n = 0;
	for (; s.more(n, 1, 25, 90); ++n) {
		auto put = [&](uint32_t v, int bits) {
			for (int i = bits - 1; i >= 0; --i) {
				want.push_back((v >> i) & 1);
				if (in_crc) {
					covered.push_back((v >> i) & 1);
				}
			}
		};
		switch (s.weighted({15, 25, 25, 15, 15, 5})) {
		case 0:
		{
			bool const b = s.boolean();
			log += b ? "bit1 " : "bit0 ";
			stream.write_bit(b);
			put(b, 1);
			break;
		}
		case 1:
		{
			auto const v = static_cast<uint8_t>(s.edgy(0, 255, {0x80, 0x7f}));
			int const bits = s.boolean() ? 8 : s.irange(0, 8);
			log += "byte" + std::to_string(v) + "/" + std::to_string(bits) + " ";
			if (bits == 8 && s.boolean()) {
				stream.write_from_byte(v);
			} else {
				stream.write_from_byte(v, bits);
			}
			put(v, bits);
			break;
		}
		case 2:
		{
			auto const v = static_cast<uint32_t>(s.edgy(0, 0xffffffffLL, {0x80000000LL, 0x7fffffffLL, 0xffff, 0x10000}));
			int const bits = s.boolean() ? s.pick({32, 16, 12}) : s.irange(0, 32);
			log += "word" + std::to_string(v) + "/" + std::to_string(bits) + " ";
			if (bits == 32 && s.boolean()) {
				stream.write_from_word(v);
			} else {
				stream.write_from_word(v, bits);
			}
			put(v, bits);
			break;
		}
		case 3:
			if (!in_crc) {
				poly = static_cast<uint16_t>(s.boolean() ? s.pick({0x1021, 0x8005}) : s.draw(0xffff));
				log += "start" + std::to_string(poly) + " ";
				stream.start_crc(poly);
				in_crc = true;
				covered.clear();
			}
			break;
		case 4:
			if (in_crc) {
				log += "crc ";
				stream.write_crc();
				auto const c = crc(covered, poly);
				interesting = interesting || !covered.empty();
				in_crc = false;
				put(c, 16);
				++crcs;
				/* Whoever reads this can check it: the CRC of the whole thing is 0 */
				auto const all = stream.get();
				if (all.size() >= covered.size() + 16) {
					std::vector<bool> tail(all.end() - covered.size() - 16, all.end());
					check_eq(static_cast<int>(crc(tail, poly)), 0, "CRC of message and CRC");
				}
			}
			break;
		case 5:
		{
			/* Only one CRC at a time, and only those which have been started can be written */
			bool threw = false;
			try {
				if (in_crc) {
					log += "bad-start ";
					stream.start_crc(0x1021);
				} else {
					log += "bad-crc ";
					stream.write_crc();
				}
			} catch (std::exception&) {
				threw = true;
			}
			check(threw, "a CRC started twice, or written without being started, gave no error");
			break;
		}
		}
		check_eq(show_bits(stream.get()), show_bits(want), "bits after " + log);
	}
	s.note("operations", log);
	s.nontrivial_if(crcs && interesting);
});
