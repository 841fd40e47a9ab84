/* Generators of things that go in MXF files */

#ifndef VERIF_MEDIA_H
#define VERIF_MEDIA_H

#include "full.h"
#include "key.h"
#include "types.h"
#include "mxf.h"
#include "metadata.h"
#include <openssl/md5.h>
#include <string>
#include <vector>

namespace media {

typedef std::vector<uint8_t> Bytes;

/** Something which the stand-in for asdcplib takes for a JPEG2000 codestream: the start of a real one and then anything */
inline Bytes j2k(pbt::Src& s, int width, int height, int max_extra)
{
	Bytes b = { 0xff, 0x4f, 0xff, 0x51, 0, 47, 0, 3 };
	auto u32 = [&b](uint32_t v) { for (int i = 24; i >= 0; i -= 8) { b.push_back(v >> i); } };
	u32(width);
	u32(height);
	u32(0);
	u32(0);
	u32(width);
	u32(height);
	u32(0);
	u32(0);
	b.push_back(0);
	b.push_back(3);
	auto const extra = s.bytes(0, max_extra);
	b.insert(b.end(), extra.begin(), extra.end());
	return b;
}

inline dcp::Fraction edit_rate(pbt::Src& s)
{
	static std::vector<dcp::Fraction> const r = {
		{24, 1}, {25, 1}, {30, 1}, {48, 1}, {50, 1}, {60, 1}, {96, 1}, {100, 1}, {120, 1}, {24000, 1001}, {30000, 1001}
	};
	return s.pick(r);
}

/** Key which may or may not be used */
struct Lock
{
	boost::optional<dcp::Key> key;
	boost::optional<std::string> id;

	void generate(pbt::Src& s, int percent)
	{
		if (!s.chance(percent)) {
			return;
		}
		uint8_t v[16];
		for (auto& i: v) {
			i = s.draw(255);
		}
		key = dcp::Key(v, 16);
		if (s.chance(70)) {
			id = full::uuid(s);
		}
	}

	/** Put it on something that is to be written */
	void apply(dcp::MXF& mxf)
	{
		if (key) {
			if (id) {
				mxf.set_key_id(*id);
			}
			mxf.set_key(*key);
			if (id) {
				pbt::check_eq(mxf.key_id().get_value_or("none"), *id, "key ID after setting the key");
			} else {
				pbt::check(static_cast<bool>(mxf.key_id()), "no key ID after setting the key");
				id = mxf.key_id();
			}
		}
		pbt::check_eq(mxf.encrypted(), static_cast<bool>(key), "encrypted, before writing");
	}

	/** Check something that has been read, then give it the key */
	void unlock(dcp::MXF& mxf) const
	{
		pbt::check_eq(mxf.encrypted(), static_cast<bool>(key), "encrypted, after reading");
		pbt::check_eq(mxf.key_id().get_value_or("none"), id.get_value_or("none"), "key ID after reading");
		pbt::check(!mxf.key(), "key after reading");
		if (key) {
			mxf.set_key(*key);
			pbt::check_eq(mxf.key_id().get_value_or("none"), *id, "key ID after reading and setting the key");
		}
	}
};

/** Metadata which goes in the MXF */
struct Tags
{
	std::string company, product, version;

	void generate(pbt::Src& s)
	{
		company = full::text(s, 1, 5);
		product = full::text(s, 1, 5);
		version = full::text(s, 1, 5);
	}

	void apply(dcp::MXF& mxf) const
	{
		dcp::MXFMetadata m;
		m.company_name = company;
		m.product_name = product;
		m.product_version = version;
		mxf.set_metadata(m);
	}

	void compare(dcp::MXF const& mxf) const
	{
		pbt::check_eq(mxf.metadata().company_name, company, "company name");
		pbt::check_eq(mxf.metadata().product_name, product, "product name");
		pbt::check_eq(mxf.metadata().product_version, version, "product version");
	}
};

inline std::string read_file(boost::filesystem::path p)
{
	std::string s;
	auto f = fopen(p.string().c_str(), "rb");
	pbt::check(f, "no file " + p.string());
	char buffer[65536];
	size_t n;
	while ((n = fread(buffer, 1, sizeof(buffer), f)) > 0) {
		s.append(buffer, n);
	}
	fclose(f);
	return s;
}

}

#endif
