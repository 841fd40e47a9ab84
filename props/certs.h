/* Certificates made without the library, from a fixed set of keys */

#ifndef VERIF_CERTS_H
#define VERIF_CERTS_H

#include "civil.h"
#include "full.h"
#include "keys.h"
#include "certificate.h"
#include "certificate_chain.h"
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <memory>
#include <stdexcept>

namespace certs {

int const ordinary_keys = 10;

/** @return index of the first key in fixed_keys with this many bits */
inline int key_of_size(int bits)
{
	for (size_t i = 0; i < sizeof(fixed_keys) / sizeof(fixed_keys[0]); ++i) {
		if (fixed_keys[i].bits == bits) {
			return static_cast<int>(i);
		}
	}
	throw std::runtime_error("no such key");
}

inline EVP_PKEY* key(int index)
{
	static std::vector<EVP_PKEY*> cache(sizeof(fixed_keys) / sizeof(fixed_keys[0]));
	if (!cache[index]) {
		auto bio = BIO_new_mem_buf(fixed_keys[index].pem, -1);
		cache[index] = PEM_read_bio_PrivateKey(bio, nullptr, nullptr, nullptr);
		BIO_free(bio);
		if (!cache[index]) {
			throw std::runtime_error("could not read a fixed key");
		}
	}
	return cache[index];
}

inline std::string base64(uint8_t const* data, size_t length)
{
	static char const* c = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o;
	for (size_t i = 0; i < length; i += 3) {
		uint32_t v = data[i] << 16;
		if (i + 1 < length) {
			v |= data[i + 1] << 8;
		}
		if (i + 2 < length) {
			v |= data[i + 2];
		}
		o += c[v >> 18];
		o += c[(v >> 12) & 63];
		o += i + 1 < length ? c[(v >> 6) & 63] : '=';
		o += i + 2 < length ? c[v & 63] : '=';
	}
	return o;
}

struct Part
{
	int nid;
	int type;
	/** UTF-8 */
	std::string value;
};

typedef std::vector<Part> Name;

inline std::vector<uint32_t> code_points(std::string const& u)
{
	std::vector<uint32_t> r;
	for (size_t i = 0; i < u.size();) {
		uint8_t const c = u[i];
		int const n = c < 0x80 ? 1 : (c < 0xe0 ? 2 : (c < 0xf0 ? 3 : 4));
		uint32_t v = n == 1 ? c : (c & (0xff >> (n + 1)));
		for (int j = 1; j < n; ++j) {
			v = (v << 6) | (static_cast<uint8_t>(u[i + j]) & 0x3f);
		}
		r.push_back(v);
		i += n;
	}
	return r;
}

inline std::string part(Name const& name, int nid)
{
	for (auto const& i: name) {
		if (i.nid == nid) {
			return i.value;
		}
	}
	return "";
}

/** @return name as RFC2253 says that it should be written, in ASCII */
inline std::string rfc2253(Name const& name)
{
	std::string o;
	for (auto i = name.rbegin(); i != name.rend(); ++i) {
		if (!o.empty()) {
			o += ",";
		}
		switch (i->nid) {
		case NID_organizationName: o += "O="; break;
		case NID_organizationalUnitName: o += "OU="; break;
		case NID_commonName: o += "CN="; break;
		case NID_dnQualifier: o += "dnQualifier="; break;
		case NID_countryName: o += "C="; break;
		}
		for (size_t j = 0; j < i->value.size(); ++j) {
			uint8_t const c = i->value[j];
			bool const first = j == 0;
			bool const last = j == i->value.size() - 1;
			if (strchr(",+\"\\<>;", c) || (first && (c == ' ' || c == '#')) || (last && c == ' ')) {
				o += '\\';
				o += static_cast<char>(c);
			} else if (c < 0x20 || c >= 0x7f) {
				char b[8];
				snprintf(b, sizeof(b), "\\%02X", c);
				o += b;
			} else {
				o += static_cast<char>(c);
			}
		}
	}
	return o;
}

inline X509_NAME* make(Name const& name)
{
	auto n = X509_NAME_new();
	for (auto const& i: name) {
		std::string raw;
		if (i.type == V_ASN1_BMPSTRING) {
			for (auto c: code_points(i.value)) {
				raw += static_cast<char>(c >> 8);
				raw += static_cast<char>(c & 0xff);
			}
		} else if (i.type == V_ASN1_T61STRING) {
			for (auto c: code_points(i.value)) {
				raw += static_cast<char>(c);
			}
		} else {
			raw = i.value;
		}
		if (!X509_NAME_add_entry_by_NID(n, i.nid, i.type, reinterpret_cast<unsigned char const*>(raw.data()), static_cast<int>(raw.size()), -1, 0)) {
			throw std::runtime_error("could not make name");
		}
	}
	return n;
}

struct Spec
{
	Name subject;
	Name issuer;
	/** decimal */
	std::string serial = "1";
	Stamp from;
	Stamp to;
	bool force_generalized = false;
	int key = 0;
	int signing_key = 0;
	bool extensions = true;
	bool ca = true;
	int path_length = -1;
	bool cert_sign = true;
	int padding = 0;

	static ASN1_TIME* time(Stamp const& t, bool generalized)
	{
		char b[64];
		if (generalized || t.year >= 2050) {
			snprintf(b, sizeof(b), "%04d%02d%02d%02d%02d%02dZ", t.year, t.month, t.day, t.hour, t.minute, t.second);
		} else {
			snprintf(b, sizeof(b), "%02d%02d%02d%02d%02d%02dZ", t.year % 100, t.month, t.day, t.hour, t.minute, t.second);
		}
		auto a = ASN1_STRING_type_new(generalized || t.year >= 2050 ? V_ASN1_GENERALIZEDTIME : V_ASN1_UTCTIME);
		ASN1_STRING_set(a, b, -1);
		return a;
	}

	static void extension(X509* x, X509* issuer, int nid, char const* value)
	{
		X509V3_CTX ctx;
		X509V3_set_ctx_nodb(&ctx);
		X509V3_set_ctx(&ctx, issuer, x, nullptr, nullptr, 0);
		auto e = X509V3_EXT_conf_nid(nullptr, &ctx, nid, value);
		if (!e) {
			throw std::runtime_error(std::string("could not make extension ") + value);
		}
		X509_add_ext(x, e, -1);
		X509_EXTENSION_free(e);
	}

	/** @return PEM */
	std::string pem() const
	{
		auto x = X509_new();
		X509_set_version(x, 2);
		BIGNUM* bn = nullptr;
		BN_dec2bn(&bn, serial.c_str());
		BN_to_ASN1_INTEGER(bn, X509_get_serialNumber(x));
		BN_free(bn);
		auto n = make(subject);
		X509_set_subject_name(x, n);
		X509_NAME_free(n);
		n = make(issuer);
		X509_set_issuer_name(x, n);
		X509_NAME_free(n);
		auto t = time(from, force_generalized);
		X509_set1_notBefore(x, t);
		ASN1_TIME_free(t);
		t = time(to, force_generalized);
		X509_set1_notAfter(x, t);
		ASN1_TIME_free(t);
		X509_set_pubkey(x, certs::key(key));
		if (extensions) {
			std::string c = ca ? "critical,CA:true" : "critical,CA:false";
			if (ca && path_length >= 0) {
				c += ",pathlen:" + std::to_string(path_length);
			}
			extension(x, x, NID_basic_constraints, c.c_str());
			extension(x, x, NID_key_usage, ca ? (cert_sign ? "keyCertSign,cRLSign" : "cRLSign") : "digitalSignature,keyEncipherment");
			extension(x, x, NID_subject_key_identifier, "hash");
		}
		if (padding) {
			extension(x, x, NID_netscape_comment, std::string(padding, 'x').c_str());
		}
		if (!X509_sign(x, certs::key(signing_key), EVP_sha256())) {
			throw std::runtime_error("could not sign");
		}
		auto bio = BIO_new(BIO_s_mem());
		PEM_write_bio_X509(bio, x);
		X509_free(x);
		char* data;
		auto const length = BIO_get_mem_data(bio, &data);
		std::string const p(data, length);
		BIO_free(bio);
		return p;
	}
};

inline std::vector<uint8_t> der(std::string const& pem)
{
	auto bio = BIO_new_mem_buf(pem.data(), static_cast<int>(pem.size()));
	char* name;
	char* header;
	unsigned char* data;
	long length;
	if (!PEM_read_bio(bio, &name, &header, &data, &length)) {
		throw std::runtime_error("could not read PEM");
	}
	BIO_free(bio);
	std::vector<uint8_t> r(data, data + length);
	OPENSSL_free(name);
	OPENSSL_free(header);
	OPENSSL_free(data);
	return r;
}

/** @return SHA1 of the first thing inside the outermost SEQUENCE of a certificate, i.e. what is signed */
inline std::string thumbprint(std::string const& pem)
{
	auto const d = der(pem);
	auto header = [&d](size_t at) {
		size_t n = 2;
		if (d.at(at + 1) & 0x80) {
			n += d.at(at + 1) & 0x7f;
		}
		return n;
	};
	auto length = [&d](size_t at) {
		size_t l = d.at(at + 1);
		if (l & 0x80) {
			int const n = l & 0x7f;
			l = 0;
			for (int i = 0; i < n; ++i) {
				l = (l << 8) | d.at(at + 2 + i);
			}
		}
		return l;
	};
	auto const start = header(0);
	uint8_t sha[20];
	SHA1(d.data() + start, header(start) + length(start), sha);
	return base64(sha, 20);
}

inline Stamp stamp(int year, int month, int day)
{
	Stamp t;
	t.year = year;
	t.month = month;
	t.day = day;
	return t;
}

/** @return ordinary specification for a certificate, self-signed if by < 0 */
inline Spec ordinary(int index, std::string what, bool ca, int with, int by, Name issuer)
{
	Spec c;
	c.subject = {
		{ NID_organizationName, V_ASN1_PRINTABLESTRING, "example.org" },
		{ NID_organizationalUnitName, V_ASN1_PRINTABLESTRING, "example.org" },
		{ NID_commonName, V_ASN1_PRINTABLESTRING, (ca ? "." : "CS.") + what + std::to_string(index) },
		{ NID_dnQualifier, V_ASN1_PRINTABLESTRING, fixed_keys[with].digest }
	};
	c.issuer = by < 0 ? c.subject : issuer;
	c.serial = std::to_string(index + 5);
	c.from = stamp(2015, 3, 1);
	c.to = stamp(2035, 3, 1);
	c.key = with;
	c.signing_key = by < 0 ? with : by;
	c.ca = ca;
	return c;
}

/** @return root first; each has one of different keys */
inline std::vector<Spec> chain(int length, std::string what, std::vector<int> keys)
{
	std::vector<Spec> r;
	for (int i = 0; i < length; ++i) {
		r.push_back(ordinary(i, what, i < length - 1 || length == 1, keys[i], i ? keys[i - 1] : -1, i ? r.back().subject : Name()));
	}
	return r;
}

inline std::vector<int> shuffled(pbt::Src& s, int n)
{
	std::vector<int> v;
	for (int i = 0; i < n; ++i) {
		v.push_back(i);
	}
	for (int i = 0; i < n - 1; ++i) {
		std::swap(v[i], v[i + s.draw(n - 1 - i)]);
	}
	return v;
}

}

#endif
