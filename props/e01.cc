/* Key delivery messages */

#include "certs.h"
#include "exceptions.h"
#include "decrypted_kdm.h"
#include "decrypted_kdm_key.h"
#include "encrypted_kdm.h"
#include "cplmodel.h"
#include "media.h"
#include "xmltree.h"
#include <openssl/rsa.h>
#include <boost/algorithm/string.hpp>
#include <fstream>
#include <set>

using namespace pbt;
using certs::Spec;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

static full::Setup setup;

static uint8_t const smpte_structure[] = { 0xf1, 0xdc, 0x12, 0x44, 0x60, 0x16, 0x9a, 0x0e, 0x85, 0xbc, 0x30, 0x06, 0x42, 0xf8, 0x66, 0xab };
static string const assume_trust = "2jmj7l5rSw0yVb/vlWAYkK/YBwk=";

struct ModelKey
{
	string type;
	string id;
	string cpl;
	vector<uint8_t> value;

	string text() const
	{
		return type + " " + id + " " + cpl + " " + dcp::Key(value.data()).hex();
	}
};

static vector<uint8_t> sixteen(Src& s)
{
	vector<uint8_t> v(16);
	int const how = s.weighted({ 80, 10, 10 });
	for (auto& i: v) {
		i = how == 0 ? s.draw(255) : (how == 1 ? 0 : 0xff);
	}
	return v;
}

static vector<uint8_t> binary(string const& uuid)
{
	vector<uint8_t> r;
	int half = -1;
	for (auto c: uuid) {
		if (c == '-') {
			continue;
		}
		int const v = c <= '9' ? c - '0' : c - 'a' + 10;
		if (half < 0) {
			half = v;
		} else {
			r.push_back(half * 16 + v);
			half = -1;
		}
	}
	return r;
}

/** Signer, with its certificates' specifications */
struct Signer
{
	vector<Spec> specs;
	shared_ptr<dcp::CertificateChain> chain;

	explicit Signer(vector<Spec> s)
		: specs(s)
		, chain(make_shared<dcp::CertificateChain>())
	{
		for (auto const& i: specs) {
			chain->add(dcp::Certificate(i.pem()));
		}
		chain->set_key(fixed_keys[specs.back().key].pem);
	}
};

static Signer ordinary_signer(Src& s, int length)
{
	auto keys = certs::shuffled(s, certs::ordinary_keys);
	auto specs = certs::chain(length, "signer", keys);
	for (auto& i: specs) {
		i.from = certs::stamp(1971, 1, 1);
		i.to = certs::stamp(2060, 1, 1);
		i.serial = std::to_string(s.range(1, 1000000));
	}
	return Signer(specs);
}

static Spec gen_recipient(Src& s, bool any_size)
{
	auto c = certs::ordinary(s.irange(0, 9), "recipient", false, s.irange(0, certs::ordinary_keys - 1), -1, {});
	if (any_size && s.chance(8)) {
		c.key = certs::key_of_size(s.pick({ 3072, 4096 }));
	}
	c.subject[2].value = s.pick<string>({ "", "SM.", "LE.SPB." , "a", "." }) + s.str(vector<string>{ "a", "B", "1", ".", "-", "&", "<", "+" }, 1, 8);
	c.issuer[2].value = "i" + full::text(s, 0, 6);
	c.issuer[2].type = V_ASN1_UTF8STRING;
	c.serial = s.pick<string>({ "1", "5", "9" }) + s.str(string("0123456789"), 0, 30);
	return c;
}

static Stamp gen_when(Src& s)
{
	auto t = gen_stamp(s, 1980, 2050);
	t.ms = 0;
	return t;
}

static string own_decrypt(vector<uint8_t> const& cipher, int key)
{
	auto ctx = EVP_PKEY_CTX_new(certs::key(key), nullptr);
	string out(1024, ' ');
	size_t length = out.size();
	bool ok = EVP_PKEY_decrypt_init(ctx) > 0 && EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_OAEP_PADDING) > 0 &&
		EVP_PKEY_decrypt(ctx, reinterpret_cast<uint8_t*>(&out[0]), &length, cipher.data(), cipher.size()) > 0;
	EVP_PKEY_CTX_free(ctx);
	check(ok, "the recipient's key does not decrypt what is in the message");
	out.resize(length);
	return out;
}

static string own_encrypt(string const& plain, int key)
{
	auto ctx = EVP_PKEY_CTX_new(certs::key(key), nullptr);
	vector<uint8_t> out(1024);
	size_t length = out.size();
	bool ok = EVP_PKEY_encrypt_init(ctx) > 0 && EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_OAEP_PADDING) > 0 &&
		EVP_PKEY_encrypt(ctx, out.data(), &length, reinterpret_cast<uint8_t const*>(plain.data()), plain.size()) > 0;
	EVP_PKEY_CTX_free(ctx);
	if (!ok) {
		throw std::runtime_error("could not encrypt");
	}
	return certs::base64(out.data(), length);
}

static vector<uint8_t> unbase64(string const& t)
{
	vector<uint8_t> r;
	uint32_t v = 0;
	int bits = 0;
	for (auto c: t) {
		int d;
		if (c >= 'A' && c <= 'Z') {
			d = c - 'A';
		} else if (c >= 'a' && c <= 'z') {
			d = c - 'a' + 26;
		} else if (c >= '0' && c <= '9') {
			d = c - '0' + 52;
		} else if (c == '+') {
			d = 62;
		} else if (c == '/') {
			d = 63;
		} else {
			continue;
		}
		v = (v << 6) | d;
		bits += 6;
		if (bits >= 8) {
			bits -= 8;
			r.push_back((v >> bits) & 0xff);
		}
	}
	return r;
}

struct Message
{
	Stamp from;
	Stamp to;
	string annotation;
	string title;
	vector<ModelKey> keys;
	vector<string> devices;
	int formulation = 0;
	bool no_picture_mark = false;
	boost::optional<int> no_audio_mark;

	void generate(Src& s)
	{
		from = gen_when(s);
		to = gen_when(s);
		annotation = full::text(s, 1, 10);
		title = full::text(s, 1, 10);
		auto const cpl = full::uuid(s);
		for (int n = 0; s.more(n, 1, 6, 60); ++n) {
			ModelKey k;
			k.type = s.pick<string>({ "MDIK", "MDAK", "MDSK", "MDEK", "MDMK", "FMIK" });
			k.id = full::uuid(s);
			k.cpl = s.chance(90) ? cpl : full::uuid(s);
			k.value = sixteen(s);
			keys.push_back(k);
		}
		generate_options(s);
		s.note("from", from.text(false, true));
		s.note("to", to.text(false, true));
		s.note("annotation", annotation);
		s.note("title", title);
		vector<string> k;
		for (auto const& i: keys) {
			k.push_back(i.text());
		}
		s.note("keys", k);
	}

	void generate_options(Src& s)
	{
		for (int n = 0; s.more(n, 0, 4, 55); ++n) {
			uint8_t d[20];
			for (auto& i: d) {
				i = s.draw(255);
			}
			devices.push_back(certs::base64(d, 20));
		}
		formulation = s.irange(0, 3);
		no_picture_mark = s.boolean();
		if (s.boolean()) {
			no_audio_mark = s.edgy(0, 99, { 0, 1, 2, 10 });
		}
		s.note("devices", devices);
		s.note("formulation", formulation);
		s.note("no_picture_mark", no_picture_mark);
		s.note("no_audio_mark", no_audio_mark ? *no_audio_mark : -1);
	}

	dcp::Formulation dcp_formulation() const
	{
		static dcp::Formulation const f[] = {
			dcp::Formulation::MODIFIED_TRANSITIONAL_1, dcp::Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1,
			dcp::Formulation::DCI_ANY, dcp::Formulation::DCI_SPECIFIC
		};
		return f[formulation];
	}

	dcp::DecryptedKDM make(Src& s) const
	{
		dcp::DecryptedKDM d(from.make(1), to.make(1), annotation, title, "2020-01-01T00:00:00+00:00");
		for (auto const& i: keys) {
			if (s.boolean()) {
				d.add_key(i.type, i.id, dcp::Key(i.value.data()), i.cpl, dcp::Standard::SMPTE);
			} else {
				d.add_key(dcp::DecryptedKDMKey(i.type, i.id, dcp::Key(i.value.data()), i.cpl, dcp::Standard::SMPTE));
			}
		}
		return d;
	}

	dcp::EncryptedKDM encrypt(dcp::DecryptedKDM const& d, Signer const& signer, Spec const& recipient) const
	{
		return d.encrypt(signer.chain, dcp::Certificate(recipient.pem()), devices, dcp_formulation(), no_picture_mark, no_audio_mark);
	}

	/** Check a message against this by way of the library */
	void check_encrypted(dcp::EncryptedKDM const& e, Signer const& signer, Spec const& recipient, string what) const
	{
		check_eq(e.annotation_text() ? *e.annotation_text() : "[none]", annotation, what + ": annotation");
		check_eq(e.content_title_text(), title, what + ": title");
		check_eq(e.cpl_id(), keys.front().cpl, what + ": CPL");
		check_eq(e.not_valid_before().as_string(), from.text(false, true), what + ": start of validity");
		check_eq(e.not_valid_after().as_string(), to.text(false, true), what + ": end of validity");
		check_eq(e.recipient_x509_subject_name(), certs::rfc2253(recipient.subject), what + ": recipient");
		check_eq(e.keys().size(), keys.size(), what + ": number of keys");
		check(e.trusted_devices() == expected_devices(), what + ": trusted devices are " + show(e.trusted_devices()));
		auto l = e.signer_certificate_chain().leaf_to_root();
		check_eq(l.size(), signer.specs.size(), what + ": number of certificates of the signer");
		for (size_t i = 0; i < l.size(); ++i) {
			check_eq(l[i].certificate(true), signer.specs[l.size() - 1 - i].pem(), what + ": certificate of the signer");
		}
	}

	vector<string> expected_devices() const
	{
		if ((formulation == 1 || formulation == 3) && !devices.empty()) {
			return devices;
		}
		return { assume_trust };
	}

	/** Check the XML of a message against this */
	void check_xml(string xml, Signer const& signer, Spec const& recipient, string id, string what) const
	{
		auto const root = tree::read(xml);
		check_eq(root.name, string("DCinemaSecurityMessage"), what + ": root");
		auto const& pub = root.at("AuthenticatedPublic");
		auto const& leaf = signer.specs.back();
		check_eq(pub.at("MessageId").text, "urn:uuid:" + id, what + ": ID");
		check_eq(pub.at("MessageType").text, string("http://www.smpte-ra.org/430-1/2006/KDM#kdm-key-type"), what + ": type");
		check_eq(pub.at("AnnotationText").text, annotation, what + ": annotation");
		check_eq(pub.at("Signer/X509IssuerName").text, certs::rfc2253(leaf.issuer), what + ": signer's issuer");
		check_eq(pub.at("Signer/X509SerialNumber").text, leaf.serial, what + ": signer's serial");
		auto const& x = pub.at("RequiredExtensions/KDMRequiredExtensions");
		check_eq(x.ns, string("http://www.smpte-ra.org/schemas/430-1/2006/KDM"), what + ": namespace");
		check_eq(x.at("Recipient/X509IssuerSerial/X509IssuerName").text, certs::rfc2253(recipient.issuer), what + ": recipient's issuer");
		check_eq(x.at("Recipient/X509IssuerSerial/X509SerialNumber").text, recipient.serial, what + ": recipient's serial");
		check_eq(x.at("Recipient/X509SubjectName").text, certs::rfc2253(recipient.subject), what + ": recipient");
		check_eq(x.at("CompositionPlaylistId").text, "urn:uuid:" + keys.front().cpl, what + ": CPL");
		check_eq(x.at("ContentTitleText").text, title, what + ": title");
		check_eq(x.at("ContentKeysNotValidBefore").text, from.text(false, true), what + ": start of validity");
		check_eq(x.at("ContentKeysNotValidAfter").text, to.text(false, true), what + ": end of validity");
		auto authenticator = x.all("ContentAuthenticator");
		bool const want_authenticator = formulation >= 2;
		check_eq(authenticator.size(), size_t(want_authenticator), what + ": number of content authenticators");
		if (want_authenticator) {
			check_eq(authenticator[0].text, certs::thumbprint(leaf.pem()), what + ": content authenticator");
		}
		vector<string> thumbprints;
		for (auto const& i: x.at("AuthorizedDeviceInfo/DeviceList").all("CertificateThumbprint")) {
			thumbprints.push_back(i.text);
		}
		check(thumbprints == expected_devices(), what + ": devices are " + show(thumbprints));
		auto cn = certs::part(recipient.subject, NID_commonName);
		auto const dot = cn.find('.');
		check_eq(x.at("AuthorizedDeviceInfo/DeviceListDescription").text, dot == string::npos ? cn : cn.substr(dot + 1), what + ": description of devices");
		auto ids = x.at("KeyIdList").all("TypedKeyId");
		check_eq(ids.size(), keys.size(), what + ": number of IDs of keys");
		for (size_t i = 0; i < ids.size(); ++i) {
			check_eq(ids[i].at("KeyType").text, keys[i].type, what + ": type of key");
			check_eq(ids[i].at("KeyId").text, "urn:uuid:" + keys[i].id, what + ": ID of key");
			check_eq(
				ids[i].at("KeyType").attributes.at("scope"),
				string(keys[i].type == "MDEK" ? "http://www.dolby.com/cp850/2012/KDM#kdm-key-type" : "http://www.smpte-ra.org/430-1/2006/KDM#kdm-key-type"),
				what + ": scope of type of key"
				);
		}
		vector<string> flags;
		for (auto const& i: x.all("ForensicMarkFlagList")) {
			for (auto const& j: i.all("ForensicMarkFlag")) {
				flags.push_back(j.text);
			}
		}
		vector<string> want_flags;
		string const base = "http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-";
		if (no_picture_mark) {
			want_flags.push_back(base + "picture-disable");
		}
		if (no_audio_mark) {
			want_flags.push_back(base + "audio-disable" + (*no_audio_mark > 0 ? "-above-channel-" + std::to_string(*no_audio_mark) : ""));
		}
		check(flags == want_flags, what + ": marks are " + show(flags));

		auto const encrypted = root.at("AuthenticatedPrivate").all("EncryptedKey");
		check_eq(encrypted.size(), keys.size(), what + ": number of keys");
		auto const thumbprint = unbase64(certs::thumbprint(leaf.pem()));
		for (size_t i = 0; i < keys.size(); ++i) {
			auto const plain = own_decrypt(unbase64(encrypted[i].at("CipherData/CipherValue").text), recipient.key);
			string want(smpte_structure, smpte_structure + 16);
			want.append(thumbprint.begin(), thumbprint.end());
			auto b = binary(keys[i].cpl);
			want.append(b.begin(), b.end());
			want += keys[i].type;
			b = binary(keys[i].id);
			want.append(b.begin(), b.end());
			want += from.text(false, true) + to.text(false, true);
			want.append(keys[i].value.begin(), keys[i].value.end());
			check_eq(quote(plain), quote(want), what + ": what is encrypted for key " + std::to_string(i));
		}
	}

	void check_decrypted(dcp::DecryptedKDM const& d, string what) const
	{
		check_eq(d.annotation_text() ? *d.annotation_text() : "[none]", annotation, what + ": annotation");
		check_eq(d.content_title_text(), title, what + ": title");
		auto k = d.keys();
		check_eq(k.size(), keys.size(), what + ": number of keys");
		for (size_t i = 0; i < k.size(); ++i) {
			check_eq(k[i].type() ? *k[i].type() : "[none]", keys[i].type, what + ": type of key " + std::to_string(i));
			check_eq(k[i].id(), keys[i].id, what + ": ID of key " + std::to_string(i));
			check_eq(k[i].cpl_id(), keys[i].cpl, what + ": CPL of key " + std::to_string(i));
			check_eq(k[i].key().hex(), dcp::Key(keys[i].value.data()).hex(), what + ": key " + std::to_string(i));
			check(k[i].standard() == dcp::Standard::SMPTE, what + ": standard");
			check(
				k[i] == dcp::DecryptedKDMKey(keys[i].type, keys[i].id, dcp::Key(keys[i].value.data()), keys[i].cpl, dcp::Standard::SMPTE),
				what + ": key " + std::to_string(i) + " is not equal to what it was"
				);
		}
	}
};

static string key_text(int k)
{
	return fixed_keys[k].pem;
}

static void cannot_decrypt(dcp::EncryptedKDM const& e, int k, string what)
{
	try {
		dcp::DecryptedKDM d(e, key_text(k));
	} catch (dcp::KDMDecryptionError& e) {
		return;
	}
	fail(what + " decrypted the message");
}

static void round_trip(Src& s)
{
	Kumu::shim_seed(s.draw(0xffffffff));
	Message m;
	m.generate(s);
	auto signer = ordinary_signer(s, s.irange(1, 3));
	auto recipient = gen_recipient(s, true);
	s.note("recipient", certs::rfc2253(recipient.subject));
	s.nontrivial_if(m.keys.size() > 1);
	auto d = m.make(s);
	m.check_decrypted(d, "before encryption");
	auto e = m.encrypt(d, signer, recipient);
	m.check_encrypted(e, signer, recipient, "as made");
	auto const xml = e.as_xml();
	m.check_xml(xml, signer, recipient, e.id(), "as made");
	m.check_decrypted(dcp::DecryptedKDM(e, key_text(recipient.key)), "straight away");

	dcp::EncryptedKDM read(xml);
	m.check_encrypted(read, signer, recipient, "as read");
	check_eq(read.id(), e.id(), "ID");
	check_eq(read.issue_date(), e.issue_date(), "issue date");
	check_eq(read.as_xml(), xml, "written again after being read");
	check(read == e, "message which was read is not equal to the original");
	m.check_decrypted(dcp::DecryptedKDM(read, key_text(recipient.key)), "after being read");

	auto const file = s.scratch() + "/kdm.xml";
	read.as_xml(boost::filesystem::path(file));
	check_eq(media::read_file(file), xml, "contents of the file");

	int other = s.irange(0, certs::ordinary_keys - 2);
	other += other >= recipient.key;
	cannot_decrypt(read, other, "somebody else's key");

	/* Copies */
	dcp::EncryptedKDM copy(read);
	Message m2;
	m2.generate(s);
	auto recipient2 = gen_recipient(s, false);
	auto e2 = m2.encrypt(m2.make(s), signer, recipient2);
	check(!(e2 == e), "different messages are equal");
	e2 = copy;
	check(e2 == e, "assigned message is not equal to the original");
	auto& self = e2;
	e2 = self;
	check_eq(e2.as_xml(), xml, "message assigned to itself");

	/* Send it on to somebody else, with different options */
	auto signer3 = ordinary_signer(s, s.irange(1, 3));
	auto m3 = m;
	m3.devices.clear();
	m3.no_audio_mark = boost::none;
	m3.generate_options(s);
	auto recipient3 = gen_recipient(s, true);
	auto e3 = m3.encrypt(dcp::DecryptedKDM(copy, key_text(recipient.key)), signer3, recipient3);
	m3.check_encrypted(e3, signer3, recipient3, "sent on");
	m3.check_xml(e3.as_xml(), signer3, recipient3, e3.id(), "sent on");
	m3.check_decrypted(dcp::DecryptedKDM(e3, key_text(recipient3.key)), "sent on");
}

static Register r1("round_trip", 250, 3000, "there is more than one key", round_trip);

/** Messages from elsewhere */
static void foreign(Src& s)
{
	bool const interop = s.chance(40);
	Message m;
	m.generate(s);
	auto recipient = gen_recipient(s, true);
	if (interop) {
		s.label("Interop");
		/* These don't fit */
	} else {
		s.label("SMPTE");
	}
	int const odd = m.keys.size() > 1 && s.chance(30) ? s.irange(1, m.keys.size() - 1) : -1;
	auto odd_from = m.from;
	auto odd_to = m.to;
	if (odd >= 0) {
		int64_t const by = s.pick<int64_t>({ 1000, -1000, 60000, 86400000, -86400000LL * 365 });
		auto& which = s.boolean() ? odd_from : odd_to;
		which.set_clock(which.clock() + by);
	}
	s.note("odd one out", odd);
	s.nontrivial_if(m.keys.size() > 1);

	int const width = s.boolean() ? 64 : s.irange(1, 1000);
	bool const annotated = s.chance(80);
	string xml =
		"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
		"<DCinemaSecurityMessage xmlns=\"http://www.smpte-ra.org/schemas/430-3/2006/ETM\" xmlns:ds=\"http://www.w3.org/2000/09/xmldsig#\" xmlns:enc=\"http://www.w3.org/2001/04/xmlenc#\">"
		"<AuthenticatedPublic Id=\"ID_AuthenticatedPublic\">"
		"<MessageId>urn:uuid:" + full::uuid(s) + "</MessageId>"
		"<MessageType>http://www.smpte-ra.org/430-1/2006/KDM#kdm-key-type</MessageType>" +
		(annotated ? "<AnnotationText language=\"en\">" + model::escape(m.annotation) + "</AnnotationText>" : "") +
		"<IssueDate>2012-07-17T04:45:18+00:00</IssueDate>"
		"<Signer><ds:X509IssuerName>CN=x</ds:X509IssuerName><ds:X509SerialNumber>9</ds:X509SerialNumber></Signer>"
		"<RequiredExtensions><KDMRequiredExtensions xmlns=\"http://www.smpte-ra.org/schemas/430-1/2006/KDM\">"
		"<Recipient><X509IssuerSerial><ds:X509IssuerName>CN=y</ds:X509IssuerName><ds:X509SerialNumber>10</ds:X509SerialNumber></X509IssuerSerial><X509SubjectName>CN=z</X509SubjectName></Recipient>"
		"<CompositionPlaylistId>urn:uuid:" + m.keys[0].cpl + "</CompositionPlaylistId>"
		"<ContentTitleText>" + model::escape(m.title) + "</ContentTitleText>"
		"<ContentKeysNotValidBefore>" + m.from.text(false, true) + "</ContentKeysNotValidBefore>"
		"<ContentKeysNotValidAfter>" + m.to.text(false, true) + "</ContentKeysNotValidAfter>"
		"<AuthorizedDeviceInfo><DeviceListIdentifier>urn:uuid:" + full::uuid(s) + "</DeviceListIdentifier><DeviceList>";
	for (auto const& i: m.devices) {
		xml += "<CertificateThumbprint>" + i + "</CertificateThumbprint>";
	}
	xml += "</DeviceList></AuthorizedDeviceInfo><KeyIdList>";
	for (auto const& i: m.keys) {
		xml += "<TypedKeyId><KeyType>" + i.type + "</KeyType><KeyId>urn:uuid:" + i.id + "</KeyId></TypedKeyId>";
	}
	xml += "</KeyIdList>";
	string const base = "http://www.smpte-ra.org/430-1/2006/KDM#mrkflg-";
	if (m.no_audio_mark || m.no_picture_mark) {
		xml += "<ForensicMarkFlagList>";
		if (m.no_audio_mark) {
			xml += "<ForensicMarkFlag>" + base + "audio-disable" + (*m.no_audio_mark > 0 ? "-above-channel-" + std::to_string(*m.no_audio_mark) : "") + "</ForensicMarkFlag>";
		}
		if (m.no_picture_mark) {
			xml += "<ForensicMarkFlag>" + base + "picture-disable</ForensicMarkFlag>";
		}
		xml += "</ForensicMarkFlagList>";
	}
	xml += "</KDMRequiredExtensions></RequiredExtensions><NonCriticalExtensions/></AuthenticatedPublic><AuthenticatedPrivate Id=\"ID_AuthenticatedPrivate\">";
	for (size_t i = 0; i < m.keys.size(); ++i) {
		auto const& k = m.keys[i];
		string plain;
		if (interop) {
			/* Any structure ID */
			for (int j = 0; j < 16; ++j) {
				plain += static_cast<char>(s.draw(255));
			}
		} else {
			plain.assign(smpte_structure, smpte_structure + 16);
		}
		for (int j = 0; j < 20; ++j) {
			plain += static_cast<char>(s.draw(255));
		}
		auto b = binary(k.cpl);
		plain.append(b.begin(), b.end());
		if (!interop) {
			plain += k.type;
		}
		b = binary(k.id);
		plain.append(b.begin(), b.end());
		bool const is_odd = static_cast<int>(i) == odd;
		plain += (is_odd ? odd_from : m.from).text(false, true) + (is_odd ? odd_to : m.to).text(false, true);
		plain.append(k.value.begin(), k.value.end());
		auto const cipher = own_encrypt(plain, recipient.key);
		string lines;
		for (size_t j = 0; j < cipher.size(); j += width) {
			lines += (j ? "\n" : "") + cipher.substr(j, width);
		}
		xml += "<enc:EncryptedKey><enc:EncryptionMethod Algorithm=\"http://www.w3.org/2001/04/xmlenc#rsa-oaep-mgf1p\"/><enc:CipherData><enc:CipherValue>" + lines + "</enc:CipherValue></enc:CipherData></enc:EncryptedKey>";
	}
	xml += "</AuthenticatedPrivate><ds:Signature><ds:SignedInfo/><ds:SignatureValue>AAAA</ds:SignatureValue><ds:KeyInfo/></ds:Signature></DCinemaSecurityMessage>\n";

	dcp::EncryptedKDM e(xml);
	check_eq(e.trusted_devices().size(), m.devices.size(), "number of trusted devices");
	check(e.trusted_devices() == m.devices, "trusted devices are wrong");
	check_eq(static_cast<bool>(e.annotation_text()), annotated, "there is an annotation");
	check_eq(e.content_title_text(), m.title, "title");
	check_eq(e.issue_date(), string("2012-07-17T04:45:18+00:00"), "issue date");
	check_eq(e.recipient_x509_subject_name(), string("CN=z"), "recipient");

	/* What was read is written again */
	auto const again = tree::read(e.as_xml());
	std::set<string> flags;
	for (auto const& i: again.at("AuthenticatedPublic/RequiredExtensions/KDMRequiredExtensions").all("ForensicMarkFlagList")) {
		for (auto const& j: i.all("ForensicMarkFlag")) {
			flags.insert(j.text.substr(base.size()));
		}
	}
	std::set<string> want;
	if (m.no_picture_mark) {
		want.insert("picture-disable");
	}
	if (m.no_audio_mark) {
		want.insert("audio-disable" + (*m.no_audio_mark > 0 ? "-above-channel-" + std::to_string(*m.no_audio_mark) : ""));
	}
	check(flags == want, "marks were not kept");

	if (odd >= 0) {
		s.label("inconsistent");
		try {
			dcp::DecryptedKDM d(e, key_text(recipient.key));
		} catch (dcp::InconsistentValidityPeriodError& e) {
			return;
		}
		fail("keys which are valid at different times were accepted");
	}
	dcp::DecryptedKDM d(e, key_text(recipient.key));
	if (!interop && annotated) {
		m.check_decrypted(d, "decrypted");
	}
	auto k = d.keys();
	check_eq(k.size(), m.keys.size(), "number of keys");
	for (size_t i = 0; i < k.size(); ++i) {
		check_eq(k[i].type() ? *k[i].type() : "[none]", interop ? string("[none]") : m.keys[i].type, "type of key");
		check_eq(k[i].id(), m.keys[i].id, "ID of key");
		check_eq(k[i].cpl_id(), m.keys[i].cpl, "CPL of key");
		check_eq(k[i].key().hex(), dcp::Key(m.keys[i].value.data()).hex(), "key");
		check(k[i].standard() == (interop ? dcp::Standard::INTEROP : dcp::Standard::SMPTE), "standard");
	}
	check_eq(d.issue_date(), string("2012-07-17T04:45:18+00:00"), "decrypted issue date");
	int other = s.irange(0, certs::ordinary_keys - 2);
	other += other >= recipient.key;
	cannot_decrypt(e, other, "somebody else's key");
}

static Register r2("foreign", 3000, 50000, "there is more than one key", foreign);

/** A message can't outlast the certificates which it is signed by */
static void dates(Src& s)
{
	int const n = s.irange(1, 3);
	auto keys = certs::shuffled(s, certs::ordinary_keys);
	auto specs = certs::chain(n, "signer", keys);
	auto gen = [&s]() {
		auto t = gen_stamp(s, 2000, 2045);
		t.ms = 0;
		t.offset = 0;
		return t;
	};
	Stamp const from = gen();
	Stamp to = from;
	to.set_clock(from.clock() + s.range(10, 3000) * 86400000LL + s.range(0, 86399) * 1000);
	for (auto& i: specs) {
		i.from = from;
		i.to = to;
		i.from.set_clock(from.clock() - s.range(0, 40) * 86400000LL / 8);
		i.to.set_clock(to.clock() + s.range(0, 40) * 86400000LL / 8);
	}
	Message m;
	m.generate(s);
	auto near = [&](Stamp t, int direction) {
		int64_t const by = s.weighted({ 60, 40 }) ? s.range(-3, 3) * 86400000LL / 2 : s.range(-2, 4) * 86400000LL;
		t.set_clock(t.clock() + direction * by);
		if (s.chance(30)) {
			t.hour = s.pick({ 0, 23 });
			t.minute = s.pick({ 0, 59 });
		}
		if (s.chance(20)) {
			/* Different by a year or a month but not in other respects */
			t.year += s.irange(-1, 1);
			t.month = std::min(12, std::max(1, t.month + s.irange(-1, 1)));
			t.day = std::min(t.day, month_length(t.year, t.month));
		}
		t.offset = gen_offset(s);
		return t;
	};
	m.from = near(from, 1);
	m.to = near(to, -1);
	vector<string> certificates;
	bool early = false;
	bool late = false;
	for (auto const& i: specs) {
		certificates.push_back(i.from.text(false, false) + "-" + i.to.text(false, false));
		early = early || m.from.date() <= i.from.date();
		late = late || m.to.date() >= i.to.date();
	}
	s.note("certificates", certificates);
	s.note("message", m.from.text(false, true) + "-" + m.to.text(false, true));
	s.label(early ? (late ? "both" : "early") : (late ? "late" : "neither"));
	auto last_day = [](Stamp const& a, Stamp const& b) { return std::abs(days_from_civil(a.year, a.month, a.day) - days_from_civil(b.year, b.month, b.day)) <= 1; };
	for (auto const& i: specs) {
		s.nontrivial_if(last_day(i.from, m.from) || last_day(i.to, m.to));
	}
	Signer signer(specs);
	auto recipient = gen_recipient(s, false);
	auto d = m.make(s);
	bool refused = false;
	try {
		m.encrypt(d, signer, recipient);
	} catch (dcp::BadKDMDateError& e) {
		refused = true;
		if (early != late) {
			check_eq(e.starts_too_early(), early, "error says that the message starts too early");
		}
	}
	check_eq(refused, early || late, "message was refused");
}

static Register r3("dates", 700, 10000, "the message starts or finishes within a day of where a certificate does", dates);

/** Messages for the assets of a CPL */
static void for_cpl(Src& s)
{
	auto c = model::cpl(s);
	auto const file = s.scratch() + "/cpl.xml";
	std::ofstream(file) << c.xml();
	auto cpl = make_shared<dcp::CPL>(file);
	auto const key = sixteen(s);
	auto const from = gen_when(s);
	auto const to = gen_when(s);
	auto const annotation = full::text(s, 1, 5);
	auto const title = full::text(s, 1, 5);
	std::multiset<string> want_keys;
	string const hex = dcp::Key(key.data()).hex();
	int unlocked = 0;
	auto list = [](std::multiset<string> const& x) { return vector<string>(x.begin(), x.end()); };
	for (auto const& i: c.reels) {
		for (auto const& j: i.assets) {
			string type;
			switch (j.kind) {
			case model::MONO:
			case model::STEREO:
				type = "MDIK";
				break;
			case model::SOUND:
				type = "MDAK";
				break;
			case model::SUBTITLE:
			case model::CAPTION:
			case model::CLOSED_SUBTITLE:
			case model::CLOSED_CAPTION:
				type = c.standard == dcp::Standard::SMPTE ? "MDSK" : "";
				break;
			case model::ATMOS:
				type = "MDEK";
				break;
			case model::MARKERS:
				break;
			}
			if (!type.empty()) {
				if (j.key) {
					want_keys.insert(type + " " + *j.key + " " + hex);
				} else {
					++unlocked;
				}
			}
		}
	}
	s.note("cpl", c.id);
	s.note("keys", list(want_keys));
	s.note("unlocked", unlocked);
	s.nontrivial_if(want_keys.size() > 1);
	bool refused = false;
	try {
		dcp::DecryptedKDM d(cpl, dcp::Key(key.data()), from.make(1), to.make(1), annotation, title, "y");
		std::multiset<string> got;
		for (auto const& i: d.keys()) {
			check_eq(i.cpl_id(), c.id, "CPL");
			got.insert(i.type().get_value_or("[none]") + " " + i.id() + " " + i.key().hex());
		}
		check_eq(show(list(got)), show(list(want_keys)), "keys");
		check_eq(d.annotation_text().get_value_or("[none]"), annotation, "annotation");
		check_eq(d.content_title_text(), title, "title");
		check_eq(d.issue_date(), string("y"), "issue date");
	} catch (dcp::NotEncryptedError& e) {
		refused = true;
	}
	check_eq(refused, want_keys.empty(), "refused as nothing is encrypted");

	/* With different keys */
	std::map<shared_ptr<const dcp::ReelFileAsset>, dcp::Key> keys;
	std::map<string, string> want;
	for (auto i: cpl->reel_file_assets()) {
		if (i->key_type() && i->key_id() && s.chance(80)) {
			auto k = sixteen(s);
			keys.insert(std::make_pair(i, dcp::Key(k.data())));
			want[*i->key_id()] = *i->key_type() + " " + dcp::Key(k.data()).hex();
		}
	}
	dcp::DecryptedKDM d(cpl->id(), keys, from.make(1), to.make(1), annotation, title, "x");
	check_eq(d.keys().size(), keys.size(), "number of keys");
	for (auto const& i: d.keys()) {
		check_eq(i.cpl_id(), cpl->id(), "CPL");
		if (want.size() == keys.size()) {
			check_eq(i.type().get_value_or("[none]") + " " + i.key().hex(), want[i.id()], "key");
		}
	}
	check_eq(d.issue_date(), string("x"), "issue date");
}

static Register r4("for_cpl", 3000, 60000, "there is more than one key", for_cpl);

/** Damaged messages */
static void damaged(Src& s)
{
	static string xml;
	static Spec recipient;
	if (xml.empty()) {
		auto keys = vector<int>{ 0, 1, 2 };
		auto specs = certs::chain(3, "signer", keys);
		Signer signer(specs);
		recipient = certs::ordinary(1, "recipient", false, 4, -1, {});
		dcp::DecryptedKDM d(certs::stamp(2020, 1, 1).make(1), certs::stamp(2021, 1, 1).make(1), "a", "b", "");
		d.add_key(string("MDIK"), "11111111-1111-4111-8111-111111111111", dcp::Key(16), "21111111-1111-4111-8111-111111111111", dcp::Standard::SMPTE);
		d.add_key(string("MDAK"), "31111111-1111-4111-8111-111111111111", dcp::Key(16), "21111111-1111-4111-8111-111111111111", dcp::Standard::SMPTE);
		xml = d.encrypt(signer.chain, dcp::Certificate(recipient.pem()), {}, dcp::Formulation::DCI_ANY, true, 3).as_xml();
	}
	auto x = xml;
	bool must = false;
	auto remove = [&](string name) {
		auto const a = x.find("<" + name);
		auto const close = "</" + name + ">";
		auto const b = x.find(close, a);
		x = x.substr(0, a) + x.substr(b + close.size());
	};
	switch (s.weighted({ 35, 20, 25, 20 })) {
	case 0:
	{
		auto const name = s.pick<string>({
			"AuthenticatedPublic", "AuthenticatedPrivate", "ds:Signature", "MessageId", "IssueDate", "Signer", "RequiredExtensions",
			"KDMRequiredExtensions", "Recipient", "CompositionPlaylistId", "ContentTitleText", "ContentKeysNotValidBefore",
			"ContentKeysNotValidAfter", "KeyIdList", "X509SubjectName", "KeyType", "KeyId", "enc:CipherData", "enc:CipherValue", "ds:SignedInfo",
			"ds:SignatureValue", "ds:KeyInfo"
		});
		s.note("removed", name);
		must = true;
		remove(name);
		break;
	}
	case 1:
	{
		auto const name = s.pick<string>({ "MessageId", "CompositionPlaylistId", "ContentKeysNotValidBefore", "ContentKeysNotValidAfter", "KeyId" });
		auto const a = x.find("<" + name + ">") + name.size() + 2;
		auto const b = x.find("</" + name, a);
		auto const bad = s.pick<string>({ "", "foo", "2020", "urn:uuid", "2020-01-01 00:00:00" });
		s.note("changed", name);
		s.note("to", bad);
		must = true;
		x = x.substr(0, a) + bad + x.substr(b);
		break;
	}
	case 2:
	{
		/* Keys that are not right */
		auto const a = x.find("<enc:CipherValue>") + 17;
		auto const b = x.find("</enc:CipherValue", a);
		auto cipher = x.substr(a, b - a);
		switch (s.draw(4)) {
		case 0:
			cipher = "";
			break;
		case 1:
			cipher = s.str(string("AB/+= \n!x"), 0, 400);
			break;
		case 2:
		{
			auto at = s.range(0, 300);
			while (cipher[at] == '\n') {
				++at;
			}
			cipher[at] = cipher[at] == 'A' ? 'B' : 'A';
			break;
		}
		case 3:
			cipher = cipher.substr(0, s.range(0, 330));
			break;
		default:
		{
			/* The right key, but something else is encrypted */
			auto const length = s.edgy(0, 200, { 133, 134, 135, 137, 138, 139 });
			string plain;
			for (int i = 0; i < length; ++i) {
				plain += static_cast<char>(s.draw(255));
			}
			if (s.boolean() && length >= 16) {
				std::copy(smpte_structure, smpte_structure + 16, plain.begin());
			}
			cipher = own_encrypt(plain, recipient.key);
			break;
		}
		}
		s.note("cipher", cipher);
		x = x.substr(0, a) + cipher + x.substr(b);
		try {
			dcp::EncryptedKDM e(x);
			dcp::DecryptedKDM d(e, key_text(recipient.key));
		} catch (std::exception& e) {
			s.nontrivial();
			return;
		}
		fail("something which is not a key was decrypted");
	}
	default:
		/* Not XML, or anything */
		if (s.boolean()) {
			must = true;
			x = x.substr(0, s.range(0, x.size() - 3));
			s.note("length", x.size());
		} else {
			for (int n = 0; s.more(n, 1, 10, 60); ++n) {
				auto at = s.range(0, x.size() - 1);
				x[at] = s.pick({ 'x', '<', '>', '&', '/', '0', ' ', '\0', '\xff' });
				s.note("at", at);
			}
		}
	}
	s.nontrivial_if(must);
	try {
		dcp::EncryptedKDM e(x);
		dcp::DecryptedKDM d(e, key_text(recipient.key));
	} catch (std::exception& e) {
		return;
	}
	check(!must, "damaged message was accepted");
}

static Register r5("damaged", 4000, 100000, "the damage must be noticed", damaged);

static void bad_private_key(Src& s)
{
	auto signer = ordinary_signer(s, 1);
	auto recipient = gen_recipient(s, false);
	Message m;
	m.generate(s);
	auto e = m.encrypt(m.make(s), signer, recipient);
	auto k = key_text(recipient.key);
	switch (s.draw(3)) {
	case 0:
		k = s.pick<string>({ "", "foo" });
		break;
	case 1:
		k = k.substr(0, s.range(0, k.size() - 40));
		break;
	case 2:
		boost::replace_first(k, "BEGIN", "BEGAN");
		break;
	default:
		k = recipient.pem();
	}
	s.note("key", k);
	s.nontrivial();
	try {
		dcp::DecryptedKDM d(e, k);
	} catch (std::exception& e) {
		return;
	}
	fail("something which is not a key decrypted the message");
}

static Register r6("bad_private_key", 200, 4000, "every case", bad_private_key);

static void keys(Src& s)
{
	int const n = s.edgy(1, 32, { 16 });
	vector<uint8_t> v(n);
	string hex;
	for (auto& i: v) {
		i = s.draw(255);
		char b[3];
		snprintf(b, sizeof(b), "%02x", i);
		hex += b;
	}
	s.note("key", hex);
	s.nontrivial_if(n != 16);
	dcp::Key a(v.data(), n);
	check_eq(a.hex(), hex, "key as hexadecimal");
	check_eq(a.length(), n, "length of key");
	auto upper = hex;
	if (s.chance(30)) {
		std::transform(upper.begin(), upper.end(), upper.begin(), ::toupper);
	}
	dcp::Key b(upper);
	check(a == b && !(a != b), "key made from hexadecimal is different");
	check_eq(b.hex(), hex, "key made from hexadecimal");
	dcp::Key c(s.irange(1, 32));
	dcp::Key copy(a);
	c = a;
	check(c == a && copy == a, "copied key is different");
	auto& self = c;
	c = self;
	check(c == a, "key assigned to itself is different");
	v[s.irange(0, n - 1)] ^= 1 << s.irange(0, 7);
	dcp::Key d(v.data(), n);
	check(d != a && !(d == a), "different keys are equal");
	v.push_back(s.draw(255));
	dcp::Key e(v.data(), n + 1);
	check(e != d && d != e, "keys of different lengths are equal");
	check(copy == a, "copied key changed");
	dcp::Key f, g;
	check(f != g, "two new keys are the same");
	check_eq(f.length(), 16, "length of new key");
}

static Register r7("keys", 5000, 100000, "the key is not 16 bytes long", keys);
