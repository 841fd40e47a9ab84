/* Signatures on playlists, packing lists and key delivery messages */

#include "certs.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "cplmodel.h"
#include "media.h"
#include "pkl.h"
#include "xmltree.h"
#include <libxml++/libxml++.h>
#include <libxml/parser.h>
#include <xmlsec/xmlsec.h>
#include <xmlsec/xmltree.h>
#include <xmlsec/xmldsig.h>
#include <xmlsec/crypto.h>
#include <xmlsec/errors.h>
#include <fstream>

using namespace pbt;
using certs::Spec;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

static full::Setup setup;

struct Doc
{
	explicit Doc(string const& xml)
		: doc(xmlReadMemory(xml.data(), static_cast<int>(xml.size()), "noname.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET))
	{
		if (!doc) {
			throw std::runtime_error("XML is not well-formed");
		}
	}

	~Doc()
	{
		xmlFreeDoc(doc);
	}

	Doc(Doc const&) = delete;
	Doc& operator=(Doc const&) = delete;

	xmlNode* root() const
	{
		return xmlDocGetRootElement(doc);
	}

	xmlDoc* doc;
};

static bool is(xmlNode* n, char const* name)
{
	return n->type == XML_ELEMENT_NODE && !strcmp(reinterpret_cast<char const*>(n->name), name);
}

static void collect(xmlNode* n, vector<xmlNode*>& all)
{
	all.push_back(n);
	for (auto c = n->children; c; c = c->next) {
		if (c->type == XML_ELEMENT_NODE) {
			collect(c, all);
		}
	}
}

static xmlNode* find(xmlNode* n, char const* name)
{
	vector<xmlNode*> all;
	collect(n, all);
	for (auto i: all) {
		if (is(i, name)) {
			return i;
		}
	}
	return nullptr;
}

static void no_errors(char const*, int, char const*, char const*, char const*, int, char const*)
{

}

/** @return true if xml's signature was made by the key in the certificate */
static bool verifies(string const& xml, string const& certificate)
{
	xmlSecErrorsSetCallback(no_errors);
	Doc doc(xml);
	/* Give any Id attributes their meaning */
	vector<xmlNode*> all;
	collect(doc.root(), all);
	for (auto i: all) {
		for (auto a = i->properties; a; a = a->next) {
			if (!strcmp(reinterpret_cast<char const*>(a->name), "Id")) {
				auto v = xmlNodeListGetString(doc.doc, a->children, 1);
				if (v) {
					xmlAddID(nullptr, doc.doc, v, a);
				}
				xmlFree(v);
			}
		}
	}
	auto signature = find(doc.root(), "Signature");
	if (!signature) {
		return false;
	}
	auto context = xmlSecDSigCtxCreate(nullptr);
	context->signKey = xmlSecCryptoAppKeyLoadMemory(
		reinterpret_cast<xmlSecByte const*>(certificate.data()), certificate.size(), xmlSecKeyDataFormatCertPem, nullptr, nullptr, nullptr
		);
	if (!context->signKey) {
		throw std::runtime_error("could not load certificate");
	}
	bool const ok = xmlSecDSigCtxVerify(context, signature) >= 0 && context->status == xmlSecDSigStatusSucceeded;
	xmlSecDSigCtxDestroy(context);
	return ok;
}

static string dump(Doc const& d)
{
	xmlChar* out;
	int size;
	xmlDocDumpMemoryEnc(d.doc, &out, &size, "UTF-8");
	string r(reinterpret_cast<char*>(out), size);
	xmlFree(out);
	return r;
}

static bool inside(xmlNode* n, char const* name)
{
	for (; n && n->type == XML_ELEMENT_NODE; n = n->parent) {
		if (is(n, name)) {
			return true;
		}
	}
	return false;
}

/** @return xml with something that is signed changed */
static string tamper(Src& s, string const& xml, bool kdm)
{
	Doc doc(xml);
	vector<xmlNode*> all;
	collect(doc.root(), all);
	vector<xmlNode*> covered;
	for (auto i: all) {
		bool const signature = inside(i, "Signature");
		if (signature) {
			if (is(i, "SignatureValue") || is(i, "DigestValue")) {
				covered.push_back(i);
			}
		} else if (i != doc.root() && (!kdm || inside(i, "AuthenticatedPublic") || inside(i, "AuthenticatedPrivate"))) {
			covered.push_back(i);
		}
	}
	auto n = s.pick(covered);
	s.note("in", string(reinterpret_cast<char const*>(n->name)));
	auto text = [](xmlNode* n) -> xmlNode* {
		for (auto c = n->children; c; c = c->next) {
			if (c->type == XML_TEXT_NODE) {
				return c;
			}
		}
		return nullptr;
	};
	if (inside(n, "Signature")) {
		s.label("signature");
		/* Change a character which is not at the end, where there are spare bits */
		auto t = text(n);
		string v = reinterpret_cast<char const*>(t->content);
		auto at = s.range(0, v.size() - 6);
		while (isspace(static_cast<unsigned char>(v[at]))) {
			++at;
		}
		v[at] = v[at] == 'A' ? 'B' : 'A';
		xmlNodeSetContent(t, BAD_CAST v.c_str());
		return dump(doc);
	}
	switch (s.draw(6)) {
	case 0:
		if (n->properties) {
			s.label("attribute changed");
			auto a = n->properties;
			auto v = xmlNodeListGetString(doc.doc, a->children, 1);
			string value = v ? reinterpret_cast<char*>(v) : "";
			xmlFree(v);
			if (!value.empty() && s.boolean()) {
				value.pop_back();
				while (!value.empty() && (value.back() & 0xc0) == 0x80) {
					value.pop_back();
				}
				if (!value.empty() && (value.back() & 0x80)) {
					value.pop_back();
				}
			} else {
				value += "x";
			}
			xmlSetProp(n, a->name, BAD_CAST value.c_str());
			break;
		}
		/* fall through */
	case 1:
		s.label("attribute added");
		xmlSetProp(n, BAD_CAST "extra", BAD_CAST "1");
		break;
	case 2:
	{
		auto t = text(n);
		if (t) {
			s.label("text changed");
			string v = reinterpret_cast<char const*>(t->content);
			auto at = s.range(0, v.size() - 1);
			while (at > 0 && (v[at] & 0x80)) {
				--at;
			}
			if (v[at] & 0x80) {
				v += "x";
			} else {
				v[at] = v[at] == 'x' ? 'y' : 'x';
			}
			auto fresh = xmlNewText(BAD_CAST v.c_str());
			xmlReplaceNode(t, fresh);
			xmlFreeNode(t);
			break;
		}
	}
		/* fall through */
	case 3:
		s.label("text added");
		xmlAddChild(n, xmlNewText(BAD_CAST s.pick<string>({ " ", "x", "\n" }).c_str()));
		break;
	case 4:
		s.label("element removed");
		xmlUnlinkNode(n);
		xmlFreeNode(n);
		break;
	case 5:
		s.label("element renamed");
		xmlNodeSetName(n, BAD_CAST (string(reinterpret_cast<char const*>(n->name)) + "x").c_str());
		break;
	default:
		s.label("element added");
		xmlNewChild(n, nullptr, BAD_CAST "Extra", nullptr);
	}
	return dump(doc);
}

static vector<Spec> signer(Src& s, shared_ptr<dcp::CertificateChain>& chain)
{
	int const n = s.irange(1, 3);
	auto specs = certs::chain(n, "signer", certs::shuffled(s, certs::ordinary_keys));
	for (auto& i: specs) {
		i.serial = std::to_string(s.range(1, 1000000));
	}
	chain = make_shared<dcp::CertificateChain>();
	for (auto i: certs::shuffled(s, n)) {
		chain->add(dcp::Certificate(specs[i].pem()));
	}
	chain->set_key(fixed_keys[specs.back().key].pem);
	return specs;
}

static string squash(string s)
{
	string r;
	for (auto c: s) {
		if (!isspace(static_cast<unsigned char>(c))) {
			r += c;
		}
	}
	return r;
}

/** Check the parts of a signature that say who made it and how */
static void check_details(tree::Node const& signature, vector<Spec> const& specs, string algorithm)
{
	check_eq(signature.ns, string("http://www.w3.org/2000/09/xmldsig#"), "namespace of signature");
	check_eq(signature.at("SignedInfo/SignatureMethod").attributes.at("Algorithm"), algorithm, "algorithm of signature");
	auto data = signature.at("KeyInfo").all("X509Data");
	check_eq(data.size(), specs.size(), "number of certificates with the signature");
	for (size_t i = 0; i < data.size(); ++i) {
		auto const& c = specs[specs.size() - 1 - i];
		check_eq(data[i].at("X509IssuerSerial/X509IssuerName").text, certs::rfc2253(c.issuer), "issuer of certificate");
		check_eq(data[i].at("X509IssuerSerial/X509SerialNumber").text, c.serial, "serial number of certificate");
		auto d = certs::der(c.pem());
		check_eq(squash(data[i].at("X509Certificate").text), certs::base64(d.data(), d.size()), "certificate");
	}
}

static string sign_anything(Src& s, shared_ptr<dcp::CertificateChain> chain, dcp::Standard standard)
{
	/* Any old document */
	xmlpp::Document doc;
	auto root = doc.create_root_node("Thing", standard == dcp::Standard::SMPTE ? "http://www.smpte-ra.org/thing" : "");
	for (int n = 0; s.more(n, 1, 5, 70); ++n) {
		auto c = root->add_child("Child");
		c->add_child_text(full::text(s, 0, 8));
		if (s.boolean()) {
			c->set_attribute("a", full::text(s, 0, 4));
		}
		if (s.chance(30)) {
			c->add_child("Grandchild")->add_child_text(full::text(s, 1, 4));
		}
	}
	chain->sign(root, standard);
	return doc.write_to_string("UTF-8");
}

static void enveloped(Src& s)
{
	shared_ptr<dcp::CertificateChain> chain;
	auto specs = signer(s, chain);
	dcp::Standard standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	string xml;
	switch (s.draw(2)) {
	case 0:
		s.label("anything");
		xml = sign_anything(s, chain, standard);
		break;
	case 1:
	{
		s.label("CPL");
		auto const dir = s.scratch();
		auto m = model::cpl(s);
		standard = m.standard;
		std::ofstream(dir + "/a.xml") << m.xml();
		dcp::CPL cpl(dir + "/a.xml");
		cpl.write_xml(dir + "/b.xml", chain);
		xml = media::read_file(dir + "/b.xml");
		break;
	}
	default:
	{
		s.label("PKL");
		auto const file = s.scratch() + "/pkl.xml";
		dcp::PKL pkl(standard, s.boolean() ? boost::optional<string>(full::text(s, 1, 6)) : boost::none, "2020-01-01T00:00:00+00:00", full::text(s, 1, 6), full::text(s, 1, 6));
		for (int n = 0; s.more(n, 0, 4, 70); ++n) {
			pkl.add_asset(full::uuid(s), full::text(s, 1, 6), "aGFzaA==", s.range(1, 1000000), "text/xml", full::text(s, 1, 5));
		}
		pkl.write_xml(file, chain);
		xml = media::read_file(file);
	}
	}
	s.note("certificates", specs.size());
	s.note("standard", standard == dcp::Standard::SMPTE ? "SMPTE" : "Interop");
	s.note("xml", xml.substr(0, xml.find("Signature>")));

	auto const leaf = specs.back().pem();
	check(verifies(xml, leaf), "signature does not verify");
	auto const root = tree::read(xml);
	check_details(
		root.at("Signature"), specs,
		standard == dcp::Standard::SMPTE ? "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256" : "http://www.w3.org/2000/09/xmldsig#rsa-sha1"
		);
	check_eq(root.at("Signer/X509Data/X509IssuerSerial/X509IssuerName").text, certs::rfc2253(specs.back().issuer), "issuer of signer");
	check_eq(root.at("Signer/X509Data/X509IssuerSerial/X509SerialNumber").text, specs.back().serial, "serial number of signer");
	check_eq(root.at("Signer/X509Data/X509SubjectName").text, certs::rfc2253(specs.back().subject), "signer");

	for (int i = 0; i < 6; ++i) {
		check(!verifies(tamper(s, xml, false), leaf), "signature verifies when something has been changed");
	}
	if (specs.size() > 1) {
		check(!verifies(xml, specs[specs.size() - 2].pem()), "signature verifies with the wrong certificate");
	}
	s.nontrivial_if(specs.size() > 1);
}

static Register r1("enveloped", 500, 8000, "there is more than one certificate", enveloped);

static void kdm(Src& s)
{
	Kumu::shim_seed(s.draw(0xffffffff));
	shared_ptr<dcp::CertificateChain> chain;
	auto specs = signer(s, chain);
	auto recipient = certs::ordinary(s.irange(0, 9), "recipient", false, s.irange(0, 9), -1, {});
	dcp::DecryptedKDM d(certs::stamp(2020, 1, 1).make(1), certs::stamp(2021, 1, 1).make(1), full::text(s, 1, 6), full::text(s, 1, 6), "");
	auto const cpl = full::uuid(s);
	for (int n = 0; s.more(n, 1, 4, 60); ++n) {
		d.add_key(s.pick<string>({ "MDIK", "MDAK", "MDSK", "MDEK" }), full::uuid(s), dcp::Key(16), cpl, dcp::Standard::SMPTE);
	}
	auto const formulation = s.pick({
		dcp::Formulation::MODIFIED_TRANSITIONAL_1, dcp::Formulation::MULTIPLE_MODIFIED_TRANSITIONAL_1, dcp::Formulation::DCI_ANY, dcp::Formulation::DCI_SPECIFIC
	});
	bool const picture = s.boolean();
	boost::optional<int> audio;
	if (s.boolean()) {
		audio = s.irange(0, 12);
	}
	auto e = d.encrypt(chain, dcp::Certificate(recipient.pem()), { "AAAAAAAAAAAAAAAAAAAAAAAAAAA=" }, formulation, picture, audio);
	auto const xml = e.as_xml();
	s.note("formulation", dcp::formulation_to_string(formulation));
	s.note("keys", d.keys().size());
	s.note("certificates", specs.size());
	s.note("cpl", cpl);
	auto const leaf = specs.back().pem();
	check(verifies(xml, leaf), "signature does not verify");
	check_details(tree::read(xml).at("Signature"), specs, "http://www.w3.org/2001/04/xmldsig-more#rsa-sha256");

	dcp::EncryptedKDM read(xml);
	check(verifies(read.as_xml(), leaf), "signature does not verify after the message was read and written");
	for (int i = 0; i < 6; ++i) {
		check(!verifies(tamper(s, xml, true), leaf), "signature verifies when something has been changed");
	}
	if (specs.size() > 1) {
		check(!verifies(xml, specs[specs.size() - 2].pem()), "signature verifies with the wrong certificate");
	}
	s.nontrivial_if(specs.size() > 1);
}

static Register r2("kdm", 500, 6000, "there is more than one certificate", kdm);
