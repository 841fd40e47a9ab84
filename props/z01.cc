/* Z01: nothing which is read from a file can crash the program */

#include "written.h"
#include "certificate.h"
#include "certificate_chain.h"
#include "decrypted_kdm.h"
#include "encrypted_kdm.h"
#include "verify.h"
#include "verify_report.h"
#include "text_formatter.h"

using pbt::fail;
using pbt::Register;
using namespace written;

static full::Setup setup;

namespace {

/** Split XML into tags and what's between them */
vector<string> tokens(string const& x)
{
	vector<string> t;
	size_t i = 0;
	while (i < x.size()) {
		size_t j;
		if (x[i] == '<') {
			j = x.find('>', i);
			j = j == string::npos ? x.size() : j + 1;
		} else {
			j = x.find('<', i);
			j = j == string::npos ? x.size() : j;
		}
		t.push_back(x.substr(i, j - i));
		i = j;
	}
	return t;
}

string tag_name(string const& t)
{
	return t.substr(1, t.find_first_of(" \t\n/>", 1) - 1);
}

bool opens(string const& t)
{
	return t.size() > 2 && t[0] == '<' && t[1] != '/' && t[1] != '?' && t[1] != '!';
}

/** @return index of the token after the end of the element which is opened at i */
size_t finish(vector<string> const& t, size_t i)
{
	if (t[i][t[i].size() - 2] == '/') {
		return i + 1;
	}
	int depth = 0;
	for (size_t j = i; j < t.size(); ++j) {
		if (opens(t[j]) && t[j][t[j].size() - 2] != '/') {
			++depth;
		} else if (t[j].compare(0, 2, "</") == 0) {
			--depth;
			if (depth == 0) {
				return j + 1;
			}
		}
	}
	return t.size();
}

string odd_value(Src& s)
{
	return s.pick<string>({
		"", " ", "0", "-1", "1", "x", "true", "false", "24 1", "24 0", "0 0", "0 1", "1 2 3", "24", "-24 -1", "99999999999999999999", "2147483647", "-2147483648", "2147483648",
		"9223372036854775807", "1e308", "nan", "inf", "0x10", "urn:uuid:", "urn:uuid", "urn:", "urn:uuid:x", "urn:uuid:00000000-0000-0000-0000-000000000000", "00:00:00:00", "00:00:00:000",
		"00:00:00.5", "99:99:99:99", ":::", "1:2", "00:00:00:00:00", "2020-01-02T03:04:05+00:00", "2020-13-45T99:99:99+99:99", "2020", "T", "FF", "FFFFFFFF", "GGGGGGGG", "center", "bottom", "rtl",
		"\xc3\xa9", "&#10;", "&#x10FFFF;", "&amp;", "a.b.c", "../../x", "/", "51/L,R,C,LFE,Ls,Rs", "/", "71/", "SG/", "en-US", "en-", "-", "zz-ZZ-zzzz", "#", "CN=,O=,OU=", "==", "AAAA", "%1", "{}", "%s%n",
		"\n", "border", "none", "NONE", "Policy", "http://www.smpte-ra.org/schemas/429-7/2006/CPL", "L 1998 1080", "1998 1080", "1.85", "0 0 0 0"
		}) + (s.chance(2) ? string(5000, 'x') : "");
}

/** Change some XML, mostly to something which is still XML */
string change(Src& s, string const& x, vector<string> const& others)
{
	auto t = tokens(x);
	for (int n = 0; s.more(n, 1, 4, 45); ++n) {
		vector<size_t> open;
		for (size_t i = 0; i < t.size(); ++i) {
			if (opens(t[i])) {
				open.push_back(i);
			}
		}
		if (open.empty()) {
			break;
		}
		auto const i = s.pick(open);
		auto const j = finish(t, i);
		auto const name = tag_name(t[i]);
		switch (s.weighted({ 25, 15, 35, 10, 15, 5, 4, 3, 3 })) {
		case 0:
			s.note("without", name);
			t.erase(t.begin() + i, t.begin() + j);
			break;
		case 1: {
			s.note("twice", name);
			vector<string> const c(t.begin() + i, t.begin() + j);
			t.insert(t.begin() + j, c.begin(), c.end());
			break;
		}
		case 2: {
			auto const v = odd_value(s);
			s.note("value of " + name, v.substr(0, 60));
			if (j > i + 1) {
				t.erase(t.begin() + i + 1, t.begin() + j - 1);
				t.insert(t.begin() + i + 1, v);
			}
			break;
		}
		case 3:
			/* Something from another place, or another document */
			{
				auto const o = others.empty() || s.boolean() ? t : tokens(s.pick(others));
				vector<size_t> from;
				for (size_t k = 0; k < o.size(); ++k) {
					if (opens(o[k]) && finish(o, k) - k < 60) {
						from.push_back(k);
					}
				}
				if (!from.empty()) {
					auto const k = s.pick(from);
					s.note("moved", tag_name(o[k]) + " to before " + name);
					vector<string> const c(o.begin() + k, o.begin() + finish(o, k));
					t.insert(t.begin() + i, c.begin(), c.end());
				}
				break;
			}
		case 4: {
			/* Attributes */
			vector<size_t> quotes;
			for (size_t k = 0; k < t[i].size(); ++k) {
				if (t[i][k] == '"') {
					quotes.push_back(k);
				}
			}
			if (quotes.size() >= 2) {
				auto const k = s.draw(quotes.size() / 2 - 1) * 2;
				auto const start = t[i].rfind(' ', quotes[k]);
				auto const a = t[i].substr(start + 1, quotes[k] - start - 2);
				if (a.compare(0, 5, "xmlns") == 0 && s.chance(80)) {
					break;
				}
				if (s.boolean()) {
					s.note("no attribute", a + " of " + name);
					t[i].erase(start, quotes[k + 1] + 1 - start);
				} else {
					auto const v = odd_value(s);
					s.note("attribute " + a + " of " + name, v.substr(0, 60));
					t[i].replace(quotes[k] + 1, quotes[k + 1] - quotes[k] - 1, v.find_first_of("<\"") == string::npos ? v : "");
				}
			}
			break;
		}
		case 5: {
			auto const v = s.pick<string>({ "Strange", "Id", "ReelList", "Asset" });
			s.note("rename", name + " to " + v);
			auto const end = "</" + name + ">";
			t[i].replace(1, name.size(), v);
			if (j > i + 1 && t[j - 1] == end) {
				t[j - 1] = "</" + v + ">";
			}
			break;
		}
		case 6:
			s.note("empty", name);
			t.erase(t.begin() + i + 1, t.begin() + std::max(i + 1, j - 1));
			break;
		case 7:
			s.note("text before", name);
			t.insert(t.begin() + i, odd_value(s));
			break;
		case 8: {
			/* Not XML at all */
			string b;
			for (auto const& k: t) {
				b += k;
			}
			auto const at = s.draw(b.size() - 1);
			if (s.boolean()) {
				b[at] = s.draw(255);
				s.note("byte changed", at);
			} else {
				b.resize(at);
				s.note("cut", at);
			}
			t = tokens(b);
			break;
		}
		}
	}
	string b;
	for (auto const& k: t) {
		b += k;
	}
	return b;
}

vector<string> load(vector<string> names)
{
	vector<string> r;
	for (auto n: names) {
		r.push_back(media::read_file(full::repo() + "/test/" + n));
	}
	return r;
}

/** Do something, which might throw anything that's derived from std::exception */
void attempt(Src& s, std::function<void ()> f)
{
	try {
		f();
		s.label("read");
		s.nontrivial();
	} catch (pbt::Failure&) {
		throw;
	} catch (std::exception& e) {
		s.label("refused");
	}
}

vector<string> const& cpls()
{
	static auto const x = load({
		"ref/cpl_metadata_test1.xml", "ref/cpl_metadata_test2.xml", "ref/cpl_metadata_test3.xml", "ref/cpl_metadata_test4.xml", "data/cpl_content_kind_test1.xml", "data/cpl_content_kind_test2.xml",
		"data/cpl_content_kind_test3.xml", "ref/DCP/dcp_test1/cpl_6affb8ee-0020-4dff-a53c-17652f6358ab.xml", "ref/DCP/dcp_test3/cpl_cbfd2bc0-21cf-4a8f-95d8-9cddcbe51296.xml",
		"ref/DCP/subtitle_namespace_test/cpl_fc815694-7977-4a27-a8b3-32b9d4075e4c.xml", "ref/DCP/encryption_test/cpl_6affb8ee-0020-4dff-a53c-17652f6358ab.xml",
		"ref/write_interop_subtitle_test3/cpl_5407b210-4441-4e97-8b16-8bdc7c12da54.xml"
		});
	return x;
}

vector<string> const& texts()
{
	static auto const x = load({ "data/subs1.xml", "data/subs2.xml", "data/subs3.xml", "data/subs4.xml", "data/subs5.xml", "data/ruby1.xml", "data/subtitles_with_vZani.xml", "ref/write_interop_subtitle_test3/subs.xml" });
	return x;
}

Register compositions("compositions", 8000, 200000, "it could be read", [](Src& s) {
	auto const file = path(s.scratch()) / "cpl.xml";
	package::put(file, change(s, s.pick(cpls()), cpls()));
	attempt(s, [&]() {
		vector<dcp::VerificationNote> notes;
		dcp::CPL cpl(file, s.boolean() ? &notes : nullptr);
		cpl.write_xml(path(s.scratch()) / "again.xml", {});
		cpl.equals(std::make_shared<dcp::CPL>(file), dcp::EqualityOptions(), [](dcp::NoteType, string) {});
		cpl.reel_file_assets();
		cpl.any_encrypted();
		cpl.version_number();
		cpl.content_versions();
		cpl.luminance();
		cpl.main_sound_configuration();
		cpl.additional_subtitle_languages();
		cpl.ratings();
		for (auto i: notes) {
			dcp::note_to_string(i);
		}
	});
});

Register packing("packing", 6000, 150000, "it could be read", [](Src& s) {
	static auto const pkls = load({
		"ref/DCP/dcp_test1/pkl_d199d58b-5ef8-4d49-b270-07e590ccb280.xml", "ref/DCP/dcp_test3/pkl_d87a950c-bd6f-41f6-90cc-56ccd673e131.xml", "ref/DCP/encryption_test/pkl_5203f3d4-9d62-4062-8bf1-7a114eff99df.xml",
		"ref/write_interop_subtitle_test3/pkl_ac8d301c-e5d9-4343-b6f3-ba2668adbe56.xml"
		});
	static auto const maps = load({ "ref/DCP/dcp_test1/ASSETMAP.xml", "ref/DCP/dcp_test3/ASSETMAP", "ref/write_interop_subtitle_test3/ASSETMAP" });
	auto const file = path(s.scratch()) / "file.xml";
	if (s.boolean()) {
		package::put(file, change(s, s.pick(pkls), pkls));
		attempt(s, [&]() {
			dcp::PKL pkl(file);
			for (auto a: pkl.assets()) {
				pkl.hash(a->id());
				pkl.type(a->id());
			}
			pkl.write_xml(path(s.scratch()) / "again.xml", {});
		});
	} else {
		package::put(file, change(s, s.pick(maps), maps));
		attempt(s, [&]() {
			dcp::AssetMap map(file);
			map.asset_ids_and_paths();
			map.pkl_paths();
			for (auto const& a: map.assets()) {
				a.path();
			}
			map.write_xml(path(s.scratch()) / "again.xml");
		});
	}
});

Register text("text", 8000, 200000, "it could be read", [](Src& s) {
	auto const file = path(s.scratch()) / "text.xml";
	package::put(file, change(s, s.pick(texts()), texts()));
	bool const smpte = s.boolean();
	s.note("SMPTE", smpte);
	attempt(s, [&]() {
		shared_ptr<dcp::TextAsset> a, b;
		if (smpte) {
			a = std::make_shared<dcp::SMPTETextAsset>(file);
			b = std::make_shared<dcp::SMPTETextAsset>(file);
		} else {
			a = std::make_shared<dcp::InteropTextAsset>(file);
			b = std::make_shared<dcp::InteropTextAsset>(file);
		}
		a->xml_as_string();
		a->texts_during(dcp::Time(0, 0, 1, 0, 24), dcp::Time(0, 1, 0, 0, 24), s.boolean());
		a->latest_text_out();
		a->load_font_nodes();
		a->equals(b, dcp::EqualityOptions(), [](dcp::NoteType, string) {});
		a->ensure_font("x", dcp::ArrayData(1));
		a->fix_empty_font_ids();
		a->xml_as_string();
	});
});

Register kdms("kdms", 2500, 60000, "it could be read", [](Src& s) {
	static auto const good = load({
		"data/kdm_TONEPLATES-SMPTE-ENC_.smpte-430-2.ROOT.NOT_FOR_PRODUCTION_20130706_20230702_CAR_OV_t1_8971c838.xml", "data/other_kdm.xml", "data/target.pem.crt.de5d4eba-e683-41ca-bdda-aa4ad96af3f4.kdm.xml"
		});
	static auto const key = media::read_file(full::repo() + "/test/data/private.key");
	auto const x = change(s, s.pick(good), good);
	attempt(s, [&]() {
		dcp::EncryptedKDM k(x);
		k.as_xml();
		k.keys();
		k.not_valid_before();
		k.not_valid_after();
		k.recipient_x509_subject_name();
		k.signer_certificate_chain();
		dcp::EncryptedKDM l(k);
		check(k == l, "not equal to a copy");
		dcp::DecryptedKDM d(k, key);
		d.keys();
	});
});

Register certificates("certificates", 3000, 60000, "it could be read", [](Src& s) {
	static auto const good = load({ "data/certificate_chain", "data/good_cert.pem", "data/bad_cert.pem" });
	static auto const keys = load({ "data/private.key", "data/private2.key", "data/failing-private.key" });
	auto x = s.pick(good);
	for (int n = 0; s.more(n, 1, 4, 50); ++n) {
		if (x.empty()) {
			break;
		}
		auto const at = s.draw(x.size() - 1);
		switch (s.draw(4)) {
		case 0:
			x[at] = s.pick<string>({ "A", "/", "=", "-", "\n", " ", "\xff", "0" })[0];
			break;
		case 1:
			x.erase(at, s.range(1, 100));
			break;
		case 2:
			x.insert(at, x.substr(s.draw(x.size() - 1), s.range(1, 100)));
			break;
		case 3:
			x.resize(at);
			break;
		case 4:
			x = string(1, s.draw(255)) + x;
			break;
		}
	}
	s.note("certificate", x.size());
	attempt(s, [&]() {
		auto use = [](dcp::Certificate const& c) {
			c.certificate(true);
			c.issuer();
			c.subject();
			c.subject_common_name();
			c.subject_organization_name();
			c.subject_organizational_unit_name();
			c.subject_dn_qualifier();
			c.serial();
			c.thumbprint();
			c.public_key();
			c.not_before();
			c.not_after();
		};
		if (s.boolean()) {
			use(dcp::Certificate(x));
		} else {
			dcp::CertificateChain c(x);
			c.set_key(s.pick(keys));
			c.chain_valid();
			c.private_key_valid();
			c.valid();
			for (auto const& i: c.unordered()) {
				use(i);
			}
			c.root();
			c.leaf();
		}
	});
});

Register packages("packages", 500, 4000, "it could be read", [](Src& s) {
	package::Package p;
	package::Options o;
	o.max_cpls = 2;
	o.max_reels = 2;
	p.generate(s, s.scratch(), o);
	dcp::DCP made(p.root);
	for (auto c: p.cpls) {
		made.add(c);
	}
	made.write_xml();
	vector<path> files;
	for (auto const& i: boost::filesystem::recursive_directory_iterator(p.root)) {
		if (boost::filesystem::is_regular_file(i)) {
			auto const n = i.path().filename().string();
			if (i.path().extension() == ".xml" || n.find("ASSETMAP") == 0) {
				files.push_back(i.path());
			}
		}
	}
	std::sort(files.begin(), files.end());
	for (int n = 0; s.more(n, 1, 3, 30); ++n) {
		auto const f = s.pick(files);
		s.note("file", f.filename().string().substr(0, 5));
		auto const x = change(s, media::read_file(f), {});
		package::put(f, x);
	}
	attempt(s, [&]() {
		dcp::DCP again(p.root);
		vector<dcp::VerificationNote> notes;
		again.read(s.boolean() ? &notes : nullptr, s.boolean());
		again.cpl_summaries();
		again.can_be_read();
		again.any_encrypted();
		again.all_encrypted();
		again.equals(made, dcp::EqualityOptions(), [](dcp::NoteType, string) {});
	});
	attempt(s, [&]() {
		dcp::VerificationOptions options;
		auto const result = dcp::verify({ p.root }, {}, [](string, optional<path>) {}, [](float) {}, options, path(full::repo()) / "xsd");
		dcp::TextFormatter f(path(s.scratch()) / "report");
		dcp::verify_report({ result }, f);
	});
});

}
