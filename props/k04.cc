/* Language tags */

#include "full.h"
#include "exceptions.h"
#include "language_tag.h"
#include <algorithm>
#include <fstream>

using namespace pbt;
using dcp::LanguageTag;

static full::Setup setup;

typedef LanguageTag::SubtagType Type;

static std::vector<Type> const types = { Type::LANGUAGE, Type::SCRIPT, Type::REGION, Type::VARIANT, Type::EXTLANG };

/* Our own reading of the lists */
static std::vector<std::pair<std::string, std::string>> const& list(Type t)
{
	static std::map<Type, std::vector<std::pair<std::string, std::string>>> all;
	if (all.empty()) {
		std::map<Type, std::string> const names = {
			{ Type::LANGUAGE, "language" }, { Type::SCRIPT, "script" }, { Type::REGION, "region" }, { Type::VARIANT, "variant" }, { Type::EXTLANG, "extlang" }
		};
		auto trim = [](std::string x) {
			while (!x.empty() && isspace(static_cast<unsigned char>(x.back()))) {
				x.pop_back();
			}
			while (!x.empty() && isspace(static_cast<unsigned char>(x.front()))) {
				x.erase(0, 1);
			}
			return x;
		};
		for (auto const& i: names) {
			std::ifstream f(full::repo() + "/tags/" + i.second);
			std::string a, b;
			while (getline(f, a) && getline(f, b)) {
				all[i.first].push_back({ trim(a), trim(b) });
			}
			check(!all[i.first].empty(), "no tags of type " + i.second);
		}
	}
	return all[t];
}

static std::string lower(std::string x)
{
	std::transform(x.begin(), x.end(), x.begin(), ::tolower);
	return x;
}

static std::pair<std::string, std::string> const* find(Type t, std::string subtag)
{
	static std::map<std::pair<Type, std::string>, std::pair<std::string, std::string> const*> index;
	if (index.empty()) {
		for (auto type: types) {
			for (auto const& i: list(type)) {
				index.insert({ { type, lower(i.first) }, &i });
			}
		}
	}
	auto const i = index.find({ t, lower(subtag) });
	return i == index.end() ? nullptr : i->second;
}

struct Model
{
	std::string language;
	std::string script;
	std::string region;
	std::vector<std::string> variants;
	std::vector<std::string> extlangs;

	std::string text() const
	{
		auto t = language;
		if (!script.empty()) {
			t += "-" + script;
		}
		if (!region.empty()) {
			t += "-" + region;
		}
		for (auto const& i: variants) {
			t += "-" + i;
		}
		for (auto const& i: extlangs) {
			t += "-" + i;
		}
		return t;
	}

	std::string description() const
	{
		std::string d;
		for (auto const& i: variants) {
			d += find(Type::VARIANT, i)->second + " dialect of ";
		}
		d += find(Type::LANGUAGE, language)->second;
		if (!script.empty()) {
			d += " written using the " + find(Type::SCRIPT, script)->second + " script";
		}
		if (!region.empty()) {
			d += " for " + find(Type::REGION, region)->second;
		}
		for (auto const& i: extlangs) {
			d += ", " + find(Type::EXTLANG, i)->second;
		}
		return d;
	}
};

static std::string gen_subtag(Src& s, Type t)
{
	auto x = s.pick(list(t)).first;
	if (s.chance(20)) {
		for (auto& c: x) {
			c = static_cast<char>(s.boolean() ? toupper(c) : tolower(c));
		}
	}
	return x;
}

static std::vector<std::string> gen_several(Src& s, Type t)
{
	std::vector<std::string> r;
	for (int n = 0; s.more(n, 0, 3, 35); ++n) {
		auto const x = gen_subtag(s, t);
		if (std::none_of(r.begin(), r.end(), [&](std::string const& i) { return lower(i) == lower(x); })) {
			r.push_back(x);
		}
	}
	return r;
}

static Model gen_model(Src& s)
{
	Model m;
	m.language = gen_subtag(s, Type::LANGUAGE);
	if (s.chance(40)) {
		m.script = gen_subtag(s, Type::SCRIPT);
	}
	if (s.chance(60)) {
		m.region = gen_subtag(s, Type::REGION);
	}
	m.variants = gen_several(s, Type::VARIANT);
	m.extlangs = gen_several(s, Type::EXTLANG);
	return m;
}

static void check_same(LanguageTag const& tag, Model const& m)
{
	check_eq(tag.as_string(), m.text(), "text");
	check(tag.language() && tag.language()->subtag() == m.language, "language");
	check_eq(tag.script() ? tag.script()->subtag() : "", m.script, "script");
	check_eq(tag.region() ? tag.region()->subtag() : "", m.region, "region");
	std::vector<std::string> got;
	for (auto const& i: tag.variants()) {
		got.push_back(i.subtag());
	}
	check_eq(got, m.variants, "variants");
	got.clear();
	for (auto const& i: tag.extlangs()) {
		got.push_back(i.subtag());
	}
	check_eq(got, m.extlangs, "extlangs");
	check_eq(tag.description(), m.description(), "description");

	std::vector<std::pair<Type, std::string>> want = { { Type::LANGUAGE, m.language } };
	if (!m.script.empty()) {
		want.push_back({ Type::SCRIPT, m.script });
	}
	if (!m.region.empty()) {
		want.push_back({ Type::REGION, m.region });
	}
	for (auto const& i: m.variants) {
		want.push_back({ Type::VARIANT, i });
	}
	for (auto const& i: m.extlangs) {
		want.push_back({ Type::EXTLANG, i });
	}
	auto const subtags = tag.subtags();
	check_eq(subtags.size(), want.size(), "number of subtags");
	for (size_t i = 0; i < want.size(); ++i) {
		auto const f = find(want[i].first, want[i].second);
		check(subtags[i].first == want[i].first && subtags[i].second.subtag == f->first && subtags[i].second.description == f->second, "subtag " + want[i].second);
	}
}

static Register tags("tags", 8000, 120000, "at least three subtags", [](Src& s) {
	auto const m = gen_model(s);
	s.note("tag", m.text());
	auto const whole = m.text();
	s.nontrivial_if(std::count(whole.begin(), whole.end(), '-') >= 2);

	/* A tag is read by taking each part as the first kind of subtag that it can be */
	LanguageTag const parsed(m.text());
	check_eq(parsed.as_string(), m.text(), "text of parsed tag");
	check_same(parsed, m);

	/* Building it up from parts */
	LanguageTag built;
	built.set_language(m.language);
	if (!m.script.empty()) {
		built.set_script(m.script);
	}
	if (!m.region.empty()) {
		built.set_region(m.region);
	}
	if (s.boolean()) {
		for (auto const& i: m.variants) {
			built.add_variant(i);
		}
		for (auto const& i: m.extlangs) {
			built.add_extlang(i);
		}
	} else {
		std::vector<LanguageTag::VariantSubtag> v;
		for (auto const& i: m.variants) {
			v.push_back(i);
		}
		std::vector<LanguageTag::ExtlangSubtag> e;
		for (auto const& i: m.extlangs) {
			e.push_back(i);
		}
		built.set_variants(v);
		built.set_extlangs(e);
	}
	check_same(built, m);
	check(built == parsed && !(built != parsed) && !(built < parsed) && !(parsed < built), "the same tag made two ways is unequal");

	/* Ordering and equality go with the text */
	auto const n = s.chance(20) ? m : gen_model(s);
	LanguageTag const other(n.text());
	check_eq(other == parsed, n.text() == m.text(), "==");
	check_eq(other != parsed, n.text() != m.text(), "!=");
	check_eq(other < parsed, n.text() < m.text(), "<");

	/* No duplicates */
	if (!m.variants.empty()) {
		bool threw = false;
		try {
			built.add_variant(s.pick(m.variants));
		} catch (dcp::LanguageTagError&) {
			threw = true;
		}
		check(threw, "duplicate variant accepted");
		check_same(built, m);
	}
	if (!m.extlangs.empty()) {
		std::vector<LanguageTag::ExtlangSubtag> e;
		for (auto const& i: m.extlangs) {
			e.push_back(i);
		}
		e.insert(e.begin() + s.draw(e.size()), s.pick(m.extlangs));
		bool threw = false;
		try {
			built.set_extlangs(e);
		} catch (dcp::LanguageTagError&) {
			threw = true;
		}
		check(threw, "duplicate extlangs accepted");
		check_same(built, m);
	}
});

static Register bad_tags("bad_tags", 25000, 400000, "at least two parts", [](Src& s) {
	/* Parts in any order, some of them nonsense */
	std::vector<std::string> parts;
	for (int n = 0; s.more(n, 1, 5, 70); ++n) {
		if (n == 0 && s.chance(70)) {
			parts.push_back(gen_subtag(s, Type::LANGUAGE));
			continue;
		}
		switch (s.weighted({6, 1, 1})) {
		case 0: parts.push_back(gen_subtag(s, s.pick(types))); break;
		case 1: parts.push_back(s.str("abcxyz019", 0, 8)); break;
		case 2: parts.push_back(gen_subtag(s, s.pick(types)) + s.pick<std::string>({ " ", "x", "_", "0" })); break;
		}
	}
	std::string t;
	for (auto const& i: parts) {
		t += (&i == &parts[0] ? "" : "-") + i;
	}
	s.note("tag", t);
	s.nontrivial_if(parts.size() > 1);

	Model m;
	size_t p = 0;
	bool good = find(Type::LANGUAGE, parts[0]);
	if (good) {
		m.language = parts[p++];
		if (p < parts.size() && find(Type::SCRIPT, parts[p])) {
			m.script = parts[p++];
		}
		if (p < parts.size() && find(Type::REGION, parts[p])) {
			m.region = parts[p++];
		}
		while (p < parts.size() && find(Type::VARIANT, parts[p])) {
			m.variants.push_back(parts[p++]);
		}
		while (p < parts.size() && find(Type::EXTLANG, parts[p])) {
			m.extlangs.push_back(parts[p++]);
		}
		good = p == parts.size();
	}
	auto duplicates = [](std::vector<std::string> v) {
		std::set<std::string> l;
		for (auto const& i: v) {
			l.insert(lower(i));
		}
		return l.size() != v.size();
	};
	if (duplicates(m.variants) || duplicates(m.extlangs)) {
		/* Not clear whether these should be refused */
		s.discard();
	}
	s.label(good ? "good" : "bad");
	try {
		LanguageTag tag(t);
		check(good, "accepted bad tag " + t + " as " + tag.as_string());
		check_same(tag, m);
	} catch (dcp::LanguageTagError& e) {
		check(!good, "refused good tag " + t + ": " + e.what());
	}
});

static Register lists("lists", 20000, 300000, "not in the list", [](Src& s) {
	auto const t = s.pick(types);
	auto const& l = list(t);
	auto const& all = LanguageTag::get_all(t);
	check_eq(all.size(), l.size(), "size of list");
	auto const i = s.draw(l.size() - 1);
	check(all[i].subtag == l[i].first && all[i].description == l[i].second, "list entry " + l[i].first);
	auto const x = s.chance(50) ? gen_subtag(s, t) : s.str("abcdeXYZ12", 0, 5);
	s.note("subtag", x);
	s.note("type", LanguageTag::subtag_type_name(t));
	auto const f = find(t, x);
	s.nontrivial_if(!f);
	auto const d = LanguageTag::get_subtag_data(t, x);
	auto const desc = LanguageTag::get_subtag_description(t, x);
	check_eq(static_cast<bool>(d), f != nullptr, "found");
	check_eq(static_cast<bool>(desc), f != nullptr, "description found");
	if (f) {
		check(d->subtag == f->first && d->description == f->second && *desc == f->second, "wrong data for " + x);
	}
	bool threw = false;
	try {
		switch (t) {
		case Type::LANGUAGE: LanguageTag::LanguageSubtag{x}; break;
		case Type::SCRIPT: LanguageTag::ScriptSubtag{x}; break;
		case Type::REGION: LanguageTag::RegionSubtag{x}; break;
		case Type::VARIANT: LanguageTag::VariantSubtag{x}; break;
		case Type::EXTLANG: LanguageTag::ExtlangSubtag{x}; break;
		}
	} catch (dcp::LanguageTagError&) {
		threw = true;
	}
	check_eq(threw, f == nullptr, "refused");
});
