/* Names for things */

#include "pbt.h"
#include "content_kind.h"
#include "exceptions.h"
#include "h_align.h"
#include "v_align.h"
#include "subtitle_standard.h"
#include <algorithm>

using namespace pbt;
using namespace dcp;

static std::string const CPL_METADATA = "http://www.smpte-ra.org/schemas/429-16/2014/CPL-Metadata#scope/content-kind";
static std::string const IMF = "http://www.smpte-ra.org/schemas/2067-3/2013#content-kind";

struct Kind
{
	ContentKind const& kind;
	std::string name;
	std::string scope;
};

static std::vector<Kind> const& kinds()
{
	static std::vector<Kind> const k = {
		{ContentKind::FEATURE, "feature", ""},
		{ContentKind::SHORT, "short", ""},
		{ContentKind::TRAILER, "trailer", ""},
		{ContentKind::TEST, "test", ""},
		{ContentKind::TRANSITIONAL, "transitional", ""},
		{ContentKind::RATING, "rating", ""},
		{ContentKind::TEASER, "teaser", ""},
		{ContentKind::POLICY, "policy", ""},
		{ContentKind::PUBLIC_SERVICE_ANNOUNCEMENT, "psa", ""},
		{ContentKind::ADVERTISEMENT, "advertisement", ""},
		{ContentKind::CLIP, "clip", CPL_METADATA},
		{ContentKind::PROMO, "promo", CPL_METADATA},
		{ContentKind::STEREOCARD, "stereocard", CPL_METADATA},
		{ContentKind::EPISODE, "episode", IMF},
		{ContentKind::HIGHLIGHTS, "highlights", IMF},
		{ContentKind::EVENT, "event", IMF}
	};
	return k;
}

static std::string mix_case(Src& s, std::string x)
{
	for (auto& c: x) {
		if (s.boolean()) {
			c = static_cast<char>(toupper(c));
		}
	}
	return x;
}

static std::string mutate(Src& s, std::string x)
{
	switch (s.draw(5)) {
	case 0:
		if (!x.empty()) {
			x.erase(s.draw(x.size() - 1), 1);
		}
		break;
	case 1:
		x.insert(s.draw(x.size()), 1, s.pick<char>({' ', 'x', 'e', 't', '1'}));
		break;
	case 2:
		if (!x.empty()) {
			x[s.draw(x.size() - 1)] = s.pick<char>({' ', 'x', 'e', 't', '1'});
		}
		break;
	case 3:
		x = "";
		break;
	case 4:
		x += x;
		break;
	case 5:
		/* One bit different, which might only change the case */
		if (!x.empty()) {
			x[s.draw(x.size() - 1)] ^= 1 << s.draw(7);
		}
		break;
	}
	return x;
}

static std::string lower(std::string x)
{
	for (auto& c: x) {
		c = static_cast<char>(tolower(c));
	}
	return x;
}

static Register content_kinds("content_kinds", 300000, 5000000, "not exactly a name in lower case", [](Src& s) {
	auto const& k = s.pick(kinds());
	auto const exact = s.chance(20) ? k.name : mix_case(s, k.name);
	auto const name = s.chance(40) ? mutate(s, exact) : exact;
	s.note("name", name);
	s.nontrivial_if(name != k.name);
	auto want = std::find_if(kinds().begin(), kinds().end(), [&](Kind const& i) { return i.name == lower(name); });
	if (want != kinds().end()) {
		s.label("good");
		auto const got = ContentKind::from_name(name);
		check(got == want->kind && !(got != want->kind), "wrong kind for " + name);
		check_eq(got.name(), want->name, "name");
		check_eq(got.scope().get_value_or(""), want->scope, "scope");
		for (auto const& i: kinds()) {
			check_eq(got == i.kind, i.name == want->name, "equal to " + i.name);
			check_eq(got != i.kind, i.name != want->name, "not equal to " + i.name);
		}
	} else {
		s.label("bad");
		bool threw = false;
		try {
			ContentKind::from_name(name);
		} catch (BadContentKindError&) {
			threw = true;
		}
		check(threw, "no error for unknown kind " + name);
	}
	/* They are all in the list, once */
	auto const all = ContentKind::all();
	check_eq(all.size(), kinds().size(), "number of kinds");
	check_eq(std::count(all.begin(), all.end(), k.kind), std::ptrdiff_t(1), "times in list");
});

static Register kind_equality("kind_equality", 200000, 4000000, "either the name or scope is the same", [](Src& s) {
	auto gen_name = [&]() { return s.pick<std::string>({"feature", "Feature", "clip", "x", ""}); };
	auto gen_scope = [&]() -> boost::optional<std::string> {
		if (s.chance(30)) {
			return boost::none;
		}
		return s.pick<std::string>({CPL_METADATA, IMF, "", "x"});
	};
	auto const n1 = gen_name(), n2 = gen_name();
	auto const s1 = gen_scope(), s2 = gen_scope();
	ContentKind const a(n1, s1), b(n2, s2);
	s.note("a", n1 + " " + s1.get_value_or("none"));
	s.note("b", n2 + " " + s2.get_value_or("none"));
	s.nontrivial_if(n1 == n2 || s1 == s2);
	check_eq(a == b, n1 == n2 && s1 == s2, "==");
	check_eq(a != b, !(n1 == n2 && s1 == s2), "!=");
	check_eq(a.name(), n1, "name");
	check(a.scope() == s1, "scope");
});

template <class T>
void alignment(Src& s, std::vector<std::pair<T, std::string>> const& all, std::string (*to)(T), T (*from)(std::string), std::vector<std::string> const& others)
{
	for (auto const& i: all) {
		check_eq(to(i.first), i.second, "name");
		check(from(to(i.first)) == i.first, "round trip of " + i.second);
	}
	auto name = s.boolean() ? s.pick(all).second : s.pick(others);
	if (s.boolean()) {
		name = mutate(s, name);
	}
	if (s.boolean()) {
		name = mix_case(s, name);
	}
	s.note("name", name);
	auto want = std::find_if(all.begin(), all.end(), [&](std::pair<T, std::string> const& i) { return i.second == lower(name); });
	s.nontrivial_if(want == all.end() || name != want->second);
	if (want != all.end()) {
		check(from(name) == want->first, "wrong value for " + name);
	} else {
		bool threw = false;
		try {
			from(name);
		} catch (std::exception&) {
			threw = true;
		}
		check(threw, "no error for " + quote(name));
	}
}

static Register h_align("h_align", 200000, 3000000, "not a name, or not in lower case", [](Src& s) {
	alignment<HAlign>(s, {{HAlign::LEFT, "left"}, {HAlign::CENTER, "center"}, {HAlign::RIGHT, "right"}}, halign_to_string, string_to_halign, {"top", "bottom", "centre", "middle"});
});

static Register v_align("v_align", 200000, 3000000, "not a name, or not in lower case", [](Src& s) {
	alignment<VAlign>(s, {{VAlign::TOP, "top"}, {VAlign::CENTER, "center"}, {VAlign::BOTTOM, "bottom"}}, valign_to_string, string_to_valign, {"left", "right", "centre", "middle"});
});

static Register standards("standards", 40, 40, "every case", [](Src& s) {
	/* One or the other, and the same for the same standard every time */
	struct { SubtitleStandard standard; bool baseline; } const all[] = {
		{SubtitleStandard::INTEROP, true},
		{SubtitleStandard::SMPTE_2007, false},
		{SubtitleStandard::SMPTE_2010, false},
		{SubtitleStandard::SMPTE_2014, true}
	};
	auto const i = s.draw(3);
	s.note("standard", i);
	s.nontrivial();
	check_eq(uses_baseline(all[i].standard), all[i].baseline, "baseline");
	check_eq(uses_bounding_box(all[i].standard), !all[i].baseline, "bounding box");
});
