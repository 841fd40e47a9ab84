/* V03: counting the lines of text, and characters in each, which are on the screen at once */

#include "full.h"
#include "smpte_text_asset.h"
#include "interop_text_asset.h"
#include "text_image.h"
#include "text_string.h"
#include "verify_internal.h"
#include <map>
#include <set>

using pbt::Src;
using std::map;
using std::string;
using std::vector;

static full::Setup setup;

namespace {

struct Item
{
	int in = 0;
	int out = 0;
	dcp::VAlign align = dcp::VAlign::TOP;
	int position = 0;
	int characters = 0;
	bool image = false;
	int tcr = 24;

	/** Hundredths of the height of the screen from the top */
	int line() const
	{
		switch (align) {
		case dcp::VAlign::TOP:
			return position;
		case dcp::VAlign::CENTER:
			return 50 + position;
		case dcp::VAlign::BOTTOM:
			return 100 - position;
		}
		return 0;
	}
};

dcp::Time time(int frames, int tcr)
{
	return dcp::Time(frames / (tcr * 3600), (frames / (tcr * 60)) % 60, (frames / tcr) % 60, frames % tcr, tcr);
}

pbt::Register lines("lines", 60000, 1500000, "some texts were on the screen together", [](Src& s) {
	vector<Item> items;
	int const longest = s.pick({ 30, 100, 4000 });
	int const tcr = s.pick({ 24, 25, 30, 48, 250 });
	/* If they all have ends at few different times then some will end as others start */
	vector<int> times;
	for (int n = 0; s.more(n, 2, 8, 80); ++n) {
		times.push_back(s.range(0, longest));
	}
	vector<int> where;
	for (int n = 0; s.more(n, 1, 6, 80); ++n) {
		where.push_back(s.range(0, 40));
	}
	for (int n = 0; s.more(n, 0, 24, 88); ++n) {
		Item i;
		i.tcr = tcr;
		i.in = s.pick(times);
		i.out = s.pick(times);
		if (i.out < i.in && s.chance(90)) {
			std::swap(i.in, i.out);
		}
		i.align = s.pick({ dcp::VAlign::TOP, dcp::VAlign::TOP, dcp::VAlign::CENTER, dcp::VAlign::BOTTOM });
		i.position = s.pick(where);
		i.characters = s.skewed(0, 60);
		i.image = s.chance(10);
		items.push_back(i);
	}

	std::shared_ptr<dcp::TextAsset> asset;
	if (s.boolean()) {
		asset = std::make_shared<dcp::SMPTETextAsset>();
	} else {
		asset = std::make_shared<dcp::InteropTextAsset>();
	}
	string describe;
	for (auto const& i: items) {
		string text;
		for (int j = 0; j < i.characters; ++j) {
			text += (j % 7 == 3) ? "\xc3\xa9" : (j % 11 == 5) ? "\xe6\x97\xa5" : "x";
		}
		describe += std::to_string(i.in) + "-" + std::to_string(i.out) + "@" + std::to_string(i.line()) + (i.image ? " image" : " " + std::to_string(i.characters)) + "; ";
		if (i.image) {
			asset->add(std::make_shared<dcp::TextImage>(
				dcp::ArrayData(4), time(i.in, i.tcr), time(i.out, i.tcr), 0, dcp::HAlign::CENTER, i.position / 100.0f, i.align, 0,
				vector<dcp::Text::VariableZPosition>(), dcp::Time(), dcp::Time()
				));
		} else {
			asset->add(std::make_shared<dcp::TextString>(
				boost::optional<string>(), false, false, false, dcp::Colour(255, 255, 255), 42, 1, time(i.in, i.tcr), time(i.out, i.tcr), 0, dcp::HAlign::CENTER,
				i.position / 100.0f, i.align, 0, vector<dcp::Text::VariableZPosition>(), dcp::Direction::LTR, text, dcp::Effect::NONE, dcp::Colour(0, 0, 0),
				dcp::Time(), dcp::Time(), 0, vector<dcp::Ruby>()
				));
		}
	}

	int most_lines = 0;
	int most_characters = 0;
	bool together = false;
	for (auto const& t: items) {
		map<int, int> line;
		int here = 0;
		for (auto const& i: items) {
			if (!i.image && i.in <= t.in && i.out > t.in) {
				line[i.line()] += i.characters;
				++here;
			}
		}
		together = together || here > 1;
		most_lines = std::max<int>(most_lines, line.size());
		for (auto const& l: line) {
			most_characters = std::max(most_characters, l.second);
		}
	}
	s.nontrivial_if(together);
	s.label(most_lines > 3 ? "too many lines" : "lines ok");

	int const warning = s.edgy(0, 150, { most_characters - 1 < 0 ? 0 : most_characters - 1, most_characters });
	int const error = warning + s.skewed(0, 30);
	s.note("texts", describe);
	s.note("warning", warning);
	s.note("error", error);
	dcp::LinesCharactersResult result;
	dcp::verify_text_lines_and_characters(asset, warning, error, &result);
	pbt::check_eq(result.line_count_exceeded, most_lines > 3, "whether there are too many lines", "");
	pbt::check_eq(result.warning_length_exceeded, most_characters > warning, "whether there are more than the warning number of characters", "");
	pbt::check_eq(result.error_length_exceeded, most_characters > error, "whether there are more than the error number of characters", "");
});

}
