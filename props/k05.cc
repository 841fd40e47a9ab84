/* Main sound configurations and channel labels */

#include "full.h"
#include "exceptions.h"
#include "main_sound_configuration.h"
#include <algorithm>

using namespace pbt;
using namespace dcp;

static full::Setup setup;

struct Label
{
	Channel channel;
	std::string id51;
	std::string id71;
	std::vector<std::string> others;
};

static std::vector<Label> const& labels()
{
	static std::vector<Label> const l = {
		{ Channel::LEFT, "L", "L", {} },
		{ Channel::RIGHT, "R", "R", {} },
		{ Channel::CENTRE, "C", "C", {} },
		{ Channel::LFE, "LFE", "LFE", {} },
		{ Channel::LS, "Ls", "Lss", { "lslss" } },
		{ Channel::RS, "Rs", "Rss", { "rsrss" } },
		{ Channel::HI, "HI", "HI", {} },
		{ Channel::VI, "VIN", "VIN", { "VI-N" } },
		{ Channel::BSL, "Lrs", "Lrs", { "lsr" } },
		{ Channel::BSR, "Rrs", "Rrs", { "rsr" } },
		{ Channel::MOTION_DATA, "DBOX", "DBOX", { "dbox2", "mtn" } },
		{ Channel::SYNC_SIGNAL, "FSKSync", "FSKSync", { "sync" } },
		{ Channel::SIGN_LANGUAGE, "SLVS", "SLVS", {} }
	};
	return l;
}

static std::string lower(std::string x)
{
	std::transform(x.begin(), x.end(), x.begin(), ::tolower);
	return x;
}

static boost::optional<Channel> lookup(std::string id)
{
	for (auto const& i: labels()) {
		auto all = i.others;
		all.push_back(i.id51);
		all.push_back(i.id71);
		for (auto const& j: all) {
			if (lower(j) == lower(id)) {
				return i.channel;
			}
		}
	}
	if (lower(id) == "lc") {
		return Channel::LC;
	}
	if (lower(id) == "rc") {
		return Channel::RC;
	}
	return {};
}

static std::string gen_id(Src& s)
{
	auto const& l = s.pick(labels());
	auto all = l.others;
	all.push_back(l.id51);
	all.push_back(l.id71);
	auto id = s.pick(all);
	if (s.chance(10)) {
		id = s.pick<std::string>({ "Lc", "Rc" });
	}
	if (s.chance(30)) {
		for (auto& c: id) {
			c = static_cast<char>(s.boolean() ? toupper(c) : tolower(c));
		}
	}
	return id;
}

static Register built("built", 60000, 1000000, "at least two channels mapped", [](Src& s) {
	/* Setting up a configuration step by step */
	auto const field = s.boolean() ? MCASoundField::FIVE_POINT_ONE : MCASoundField::SEVEN_POINT_ONE;
	int channels = s.irange(1, 16);
	MainSoundConfiguration c(field, channels);
	std::vector<boost::optional<Channel>> model(channels);
	int mapped = 0;
	std::string steps;
	for (int n = 0; s.more(n, 0, 20, 85); ++n) {
		if (s.chance(10)) {
			channels = s.irange(1, 16);
			c.set_channels(channels);
			model.resize(channels);
			steps += "channels=" + std::to_string(channels) + " ";
		} else {
			auto const i = s.irange(0, channels - 1);
			auto const& l = s.pick(labels());
			c.set_mapping(i, l.channel);
			model[i] = l.channel;
			++mapped;
			steps += std::to_string(i) + "=" + l.id51 + " ";
		}

		std::string want = field == MCASoundField::FIVE_POINT_ONE ? "51/" : "71/";
		for (int i = 0; i < channels; ++i) {
			want += i ? "," : "";
			if (!model[i]) {
				want += "-";
			} else {
				auto l = std::find_if(labels().begin(), labels().end(), [&](Label const& x) { return x.channel == *model[i]; });
				want += field == MCASoundField::FIVE_POINT_ONE ? l->id51 : l->id71;
			}
		}
		check(c.valid(), "not valid");
		check_eq(c.as_string(), want, "text", steps);
		check_eq(c.channels(), channels, "channels", steps);
		check(c.field() == field, "field");

		MainSoundConfiguration const back(want);
		check(back.valid() && back.field() == field, "text not understood when read back");
		check_eq(back.channels(), channels, "channels read back");
		check_eq(back.as_string(), want, "text read back");
		for (int i = 0; i < channels; ++i) {
			check(c.mapping(i) == model[i], "wrong mapping for channel " + std::to_string(i) + " after " + steps);
			check(back.mapping(i) == model[i], "wrong mapping read back for channel " + std::to_string(i) + " after " + steps);
		}
	}
	s.note("steps", steps);
	s.nontrivial_if(mapped >= 2);
});

static Register parsed("parsed", 100000, 2000000, "at least two channels", [](Src& s) {
	auto const field = s.pick<std::string>({ "51", "71", "HI", "VI", "ST", "M", "714", "", "5.1" });
	std::string t = field;
	std::vector<std::string> ids;
	bool const any = s.chance(90);
	if (any) {
		t += "/";
		for (int n = 0; s.more(n, 1, 20, 88); ++n) {
			auto const id = s.chance(20) ? "-" : (s.chance(2) ? s.str("LRCsabx ", 0, 4) : gen_id(s));
			t += (n ? "," : "") + id;
			ids.push_back(id);
		}
	}
	s.note("text", t);
	s.nontrivial_if(ids.size() >= 2);
	bool good = ids.size() <= 16;
	for (auto const& i: ids) {
		if (i != "-" && !lookup(i)) {
			good = false;
		}
	}
	s.label(good ? "good" : "bad");
	MainSoundConfiguration c(t);
	check_eq(c.as_string(), t, "text is not kept");
	check_eq(c.valid(), good, "valid");
	if (good) {
		check_eq(c.channels(), static_cast<int>(ids.size()), "channels");
		auto const want = field == "51" ? MCASoundField::FIVE_POINT_ONE : (field == "71" ? MCASoundField::SEVEN_POINT_ONE : MCASoundField::OTHER);
		check(c.field() == want, "field");
		for (size_t i = 0; i < ids.size(); ++i) {
			auto const w = ids[i] == "-" ? boost::optional<Channel>() : lookup(ids[i]);
			check(c.mapping(static_cast<int>(i)) == w, "mapping of channel " + std::to_string(i));
		}
	} else {
		auto throws = [](std::function<void ()> f) {
			try {
				f();
			} catch (MainSoundConfigurationError&) {
				return true;
			}
			return false;
		};
		check(throws([&]() { c.channels(); }), "channels() of a bad configuration");
		check(throws([&]() { c.field(); }), "field() of a bad configuration");
		check(throws([&]() { c.mapping(0); }), "mapping() of a bad configuration");
		check(throws([&]() { c.set_mapping(0, Channel::LEFT); }), "set_mapping() of a bad configuration");
		check_eq(c.as_string(), t, "text is not kept");
	}
});

static Register ids("ids", 60000, 1000000, "not exactly a usual label", [](Src& s) {
	for (auto const& i: labels()) {
		check_eq(channel_to_mca_id(i.channel, MCASoundField::FIVE_POINT_ONE), i.id51, "5.1 label");
		check_eq(channel_to_mca_id(i.channel, MCASoundField::SEVEN_POINT_ONE), i.id71, "7.1 label");
	}
	auto id = gen_id(s);
	if (s.chance(40)) {
		id = s.boolean() ? id + s.pick<char>({ ' ', 's', 'x', '-' }) : id.substr(0, s.draw(id.size()));
	}
	s.note("id", id);
	s.nontrivial_if(std::none_of(labels().begin(), labels().end(), [&](Label const& i) { return i.id51 == id || i.id71 == id; }));
	check(mca_id_to_channel(id) == lookup(id), "wrong channel for " + id);

	/* Names and universal labels are all different */
	auto const used = used_audio_channels();
	check_eq(used.size(), labels().size(), "number of used channels");
	auto const field = s.boolean() ? MCASoundField::FIVE_POINT_ONE : MCASoundField::SEVEN_POINT_ONE;
	std::set<std::string> names;
	std::set<std::string> uls;
	for (auto c: used) {
		names.insert(channel_to_mca_name(c, field));
		auto const ul = channel_to_mca_universal_label(c, field, asdcp_smpte_dict);
		char b[64];
		uls.insert(ul.EncodeString(b, 64));
	}
	check_eq(names.size(), used.size(), "different names");
	check_eq(uls.size(), used.size(), "different universal labels");
});
