/* Sound assets */

#include "media.h"
#include "xmltree.h"
#include "asset_factory.h"
#include "cpl.h"
#include "equality_options.h"
#include "exceptions.h"
#include "main_sound_configuration.h"
#include "mono_j2k_picture_asset.h"
#include "reel.h"
#include "reel_mono_picture_asset.h"
#include "reel_sound_asset.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include <asdcp/Metadata.h>
#include <cmath>
#include <set>

using namespace pbt;
using std::string;
using std::vector;

static full::Setup setup;

namespace {

int frame_size(dcp::Fraction rate, int sampling_rate)
{
	auto const n = int64_t(sampling_rate) * rate.denominator;
	return (n + rate.numerator - 1) / rate.numerator;
}

int32_t expected(float x)
{
	double const limit = 8388607.0 / 8388608.0;
	double const c = x > limit ? limit : (x < -limit ? -limit : double(x));
	auto const v = c * 8388608.0;
	return v < 0 ? -static_cast<int32_t>(std::floor(-v + 0.5)) : static_cast<int32_t>(std::floor(v + 0.5));
}

int32_t expected(int32_t x)
{
	return x > 8388607 ? 8388607 : (x < -8388608 ? -8388608 : x);
}

float a_float(Src& s)
{
	switch (s.weighted({4, 4, 2, 2, 1})) {
	case 0:
		return s.real(-1, 1);
	case 1:
		/* Near to a step */
		return (s.irange(-8388608, 8388608) + s.pick({0.0, 0.5, -0.5, 0.25, 0.49, -0.49})) / 8388608.0;
	case 2:
		return s.pick({0.0f, 1.0f, -1.0f, 0.99999988f, -0.99999988f, 0.9999999f, 1e-8f, -1e-8f, 5.9e-8f, 6.1e-8f});
	case 3:
		return s.real(-3, 3);
	default:
		return s.pick({1e30f, -1e30f, 256.0f, -256.0f, 1.5f, -1.5f});
	}
}

int32_t an_int(Src& s)
{
	switch (s.weighted({5, 3, 2})) {
	case 0:
		return s.irange(-8388608, 8388607);
	case 1:
		return s.pick({0, 1, -1, 127, 128, 255, 256, -256, -255, 32767, 32768, 65535, 65536, 8388607, 8388606, -8388608, -8388607, 8388608, -8388609});
	default:
		return s.pick({8388608, 8388609, 16777215, 16777216, 2147483647, -2147483647 - 1, -8388609, 8388607});
	}
}

/** What we write to an asset */
struct Model
{
	dcp::Standard standard;
	dcp::Fraction rate;
	int sampling_rate;
	int channels;
	string id;
	boost::optional<string> language;
	media::Lock lock;
	media::Tags tags;
	vector<dcp::Channel> extra;
	bool sync = false;
	bool mca = true;
	/** channels first */
	vector<vector<int32_t>> samples;

	int length() const {
		return samples.empty() ? 0 : samples[0].size();
	}

	int per_frame() const {
		return frame_size(rate, sampling_rate);
	}

	int frames() const {
		return (length() + per_frame() - 1) / per_frame();
	}
};

void generate_format(Src& s, Model& m, bool allow_sync)
{
	m.standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	m.rate = media::edit_rate(s);
	m.sync = allow_sync && m.standard == dcp::Standard::SMPTE && s.chance(25);
	if (m.sync) {
		if (m.rate.denominator != 1) {
			m.rate = dcp::Fraction(24, 1);
		}
		m.sampling_rate = 48000;
		m.channels = s.range(14, 16);
	} else {
		/* Mostly very low, so that the frames are short */
		switch (s.weighted({6, 2, 1})) {
		case 0:
			m.sampling_rate = m.rate.numerator / m.rate.denominator * s.range(1, 9);
			break;
		case 1:
			m.sampling_rate = s.range(60, 1000);
			break;
		default:
			m.sampling_rate = s.pick({48000, 96000});
			break;
		}
		m.channels = s.chance(80) ? s.range(1, 8) : s.range(9, 16);
	}
	Kumu::shim_seed(s.draw(0xffffffff));
	m.language = s.pick({string("en-US"), string("de"), string("fr-CA"), string("zh-Hant-TW")});
	m.lock.generate(s, 40);
	m.tags.generate(s);
	m.mca = s.chance(80);
	static vector<dcp::Channel> const possible = {
		dcp::Channel::HI, dcp::Channel::VI, dcp::Channel::BSL, dcp::Channel::BSR
	};
	int n = 0;
	for (; s.more(n, 0, 4, 40); ++n) {
		m.extra.push_back(s.pick(possible));
	}
	s.note("standard", m.standard == dcp::Standard::SMPTE ? "SMPTE" : "Interop");
	s.note("rate", m.rate.as_string());
	s.note("sampling rate", m.sampling_rate);
	s.note("channels", m.channels);
	s.note("encrypted", m.lock.key ? "yes" : "no");
	s.note("sync", m.sync ? "yes" : "no");
}

std::shared_ptr<dcp::SoundAsset> make(Model& m)
{
	auto a = std::make_shared<dcp::SoundAsset>(m.rate, m.sampling_rate, m.channels, dcp::LanguageTag(*m.language), m.standard);
	m.id = a->id();
	m.lock.apply(*a);
	m.tags.apply(*a);
	return a;
}

template <class T, class G>
void write_block(Src& s, Model& m, dcp::SoundAssetWriter& writer, int channels, int length, G generate)
{
	/* To save time use a few values, repeated, when there are many */
	vector<vector<T>> data(channels);
	vector<T const*> pointers;
	vector<T> pool;
	for (int i = 0; i < 24; ++i) {
		pool.push_back(generate(s));
	}
	uint32_t x = s.draw(0xffffffff);
	for (auto& i: data) {
		for (int j = 0; j < length; ++j) {
			x = x * 1664525 + 1013904223;
			i.push_back(length * channels <= 12 ? generate(s) : pool[(x >> 16) % pool.size()]);
		}
		pointers.push_back(i.data());
	}
	writer.write(pointers.data(), channels, length);
	for (int c = 0; c < m.channels; ++c) {
		for (int j = 0; j < length; ++j) {
			m.samples[c].push_back(c < channels ? expected(data[c][j]) : 0);
		}
	}
}

void generate_content(Src& s, Model& m, dcp::SoundAssetWriter& writer)
{
	m.samples.resize(m.channels);
	auto const per_frame = m.per_frame();
	int blocks = 0;
	string text;
	for (; s.more(blocks, 1, 6, 70); ++blocks) {
		int const length = s.weighted({3, 2, 2}) == 0 ? 1 + s.draw(per_frame * (per_frame > 500 ? 1 : 3)) : s.pick({1, per_frame, std::max(1, per_frame - 1), per_frame + 1});
		int const channels = s.chance(60) ? m.channels : s.range(0, m.channels);
		bool const ints = s.boolean();
		text += (ints ? " i" : " f") + std::to_string(channels) + "x" + std::to_string(length);
		if (ints) {
			write_block<int32_t>(s, m, writer, channels, length, an_int);
		} else {
			write_block<float>(s, m, writer, channels, length, a_float);
		}
	}
	s.note("blocks", text);
}

/** The bits of the sync signal for one edit unit */
vector<bool> sync_bits(Model const& m, int frame, int& part)
{
	struct Kind { int rate, code, padding, packets; };
	static Kind const kinds[] = {
		{24, 0, 25, 4}, {25, 1, 20, 4}, {30, 2, 0, 4}, {48, 3, 25, 2}, {50, 4, 20, 2}, {60, 5, 0, 2}, {96, 6, 25, 1}, {100, 7, 20, 1}, {120, 8, 0, 1}
	};
	vector<uint8_t> id;
	string hex;
	for (auto i: m.id) {
		if (i != '-') {
			hex += i;
		}
	}
	for (int i = 0; i < 16; ++i) {
		id.push_back(strtol(hex.substr(i * 2, 2).c_str(), nullptr, 16));
	}
	vector<bool> all;
	for (auto k: kinds) {
		if (k.rate != m.rate.numerator) {
			continue;
		}
		for (int p = 0; p < k.packets; ++p) {
			vector<bool> bits;
			auto put = [&bits](unsigned v, int n) { for (int i = n - 1; i >= 0; --i) { bits.push_back((v >> i) & 1); } };
			put(0x4d56, 16);
			put(k.code, 4);
			put(0, 2);
			put(part, 2);
			for (int i = 0; i < 4; ++i) {
				put(id[part * 4 + i], 8);
			}
			put(frame, 24);
			/* CRC of what follows the sync word */
			unsigned crc = 0;
			for (size_t i = 16; i < bits.size(); ++i) {
				bool const top = ((crc >> 15) & 1) != static_cast<unsigned>(bits[i]);
				crc = (crc << 1) & 0xffff;
				if (top) {
					crc ^= 0x1021;
				}
			}
			put(crc, 16);
			put(0, 4);
			put(0, k.padding);
			all.insert(all.end(), bits.begin(), bits.end());
			part = (part + 1) % 4;
		}
	}
	return all;
}

void compare(Model const& m, dcp::SoundAsset const& a)
{
	check_eq(a.id(), m.id, "ID");
	check_eq(a.standard() == m.standard, true, "same standard");
	check_eq(a.edit_rate().as_string(), m.rate.as_string(), "edit rate");
	check_eq(a.sampling_rate(), m.sampling_rate, "sampling rate");
	check_eq(a.channels(), m.channels, "channels");
	check_eq(a.intrinsic_duration(), int64_t(m.frames()), "intrinsic duration");
	check_eq(a.bit_depth(), 24, "bit depth");
	m.tags.compare(a);

	auto reader = a.start_read();
	int part = 0;
	/* This has been checked on its own */
	dcp::FSK fsk;
	for (int f = 0; f < m.frames(); ++f) {
		auto frame = reader->get_frame(f);
		check_eq(frame->channels(), m.channels, "channels in frame");
		check_eq(frame->samples(), m.per_frame(), "samples in frame");
		check_eq(frame->size(), m.per_frame() * m.channels * 3, "size of frame");
		check_eq(frame->bits(), 24, "bits in frame");
		vector<bool> bits;
		if (m.sync) {
			bits = sync_bits(m, f, part);
			check_eq(int(bits.size()) * 4, m.per_frame(), "(check) size of sync data");
			fsk.set_data(bits);
		}
		for (int i = 0; i < m.per_frame(); ++i) {
			int const pos = f * m.per_frame() + i;
			for (int c = 0; c < m.channels; ++c) {
				int32_t want = 0;
				if (pos < m.length()) {
					want = m.sync && c == 13 ? fsk.get() : m.samples[c][pos];
				}
				auto const got = frame->get(c, i);
				if (got != want) {
					fail(
						"sample " + std::to_string(i) + " of channel " + std::to_string(c) + " in frame " + std::to_string(f) +
						" is " + std::to_string(got) + " instead of " + std::to_string(want)
						);
				}
			}
		}
	}

	for (auto f: {m.frames(), m.frames() + 7}) {
		try {
			reader->get_frame(f);
			fail("read frame " + std::to_string(f) + " of " + std::to_string(m.frames()));
		} catch (dcp::ReadError&) {}
	}
}

/** Check channel labels in the file */
void compare_labels(Model const& m, dcp::SoundAsset const& a)
{
	std::set<int> want;
	bool seven = false;
	if (m.standard == dcp::Standard::SMPTE && m.mca) {
		for (int i = 0; i < 6; ++i) {
			want.insert(i + 1);
		}
		for (auto i: m.extra) {
			want.insert(static_cast<int>(i) + 1);
			seven = seven || i == dcp::Channel::BSL || i == dcp::Channel::BSR;
		}
		want.erase(want.upper_bound(m.channels), want.end());
	}
	bool const labelled = m.standard == dcp::Standard::SMPTE && m.mca;
	check_eq(a.active_channels(), labelled ? int(want.size()) : a.active_channels(), "active channels");
	if (labelled) {
		check_eq(a.language().get_value_or("none"), *m.language, "language");
	}

	auto reader = a.start_read();
	std::list<ASDCP::MXF::InterchangeObject*> labels;
	reader->reader()->OP1aHeader().GetMDObjectsByType(ASDCP::DefaultSMPTEDict().ul(ASDCP::MDD_AudioChannelLabelSubDescriptor), labels);
	std::set<int> got;
	for (auto i: labels) {
		auto l = dynamic_cast<ASDCP::MXF::AudioChannelLabelSubDescriptor*>(i);
		check(l, "label of wrong type");
		got.insert(l->MCAChannelID.get());
		check_eq(
			string(l->MCATagSymbol), "ch" + dcp::channel_to_mca_id(static_cast<dcp::Channel>(l->MCAChannelID.get() - 1), seven ? dcp::MCASoundField::SEVEN_POINT_ONE : dcp::MCASoundField::FIVE_POINT_ONE),
			"label"
			);
	}
	check_eq(got.size(), labels.size(), "number of different labels");
	check(got == want, "labels are not for the right channels");
	std::list<ASDCP::MXF::InterchangeObject*> fields;
	reader->reader()->OP1aHeader().GetMDObjectsByType(ASDCP::DefaultSMPTEDict().ul(ASDCP::MDD_SoundfieldGroupLabelSubDescriptor), fields);
	check_eq(fields.size(), size_t(labelled), "number of sound fields");
	if (labelled) {
		auto field = dynamic_cast<ASDCP::MXF::SoundfieldGroupLabelSubDescriptor*>(fields.front());
		check_eq(string(field->MCATagSymbol), string(seven ? "sg71" : "sg51"), "sound field");
		for (auto i: labels) {
			auto l = dynamic_cast<ASDCP::MXF::AudioChannelLabelSubDescriptor*>(i);
			check(!l->SoundfieldGroupLinkID.empty() && l->SoundfieldGroupLinkID.get() == field->MCALinkID, "channel is not in the sound field");
		}
	}
}

}

static Register round_trip("round_trip", 6000, 150000, "more than one block, and more than one frame", [](Src& s) {
	Model m;
	generate_format(s, m, true);
	auto asset = make(m);
	boost::filesystem::path const file(s.scratch() + "/sound.mxf");
	auto writer = asset->start_write(
		file, m.extra, m.sync ? dcp::SoundAsset::AtmosSync::ENABLED : dcp::SoundAsset::AtmosSync::DISABLED,
		m.mca ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED
		);
	generate_content(s, m, *writer);
	check(writer->finalize(), "finalize says that nothing was written");
	writer.reset();
	s.nontrivial_if(m.frames() > 1 && m.length() % m.per_frame());
	s.label(m.sync ? "sync" : "no sync");
	s.label(m.lock.key ? "encrypted" : "plain");

	/* The object that wrote it */
	check(asset->file() && *asset->file() == file, "asset's file is not what was written");
	compare(m, *asset);

	/* And another */
	dcp::SoundAsset again(file);
	check_eq(again.can_be_read(), !m.lock.key, "can be read, without key");
	m.lock.unlock(again);
	check(again.can_be_read(), "can't be read");
	compare(m, again);
	compare_labels(m, again);
	check(dcp::SoundAsset::valid_mxf(file), "not valid");

	if (m.sampling_rate == 48000 || m.sampling_rate == 96000) {
		auto from_factory = std::dynamic_pointer_cast<dcp::SoundAsset>(dcp::asset_factory(file, false));
		check(static_cast<bool>(from_factory), "not recognised as sound");
		check_eq(from_factory->id(), m.id, "ID of recognised sound");
	}
});

namespace {

/** A descriptor's details: names of XML nodes and their contents */
typedef vector<std::pair<string, string>> Details;

Details details(ASDCP::MXF::MCALabelSubDescriptor const& d)
{
	char buffer[128];
	Details r;
	auto uuid = [&](Kumu::UUID const& u) {
		u.EncodeString(buffer, sizeof(buffer));
		return "urn:uuid:" + string(buffer);
	};
	r.push_back({"InstanceID", uuid(d.InstanceUID)});
	d.MCALabelDictionaryID.EncodeString(buffer, sizeof(buffer));
	r.push_back({"MCALabelDictionaryID", "urn:smpte:ul:" + string(buffer)});
	r.push_back({"MCALinkID", uuid(d.MCALinkID)});
	r.push_back({"MCATagSymbol", d.MCATagSymbol});
	if (!d.MCATagName.empty()) {
		r.push_back({"MCATagName", d.MCATagName.get()});
	}
	if (!d.MCAChannelID.empty()) {
		r.push_back({"MCAChannelID", std::to_string(d.MCAChannelID.get())});
	}
	if (!d.RFC5646SpokenLanguage.empty()) {
		r.push_back({"RFC5646SpokenLanguage", d.RFC5646SpokenLanguage.get()});
	}
	if (!d.SoundfieldGroupLinkID.empty()) {
		r.push_back({"SoundfieldGroupLinkID", uuid(d.SoundfieldGroupLinkID.get())});
	}
	return r;
}

}

static Register described("described", 1200, 24000, "more than two channels are described", [](Src& s) {
	/* A playlist describes the channels in its sound */
	Model m;
	generate_format(s, m, false);
	auto asset = make(m);
	auto const file = s.scratch() + "/sound.mxf";
	auto writer = asset->start_write(
		file, m.extra, dcp::SoundAsset::AtmosSync::DISABLED,
		m.mca ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED
		);
	generate_content(s, m, *writer);
	writer->finalize();
	writer.reset();
	bool const labelled = m.standard == dcp::Standard::SMPTE && m.mca;

	vector<std::pair<string, Details>> want;
	{
		auto reader = asset->start_read();
		for (auto type: {ASDCP::MDD_SoundfieldGroupLabelSubDescriptor, ASDCP::MDD_AudioChannelLabelSubDescriptor}) {
			std::list<ASDCP::MXF::InterchangeObject*> objects;
			reader->reader()->OP1aHeader().GetMDObjectsByType(ASDCP::DefaultSMPTEDict().ul(type), objects);
			for (auto i: objects) {
				want.push_back({
					type == ASDCP::MDD_SoundfieldGroupLabelSubDescriptor ? "SoundfieldGroupLabelSubDescriptor" : "AudioChannelLabelSubDescriptor",
					details(dynamic_cast<ASDCP::MXF::MCALabelSubDescriptor&>(*i))
				});
			}
		}
	}
	check_eq(want.empty(), !labelled, "no labels in sound");
	s.nontrivial_if(want.size() > 3);
	s.label(labelled ? "labelled" : "not labelled");

	auto reel = std::make_shared<dcp::Reel>();
	auto picture = std::make_shared<dcp::MonoJ2KPictureAsset>(m.rate, m.standard);
	picture->set_file(file);
	reel->add(std::make_shared<dcp::ReelMonoPictureAsset>(picture, 0));
	reel->add(std::make_shared<dcp::ReelSoundAsset>(asset, 0));
	auto const profile = s.chance(80) ? dcp::Profile::SMPTE_BV21 : dcp::Profile::SMPTE_BV20;
	dcp::CPL cpl("", dcp::ContentKind::FEATURE, dcp::Standard::SMPTE, profile);
	cpl.add(reel);
	cpl.set_main_sound_configuration(dcp::MainSoundConfiguration(dcp::MCASoundField::FIVE_POINT_ONE, 6));
	cpl.set_main_sound_sample_rate(48000);
	cpl.set_main_picture_stored_area({1998, 1080});
	cpl.set_main_picture_active_area({1998, 1080});
	cpl.write_xml(s.scratch() + "/cpl.xml", {});

	auto compare = [&](string name) {
		auto const bytes = media::read_file(s.scratch() + "/" + name);
		auto const root = tree::read(string(bytes.begin(), bytes.end()));
		auto const meta = root.at("ReelList").all("Reel")[0].at("AssetList/CompositionMetadataAsset");
		auto const lists = meta.all("MCASubDescriptors");
		bool const expected = labelled && profile == dcp::Profile::SMPTE_BV21;
		check_eq(lists.size(), size_t(expected), "lists of descriptors in " + name);
		if (!expected) {
			return;
		}
		auto const& got = lists[0].children;
		check_eq(got.size(), want.size(), "descriptors in " + name);
		for (size_t i = 0; i < got.size(); ++i) {
			check_eq(got[i].name, want[i].first, "name of descriptor " + std::to_string(i));
			Details d;
			for (auto const& j: got[i].children) {
				d.push_back({j.name, j.text});
			}
			check_eq(d.size(), want[i].second.size(), "details of descriptor " + std::to_string(i));
			for (size_t j = 0; j < d.size(); ++j) {
				check_eq(d[j].first, want[i].second[j].first, "name of detail " + std::to_string(j) + " of descriptor " + std::to_string(i));
				check_eq(d[j].second, want[i].second[j].second, d[j].first + " of descriptor " + std::to_string(i));
			}
		}
	};
	compare("cpl.xml");

	/* It should keep them when it has no sound to look at */
	dcp::CPL again(s.scratch() + "/cpl.xml");
	again.write_xml(s.scratch() + "/again.xml", {});
	compare("again.xml");
});

static Register nothing("nothing", 200, 2000, "all", [](Src& s) {
	/* Nothing written */
	Model m;
	generate_format(s, m, false);
	auto asset = make(m);
	boost::filesystem::path const file(s.scratch() + "/sound.mxf");
	auto writer = asset->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
	check(!writer->finalize(), "finalize says that something was written");
	check_eq(asset->intrinsic_duration(), int64_t(0), "intrinsic duration");
	check(!boost::filesystem::exists(file), "file made with nothing in it");
	if (m.channels < 14) {
		try {
			asset->start_write(file, {}, dcp::SoundAsset::AtmosSync::ENABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
			fail("sync signal accepted with too few channels");
		} catch (dcp::MiscError&) {}
	}
	/* Things that can't have a sync signal */
	auto const rate = s.pick({dcp::Fraction(24000, 1001), dcp::Fraction(30000, 1001), dcp::Fraction(16, 1), dcp::Fraction(200, 1), dcp::Fraction(1, 1), dcp::Fraction(24, 1)});
	dcp::SoundAsset other(rate, 48000, s.range(14, 16), dcp::LanguageTag("en"), dcp::Standard::SMPTE);
	bool const possible = rate == dcp::Fraction(24, 1);
	try {
		other.start_write(file, {}, dcp::SoundAsset::AtmosSync::ENABLED, dcp::SoundAsset::MCASubDescriptors::DISABLED);
		check(possible, "sync signal accepted at rate " + rate.as_string());
	} catch (dcp::MiscError&) {
		check(!possible, "sync signal refused");
	}
	s.nontrivial();
});

static Register sixteen_bit("sixteen_bit", 1500, 30000, "some negative samples", [](Src& s) {
	/* Assets that we can't write, but can read */
	ASDCP::WriterInfo info;
	info.LabelSetType = ASDCP::LS_MXF_SMPTE;
	ASDCP::PCM::AudioDescriptor desc;
	desc.EditRate = ASDCP::Rational(24, 1);
	int const per_frame = s.range(1, 10);
	desc.AudioSamplingRate = ASDCP::Rational(24 * per_frame, 1);
	desc.ChannelCount = s.range(1, 6);
	bool const sixteen = s.chance(75);
	int const bytes = sixteen ? 2 : 3;
	desc.QuantizationBits = bytes * 8;
	desc.BlockAlign = bytes * desc.ChannelCount;
	desc.AvgBps = desc.BlockAlign * 24 * per_frame;
	auto const file = s.scratch() + "/sound.mxf";
	ASDCP::PCM::MXFWriter writer;
	check(ASDCP_SUCCESS(writer.OpenWrite(file, info, desc)), "(check) could not open");
	int const frames = s.range(1, 3);
	vector<int32_t> want;
	bool negative = false;
	for (int f = 0; f < frames; ++f) {
		ASDCP::PCM::FrameBuffer buffer(per_frame * desc.BlockAlign);
		buffer.Size(buffer.Capacity());
		auto p = buffer.Data();
		for (unsigned i = 0; i < per_frame * desc.ChannelCount; ++i) {
			int32_t const v = sixteen ? s.edgy(-32768, 32767, {-1, 0, 1, 255, 256, -256}) : s.edgy(-8388608, 8388607, {-1, 0, 1, 255, 256, -256, 65536, -65536});
			want.push_back(v);
			negative = negative || v < 0;
			for (int b = 0; b < bytes; ++b) {
				*p++ = (v >> (b * 8)) & 0xff;
			}
		}
		check(ASDCP_SUCCESS(writer.WriteFrame(buffer)), "(check) could not write");
	}
	check(ASDCP_SUCCESS(writer.Finalize()), "(check) could not finalize");
	s.nontrivial_if(negative);
	s.note("bits", bytes * 8);
	s.note("channels", desc.ChannelCount);
	s.note("samples", show(want));

	dcp::SoundAsset asset(file);
	check_eq(asset.bit_depth(), bytes * 8, "bit depth");
	auto reader = asset.start_read();
	size_t n = 0;
	for (int f = 0; f < frames; ++f) {
		auto frame = reader->get_frame(f);
		check_eq(frame->samples(), per_frame, "samples");
		check_eq(frame->bits(), bytes * 8, "bits");
		for (int i = 0; i < per_frame; ++i) {
			for (unsigned c = 0; c < desc.ChannelCount; ++c) {
				check_eq(frame->get(c, i), want[n++], "sample " + std::to_string(i) + " of channel " + std::to_string(c));
			}
		}
	}
});

static Register equality("equality", 2500, 60000, "a difference, or a tolerance", [](Src& s) {
	Model m;
	generate_format(s, m, false);
	m.sampling_rate = std::min(m.sampling_rate, 1000);
	m.extra.clear();
	int const per_frame = m.per_frame();
	int const length = s.range(1, 4) * per_frame;
	m.samples.resize(m.channels);
	for (auto& i: m.samples) {
		uint32_t x = s.draw(0xffffffff);
		for (int j = 0; j < length; ++j) {
			x = x * 1664525 + 1013904223;
			i.push_back(int32_t(x >> 8) - 8388608);
		}
	}
	Model n = m;
	n.lock = media::Lock();
	n.lock.generate(s, 40);

	dcp::EqualityOptions opt;
	opt.max_audio_sample_error = s.pick({0, 0, 1, 5, 1000, 8388608});
	opt.sound_assets_can_differ = s.chance(5);
	opt.keep_going = s.boolean();
	int biggest = 0;
	bool format = false;
	auto const change = s.weighted({2, 6, 1, 1, 1, 1});
	switch (change) {
	case 0:
		break;
	case 1: {
		int k = 0;
		for (; s.more(k, 1, 3, 40); ++k) {
			auto& v = n.samples[s.draw(m.channels - 1)][s.draw(length - 1)];
			int const by = s.pick({1, -1, 2, 4, 5, 6, -5, -6, 999, 1000, 1001, -1001, 8388607, 16000000, -16000000, opt.max_audio_sample_error, opt.max_audio_sample_error + 1});
			v = std::max(-8388608, std::min(8388607, v + by));
		}
		for (int c = 0; c < m.channels; ++c) {
			for (int j = 0; j < length; ++j) {
				biggest = std::max(biggest, std::abs(n.samples[c][j] - m.samples[c][j]));
			}
		}
		break;
	}
	case 2:
		/* Same number of samples per frame, but a different rate */
		n.rate.numerator *= 2;
		n.sampling_rate *= 2;
		format = true;
		break;
	case 3:
		n.sampling_rate *= 2;
		format = true;
		break;
	case 4:
		n.channels++;
		n.samples.push_back(vector<int32_t>(length));
		format = true;
		break;
	case 5:
		for (auto& i: n.samples) {
			i.resize(length + per_frame);
		}
		format = true;
		break;
	}
	s.note("change", change);
	s.note("biggest difference", biggest);
	s.note("allowed", opt.max_audio_sample_error);
	s.nontrivial_if(change || opt.max_audio_sample_error);

	auto write = [&](Model& x, string name) {
		auto a = make(x);
		auto w = a->start_write(s.scratch() + "/" + name, {}, dcp::SoundAsset::AtmosSync::DISABLED, x.mca ? dcp::SoundAsset::MCASubDescriptors::ENABLED : dcp::SoundAsset::MCASubDescriptors::DISABLED);
		vector<int32_t const*> p;
		for (auto& i: x.samples) {
			p.push_back(i.data());
		}
		w->write(p.data(), x.channels, x.length());
		w->finalize();
		return a;
	};
	auto a = write(m, "a.mxf");
	auto b = write(n, "b.mxf");

	bool const want = opt.sound_assets_can_differ || (!format && biggest <= opt.max_audio_sample_error);
	int errors = 0;
	auto handler = [&errors](dcp::NoteType type, string) { errors += type == dcp::NoteType::ERROR; };
	for (int i = 0; i < 2; ++i) {
		errors = 0;
		check_eq(i ? b->equals(a, opt, handler) : a->equals(b, opt, handler), want, "equal");
		check_eq(errors > 0, !want, "error noted");
	}
	check(a->equals(a, opt, handler), "not equal to itself");
});
