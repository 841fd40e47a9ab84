/* Atmos assets, and encryption of all sorts of MXF */

#include "media.h"
#include "asset_factory.h"
#include "atmos_asset.h"
#include "atmos_asset_reader.h"
#include "atmos_asset_writer.h"
#include "atmos_frame.h"
#include "exceptions.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_asset_writer.h"
#include "mono_j2k_picture_frame.h"
#include "sound_asset.h"
#include "sound_asset_reader.h"
#include "sound_asset_writer.h"
#include "sound_frame.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_asset_writer.h"
#include "stereo_j2k_picture_frame.h"
#include <cstring>

using namespace pbt;
using media::Bytes;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

static full::Setup setup;

static Register atmos("atmos", 4000, 100000, "more than one frame", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	auto const rate = media::edit_rate(s);
	int const first = s.edgy(0, 2147483647, {1, 65535, 65536});
	int const channels = s.edgy(0, 65535, {10, 255, 256});
	int const objects = s.edgy(0, 65535, {118, 255, 256});
	int const version = s.draw(255);
	dcp::AtmosAsset asset(rate, first, channels, objects, version);
	media::Lock lock;
	lock.generate(s, 40);
	lock.apply(asset);
	media::Tags tags;
	tags.generate(s);
	tags.apply(asset);
	auto const file = s.scratch() + "/atmos.mxf";
	auto writer = asset.start_write(file);
	vector<Bytes> frames;
	int n = 0;
	for (; s.more(n, 0, 8, 80); ++n) {
		frames.push_back(s.bytes(1, s.chance(5) ? 4000 : 60));
		writer->write(frames.back().data(), frames.back().size());
	}
	check_eq(writer->finalize(), n > 0, "something was written");
	writer.reset();
	s.note("rate", rate.as_string());
	s.note("frames", n);
	s.note("counts", std::to_string(channels) + "," + std::to_string(objects));
	s.note("first", first);
	s.nontrivial_if(n > 1);
	if (n == 0) {
		return;
	}

	auto compare = [&](dcp::AtmosAsset const& a) {
		check_eq(a.id(), asset.id(), "ID");
		check_eq(a.atmos_id(), asset.atmos_id(), "Atmos ID");
		check(a.standard() == dcp::Standard::SMPTE, "not SMPTE");
		check_eq(a.edit_rate().as_string(), rate.as_string(), "edit rate");
		check_eq(a.intrinsic_duration(), int64_t(n), "intrinsic duration");
		check_eq(a.first_frame(), first, "first frame");
		check_eq(a.max_channel_count(), channels, "channel count");
		check_eq(a.max_object_count(), objects, "object count");
		check_eq(a.atmos_version(), version, "version");
		tags.compare(a);
		auto reader = a.start_read();
		for (int i = 0; i < n; ++i) {
			auto f = reader->get_frame(i);
			check_eq(f->size(), int(frames[i].size()), "size of frame " + std::to_string(i));
			check(memcmp(f->data(), frames[i].data(), frames[i].size()) == 0, "frame " + std::to_string(i) + " is wrong");
		}
		try {
			reader->get_frame(n);
			fail("read frame beyond the end");
		} catch (dcp::ReadError&) {}
	};
	compare(asset);
	dcp::AtmosAsset again(file);
	check_eq(again.can_be_read(), !lock.key, "can be read, without key");
	lock.unlock(again);
	check(again.can_be_read(), "can't be read");
	compare(again);
	auto made = std::dynamic_pointer_cast<dcp::AtmosAsset>(dcp::asset_factory(file, false));
	check(static_cast<bool>(made), "not recognised as Atmos");

	/* Copy it frame by frame */
	if (s.chance(30)) {
		dcp::AtmosAsset copy(rate, first, channels, objects, version);
		auto w = copy.start_write(s.scratch() + "/copy.mxf");
		auto r = again.start_read();
		for (int i = 0; i < n; ++i) {
			w->write(r->get_frame(i));
		}
		w->finalize();
		auto cr = copy.start_read();
		check_eq(copy.intrinsic_duration(), int64_t(n), "length of copy");
		for (int i = 0; i < n; ++i) {
			auto f = cr->get_frame(i);
			check(f->size() == int(frames[i].size()) && memcmp(f->data(), frames[i].data(), frames[i].size()) == 0, "frame of copy is wrong");
		}
	}
});

namespace {

enum Kind { MONO, STEREO, SOUND, ATMOS, KINDS };

Bytes real_frame()
{
	static string data;
	if (data.empty()) {
		data = media::read_file(full::repo() + "/test/data/32x32_red_square.j2c");
	}
	return Bytes(data.begin(), data.end());
}

struct Written
{
	shared_ptr<dcp::Asset> asset;
	/** places in the file where there is data (pictures only) */
	vector<dcp::FrameInfo> info;
};

Written write(Kind kind, dcp::Standard standard, media::Lock& lock, string file, int frames)
{
	Written w;
	auto picture = [&](shared_ptr<dcp::J2KPictureAsset> a, int each) {
		lock.apply(*a);
		auto writer = a->start_write(file, dcp::Behaviour::MAKE_NEW);
		auto const f = real_frame();
		for (int i = 0; i < frames * each; ++i) {
			w.info.push_back(writer->write(f.data(), f.size()));
		}
		writer->finalize();
		w.asset = a;
	};
	switch (kind) {
	case MONO:
		picture(make_shared<dcp::MonoJ2KPictureAsset>(dcp::Fraction(24, 1), standard), 1);
		break;
	case STEREO:
		picture(make_shared<dcp::StereoJ2KPictureAsset>(dcp::Fraction(24, 1), standard), 2);
		break;
	case SOUND: {
		auto a = make_shared<dcp::SoundAsset>(dcp::Fraction(24, 1), 240, 2, dcp::LanguageTag("en"), standard);
		lock.apply(*a);
		auto writer = a->start_write(file, {}, dcp::SoundAsset::AtmosSync::DISABLED, dcp::SoundAsset::MCASubDescriptors::ENABLED);
		vector<int32_t> d(10 * frames, 1234567);
		int32_t const* p[] = { d.data(), d.data() };
		writer->write(p, 2, d.size());
		writer->finalize();
		w.asset = a;
		break;
	}
	case ATMOS: {
		auto a = make_shared<dcp::AtmosAsset>(dcp::Fraction(24, 1), 0, 1, 1, 1);
		lock.apply(*a);
		auto writer = a->start_write(file);
		Bytes const f(77, 12);
		for (int i = 0; i < frames; ++i) {
			writer->write(f.data(), f.size());
		}
		writer->finalize();
		w.asset = a;
		break;
	}
	default:
		break;
	}
	return w;
}

shared_ptr<dcp::Asset> load(Kind kind, string file)
{
	switch (kind) {
	case MONO: return make_shared<dcp::MonoJ2KPictureAsset>(file);
	case STEREO: return make_shared<dcp::StereoJ2KPictureAsset>(file);
	case SOUND: return make_shared<dcp::SoundAsset>(file);
	default: return make_shared<dcp::AtmosAsset>(file);
	}
}

/** Read a frame
 *  @return true if it is exactly as it was written.
 */
bool read(Kind kind, shared_ptr<dcp::Asset> asset, int n, bool hmac)
{
	auto const f = real_frame();
	switch (kind) {
	case MONO: {
		auto r = std::dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(asset)->start_read();
		r->set_check_hmac(hmac);
		auto x = r->get_frame(n);
		return x->size() == int(f.size()) && memcmp(x->data(), f.data(), f.size()) == 0;
	}
	case STEREO: {
		auto r = std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(asset)->start_read();
		r->set_check_hmac(hmac);
		auto x = r->get_frame(n);
		return
			x->left()->size() == int(f.size()) && memcmp(x->left()->data(), f.data(), f.size()) == 0 &&
			x->right()->size() == int(f.size()) && memcmp(x->right()->data(), f.data(), f.size()) == 0;
	}
	case SOUND: {
		auto r = std::dynamic_pointer_cast<dcp::SoundAsset>(asset)->start_read();
		r->set_check_hmac(hmac);
		auto x = r->get_frame(n);
		bool ok = x->samples() == 10;
		for (int i = 0; ok && i < 10; ++i) {
			ok = x->get(0, i) == 1234567 && x->get(1, i) == 1234567;
		}
		return ok;
	}
	default: {
		auto r = std::dynamic_pointer_cast<dcp::AtmosAsset>(asset)->start_read();
		r->set_check_hmac(hmac);
		auto x = r->get_frame(n);
		return x->size() == 77 && x->data()[0] == 12 && x->data()[76] == 12;
	}
	}
}

}

static Register locked("locked", 5000, 100000, "a wrong or missing key", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	auto const kind = static_cast<Kind>(s.draw(KINDS - 1));
	auto const standard = kind == ATMOS || s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	media::Lock lock;
	lock.generate(s, 100);
	int const frames = s.range(1, 3);
	auto const file = s.scratch() + "/x.mxf";
	write(kind, standard, lock, file, frames);
	auto asset = load(kind, file);
	auto mxf = std::dynamic_pointer_cast<dcp::MXF>(asset);
	check(mxf->encrypted(), "not encrypted");
	check(!mxf->key(), "key known already");
	check_eq(mxf->key_id().get_value_or("none"), *lock.id, "key ID");
	check(!mxf->can_be_read(), "can be read with no key");

	auto const what = s.weighted({1, 3});
	s.note("kind", int(kind));
	s.note("standard", standard == dcp::Standard::SMPTE ? "SMPTE" : "Interop");
	s.note("key", lock.key->hex() + (what == 0 ? " right" : " wrong"));
	s.label(what == 0 ? "right" : "wrong");
	dcp::Key key = *lock.key;
	if (what == 1) {
		uint8_t v[16];
		memcpy(v, key.value(), 16);
		if (s.boolean()) {
			v[s.draw(15)] ^= 1 << s.draw(7);
		} else {
			auto const by = 1 + s.draw(254);
			for (auto& i: v) {
				i += by;
			}
		}
		key = dcp::Key(v, 16);
		s.nontrivial();
	}
	mxf->set_key(key);
	check_eq(mxf->key_id().get_value_or("none"), *lock.id, "key ID after setting key");
	check_eq(mxf->can_be_read(), what == 0, "can be read with key");
	for (int i = 0; i < frames; ++i) {
		for (bool hmac: {true, false}) {
			try {
				bool const good = read(kind, asset, i, hmac);
				if (what == 0) {
					check(good, "frame " + std::to_string(i) + " is wrong");
				} else {
					fail("frame " + std::to_string(i) + " could be read with the wrong key");
				}
			} catch (dcp::ReadError&) {
				check(what, "frame " + std::to_string(i) + " could not be read with the right key");
			}
		}
	}
	/* Then use the right one */
	mxf->set_key(*lock.key);
	check(mxf->can_be_read(), "can't be read with right key");
	check(read(kind, asset, frames - 1, true), "last frame is wrong with right key");
});

static Register tampered("tampered", 3000, 60000, "all", [](Src& s) {
	/* A change to the encrypted data of any frame is noticed when that frame is read */
	Kumu::shim_seed(s.draw(0xffffffff));
	auto const kind = s.boolean() ? MONO : STEREO;
	auto const standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	media::Lock lock;
	lock.generate(s, 100);
	int const frames = s.range(1, 4);
	auto const file = s.scratch() + "/x.mxf";
	auto const w = write(kind, standard, lock, file, frames);
	auto const which = s.draw(w.info.size() - 1);
	auto const at = w.info[which].offset + s.draw(w.info[which].size - 1);
	{
		auto f = fopen(file.c_str(), "rb+");
		check(f, "(check) could not open");
		fseek(f, at, SEEK_SET);
		int const c = fgetc(f);
		fseek(f, at, SEEK_SET);
		fputc(c ^ (1 << s.draw(7)), f);
		fclose(f);
	}
	s.note("kind", int(kind));
	s.note("frames", frames);
	s.note("which", which);
	s.note("at", at - w.info[which].offset);
	s.nontrivial();
	auto asset = load(kind, file);
	std::dynamic_pointer_cast<dcp::MXF>(asset)->set_key(*lock.key);
	for (int i = 0; i < frames; ++i) {
		bool const bad = i == int(kind == STEREO ? which / 2 : which);
		try {
			bool const good = read(kind, asset, i, true);
			check(!bad, "changed frame could be read");
			check(good, "unchanged frame is wrong");
		} catch (dcp::ReadError&) {
			check(bad, "unchanged frame could not be read");
		}
	}
});
