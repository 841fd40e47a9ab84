/* Picture assets */

#include "media.h"
#include "asset_factory.h"
#include "equality_options.h"
#include "exceptions.h"
#include "font_asset.h"
#include "array_data.h"
#include "j2k_transcode.h"
#include "mono_j2k_picture_asset.h"
#include "mono_j2k_picture_asset_reader.h"
#include "mono_j2k_picture_asset_writer.h"
#include "mono_j2k_picture_frame.h"
#include "mono_mpeg2_picture_asset.h"
#include "mono_mpeg2_picture_asset_reader.h"
#include "mono_mpeg2_picture_asset_writer.h"
#include "mono_mpeg2_picture_frame.h"
#include "openjpeg_image.h"
#include "stereo_j2k_picture_asset.h"
#include "stereo_j2k_picture_asset_reader.h"
#include "stereo_j2k_picture_asset_writer.h"
#include "stereo_j2k_picture_frame.h"
#include <cmath>
#include <cstring>
#include <fstream>

using namespace pbt;
using media::Bytes;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

static full::Setup setup;

namespace {

struct Model
{
	bool stereo = false;
	dcp::Standard standard;
	dcp::Fraction rate;
	int width, height;
	string id;
	media::Lock lock;
	media::Tags tags;
	/** one for each eye if stereo, left first */
	vector<Bytes> frames;

	int64_t duration() const {
		return frames.size() / (stereo ? 2 : 1);
	}
};

void generate_format(Src& s, Model& m)
{
	Kumu::shim_seed(s.draw(0xffffffff));
	m.stereo = s.boolean();
	m.standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	m.rate = media::edit_rate(s);
	m.width = s.edgy(1, 4096, {1998, 2048, 3996, 4096});
	m.height = s.edgy(1, 2160, {858, 1080, 1716, 2160});
	m.lock.generate(s, 40);
	m.tags.generate(s);
	s.note("stereo", m.stereo);
	s.note("rate", m.rate.as_string());
	s.note("size", std::to_string(m.width) + "x" + std::to_string(m.height));
	s.note("encrypted", static_cast<bool>(m.lock.key));
	s.label(m.stereo ? "stereo" : "mono");
	s.label(m.lock.key ? "encrypted" : "plain");
}

void generate_frames(Src& s, Model& m, int max)
{
	int n = 0;
	string text;
	for (; s.more(n, 1, max, 80); ++n) {
		for (int eye = 0; eye < (m.stereo ? 2 : 1); ++eye) {
			m.frames.push_back(media::j2k(s, m.width, m.height, s.chance(5) ? 3000 : 60));
			text += " " + std::to_string(m.frames.back().size());
		}
	}
	s.note("frames", text);
}

shared_ptr<dcp::J2KPictureAsset> make(Model& m)
{
	shared_ptr<dcp::J2KPictureAsset> a;
	if (m.stereo) {
		a = make_shared<dcp::StereoJ2KPictureAsset>(m.rate, m.standard);
	} else {
		a = make_shared<dcp::MonoJ2KPictureAsset>(m.rate, m.standard);
	}
	m.id = a->id();
	m.lock.apply(*a);
	m.tags.apply(*a);
	return a;
}

shared_ptr<dcp::J2KPictureAsset> load(Model const& m, string file)
{
	if (m.stereo) {
		return make_shared<dcp::StereoJ2KPictureAsset>(file);
	}
	return make_shared<dcp::MonoJ2KPictureAsset>(file);
}

string hash(Bytes const& b)
{
	uint8_t d[MD5_DIGEST_LENGTH];
	MD5(b.data(), b.size(), d);
	string h;
	char buffer[4];
	for (auto i: d) {
		snprintf(buffer, sizeof(buffer), "%02x", i);
		h += buffer;
	}
	return h;
}

bool same(uint8_t const* data, int size, Bytes const& want)
{
	return size == static_cast<int>(want.size()) && memcmp(data, want.data(), size) == 0;
}

void compare(Model const& m, dcp::J2KPictureAsset const& a)
{
	check_eq(a.id(), m.id, "ID");
	check(a.standard() == m.standard, "different standard");
	check_eq(a.edit_rate().as_string(), m.rate.as_string(), "edit rate");
	check_eq(a.frame_rate().as_string(), dcp::Fraction(m.rate.numerator * (m.stereo ? 2 : 1), m.rate.denominator).as_string(), "frame rate");
	check_eq(a.size().width, m.width, "width");
	check_eq(a.size().height, m.height, "height");
	check_eq(a.screen_aspect_ratio().as_string(), dcp::Fraction(m.width, m.height).as_string(), "aspect ratio");
	check_eq(a.intrinsic_duration(), m.duration(), "intrinsic duration");
	m.tags.compare(a);

	if (m.stereo) {
		auto reader = dynamic_cast<dcp::StereoJ2KPictureAsset const&>(a).start_read();
		for (int i = 0; i < m.duration(); ++i) {
			auto f = reader->get_frame(i);
			check(same(f->left()->data(), f->left()->size(), m.frames[i * 2]), "left eye of frame " + std::to_string(i) + " is wrong");
			check(same(f->right()->data(), f->right()->size(), m.frames[i * 2 + 1]), "right eye of frame " + std::to_string(i) + " is wrong");
		}
		try {
			reader->get_frame(m.duration());
			fail("read frame beyond the end");
		} catch (dcp::ReadError&) {}
	} else {
		auto reader = dynamic_cast<dcp::MonoJ2KPictureAsset const&>(a).start_read();
		for (int i = 0; i < m.duration(); ++i) {
			auto f = reader->get_frame(i);
			check(same(f->data(), f->size(), m.frames[i]), "frame " + std::to_string(i) + " is wrong");
		}
		try {
			reader->get_frame(m.duration());
			fail("read frame beyond the end");
		} catch (dcp::ReadError&) {}
	}
}

void compare_again(Model const& m, string file)
{
	auto again = load(m, file);
	m.lock.unlock(*again);
	compare(m, *again);

	auto made = dcp::asset_factory(file, false);
	check_eq(static_cast<bool>(std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(made)), m.stereo, "recognised as stereo");
	check_eq(static_cast<bool>(std::dynamic_pointer_cast<dcp::MonoJ2KPictureAsset>(made)), !m.stereo, "recognised as mono");
	check_eq(made->id(), m.id, "ID of recognised asset");
}

vector<dcp::J2KFrameInfo> write_all(Model const& m, dcp::J2KPictureAssetWriter& writer, size_t from, size_t to)
{
	vector<dcp::J2KFrameInfo> info;
	for (auto i = from; i < to; ++i) {
		if (i % 2) {
			dcp::ArrayData d(m.frames[i].data(), m.frames[i].size());
			info.push_back(writer.write(d));
		} else {
			info.push_back(writer.write(m.frames[i].data(), m.frames[i].size()));
		}
	}
	return info;
}

/** Real images */
struct Image
{
	Bytes j2k;
	vector<int> pixels;
	int width;
};

vector<Image> const& images()
{
	static vector<Image> pool;
	if (pool.empty()) {
		for (int i = 0; i < 10; ++i) {
			dcp::Size const size(i == 9 ? 64 : 32, 32);
			auto image = make_shared<dcp::OpenJPEGImage>(size);
			for (int c = 0; c < 3; ++c) {
				for (int p = 0; p < size.width * size.height; ++p) {
					int const x = p % size.width;
					int const y = p / size.width;
					int v = 1000 + c * 200 + x * 20 + y * 5;
					switch (i) {
					case 1: v += 1; break;
					case 2: v += 8; break;
					case 3: v += c == 2 && x > 16 ? 40 : 0; break;
					case 4: v += x == 5 && y == 5 ? 900 : 0; break;
					case 5: v = 4095 - v; break;
					case 6: v += (x & 1) ? 3 : 0; break;
					case 7: v += c == 0 && y == 31 ? 60 : 0; break;
					case 8: v += c == 1 && x < 2 ? -2 : 0; break;
					}
					image->data(c)[p] = v;
				}
			}
			auto const c = dcp::compress_j2k(image, 100000000, 24, false, false);
			Image im;
			im.j2k.assign(c.data(), c.data() + c.size());
			auto const d = dcp::decompress_j2k(c, 0);
			for (int k = 0; k < 3; ++k) {
				im.pixels.insert(im.pixels.end(), d->data(k), d->data(k) + size.width * size.height);
			}
			im.width = size.width;
			pool.push_back(im);
		}
	}
	return pool;
}

}

static Register round_trip("round_trip", 4000, 100000, "more than one frame", [](Src& s) {
	Model m;
	generate_format(s, m);
	generate_frames(s, m, 6);
	auto asset = make(m);
	auto const file = s.scratch() + "/picture.mxf";
	auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
	auto const info = write_all(m, *writer, 0, m.frames.size());
	check(writer->finalize(), "finalize says that nothing was written");
	writer.reset();
	s.nontrivial_if(m.frames.size() > 1);

	auto const contents = media::read_file(file);
	for (size_t i = 0; i < info.size(); ++i) {
		if (i) {
			check_eq(info[i].offset, info[i - 1].offset + info[i - 1].size, "offset of frame " + std::to_string(i));
		}
		check(info[i].offset + info[i].size <= contents.size(), "frame is beyond the end of the file");
		Bytes const b(contents.begin() + info[i].offset, contents.begin() + info[i].offset + info[i].size);
		check_eq(info[i].hash, hash(b), "hash of frame " + std::to_string(i));
		if (!m.lock.key) {
			check(b == m.frames[i], "frame is not at its offset");
		} else {
			check(b.size() >= m.frames[i].size(), "frame is too small");
			check(std::search(b.begin(), b.end(), m.frames[i].begin(), m.frames[i].end()) == b.end(), "frame is not encrypted");
		}
	}

	check(asset->file() && asset->file()->string() == file, "asset's file is not what was written");
	compare(m, *asset);
	compare_again(m, file);

	if (m.stereo) {
		try {
			dcp::MonoJ2KPictureAsset mono(file);
			fail("stereo picture read as mono");
		} catch (dcp::MXFFileError&) {}
	} else {
		try {
			dcp::StereoJ2KPictureAsset stereo(file);
			fail("mono picture read as stereo");
		} catch (dcp::MXFFileError&) {}
	}
});

static Register marked("marked", 1500, 30000, "a stereo picture which is marked as mono", [](Src& s) {
	Model m;
	generate_format(s, m);
	m.stereo = s.chance(80);
	generate_frames(s, m, 3);
	auto asset = make(m);
	auto const file = s.scratch() + "/picture.mxf";
	auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
	write_all(m, *writer, 0, m.frames.size());
	writer->finalize();
	writer.reset();
	bool const wrong = m.stereo && s.chance(70);
	if (wrong) {
		/* Change what the stand-in will say that it is */
		auto contents = media::read_file(file);
		string const from = "kind=j2k-stereo";
		string const to = "kind=j2k-threed";
		auto i = std::search(contents.begin(), contents.end(), from.begin(), from.end());
		check(i != contents.end(), "(check) kind not found");
		std::copy(to.begin(), to.end(), i);
		std::ofstream(file, std::ios::binary).write(reinterpret_cast<char const*>(contents.data()), contents.size());
	}
	s.note("marked wrongly", wrong);
	s.label(wrong ? "marked wrongly" : "marked properly");
	s.nontrivial_if(wrong);

	bool found = false;
	auto made = std::dynamic_pointer_cast<dcp::J2KPictureAsset>(dcp::asset_factory(file, true, &found));
	check(static_cast<bool>(made), "not recognised");
	check_eq(found, wrong, "found to be marked wrongly");
	check_eq(static_cast<bool>(std::dynamic_pointer_cast<dcp::StereoJ2KPictureAsset>(made)), m.stereo, "recognised as stereo");
	m.lock.unlock(*made);
	compare(m, *made);

	found = false;
	try {
		dcp::asset_factory(file, false, &found);
		check(!wrong, "picture which is marked wrongly was accepted");
	} catch (dcp::MXFFileError&) {
		check(wrong, "picture refused");
	}
	check(!found, "found to be marked wrongly, when not looking");
});

static Register resume("resume", 4000, 100000, "more than one frame is kept from the first attempt", [](Src& s) {
	/* Writing stops part way through, and is taken up again */
	Model m;
	generate_format(s, m);
	generate_frames(s, m, 8);
	auto const file = s.scratch() + "/picture.mxf";
	auto const id_seed = s.draw(0xffffffff);
	auto const done = 1 + s.draw(m.frames.size() - 1);

	/* Some other things from the first time that will be overwritten */
	Model first = m;
	Kumu::shim_seed(id_seed);
	auto asset = make(first);
	vector<dcp::J2KFrameInfo> info;
	{
		auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
		info = write_all(first, *writer, 0, done);
		/* Maybe some bad frames beyond the ones that we will keep */
		int rubbish = 0;
		for (; s.more(rubbish, 0, 3, 40); ++rubbish) {
			auto const b = media::j2k(s, m.width, m.height, 80);
			writer->write(b.data(), b.size());
		}
		if (s.boolean()) {
			writer->finalize();
		}
	}

	/* The first frame must be written; others can be kept or written again */
	m.lock = first.lock;
	shared_ptr<dcp::J2KPictureAsset> other;
	if (s.boolean()) {
		other = asset;
		m.id = first.id;
	} else {
		/* Another object with the same ID, key and so on */
		Kumu::shim_seed(id_seed);
		other = make(m);
		check_eq(other->id(), first.id, "(check) ID");
	}
	auto writer = other->start_write(file, dcp::Behaviour::OVERWRITE_EXISTING);
	string text;
	int kept = 0;
	for (size_t i = 0; i < m.frames.size(); ++i) {
		if (i > 0 && i < done && s.chance(75)) {
			writer->fake_write(info[i]);
			text += 'k';
			++kept;
		} else {
			auto const again = writer->write(m.frames[i].data(), m.frames[i].size());
			text += 'w';
			if (i < done) {
				check_eq(again.size, info[i].size, "size of frame written again");
				check_eq(again.offset, info[i].offset, "offset of frame written again");
				if (!m.lock.key) {
					check_eq(again.hash, info[i].hash, "hash of frame written again");
				}
			}
		}
	}
	check(writer->finalize(), "finalize says that nothing was written");
	writer.reset();
	s.note("done", done);
	s.note("second", text);
	s.nontrivial_if(kept > 1);
	compare(m, *other);
	compare_again(m, file);
});

static Register refused("refused", 1000, 20000, "all", [](Src& s) {
	Model m;
	generate_format(s, m);
	auto asset = make(m);
	auto const file = s.scratch() + "/picture.mxf";
	{
		auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
		check(!writer->finalize(), "finalize says that something was written");
		check_eq(asset->intrinsic_duration(), int64_t(0), "intrinsic duration");
	}

	/* Not JPEG2000 */
	auto bad = media::j2k(s, m.width, m.height, 40);
	switch (s.draw(1)) {
	case 0:
		bad[s.draw(3)] ^= 1 << s.draw(7);
		break;
	case 1:
		bad.resize(s.draw(41));
		break;
	}
	int const good = s.draw(2);
	auto writer = asset->start_write(file, dcp::Behaviour::MAKE_NEW);
	m.frames.clear();
	for (int i = 0; i < good; ++i) {
		for (int j = 0; j < (m.stereo ? 2 : 1); ++j) {
			m.frames.push_back(media::j2k(s, m.width, m.height, 40));
			writer->write(m.frames.back().data(), m.frames.back().size());
		}
	}
	bad.reserve(1);
	try {
		writer->write(bad.data(), bad.size());
		fail("bad frame accepted");
	} catch (dcp::MiscError&) {}
	s.note("bad", bad.size());
	s.note("good", good);
	s.nontrivial();
	check_eq(writer->finalize(), good > 0, "something written");
	writer.reset();
	if (good > 0) {
		compare(m, *asset);
		compare_again(m, file);
	}

	/* Somewhere that can't be written */
	auto elsewhere = make(m);
	auto writer2 = elsewhere->start_write(s.scratch() + "/no/such/place.mxf", dcp::Behaviour::MAKE_NEW);
	auto const frame = media::j2k(s, m.width, m.height, 10);
	try {
		writer2->write(frame.data(), frame.size());
		fail("written in a directory which does not exist");
	} catch (dcp::MXFFileError&) {}
	try {
		load(m, s.scratch() + "/nothing.mxf");
		fail("read from a file which does not exist");
	} catch (dcp::MXFFileError&) {}
});

static Register mpeg2("mpeg2", 2500, 60000, "more than one frame", [](Src& s) {
	Kumu::shim_seed(s.draw(0xffffffff));
	auto const rate = media::edit_rate(s);
	int const width = 1 + s.draw(4094);
	int const height = 1 + s.draw(4094);
	int const aspect = s.range(2, 4);
	int const code = s.range(1, 8);
	dcp::MonoMPEG2PictureAsset asset(rate);
	media::Lock lock;
	lock.generate(s, 40);
	lock.apply(asset);
	media::Tags tags;
	tags.generate(s);
	tags.apply(asset);
	auto const file = s.scratch() + "/picture.mxf";
	auto writer = asset.start_write(file, dcp::Behaviour::MAKE_NEW);
	vector<Bytes> frames;
	int n = 0;
	uint64_t next = 0;
	for (; s.more(n, 1, 6, 75); ++n) {
		Bytes b;
		bool const start = n == 0 || s.chance(30);
		bool const closed = s.boolean();
		int const type = s.range(1, 3);
		int const temporal = s.draw(31);
		if (start) {
			b = { 0, 0, 1, 0xb3, uint8_t(width >> 4), uint8_t(((width & 15) << 4) | (height >> 8)), uint8_t(height & 255), uint8_t((aspect << 4) | code), 0, 0, 0, 0 };
			Bytes const gop = { 0, 0, 1, 0xb8, 0, 8, 0, uint8_t(closed ? 0x40 : 0) };
			b.insert(b.end(), gop.begin(), gop.end());
		}
		Bytes const picture = { 0, 0, 1, 0, uint8_t(temporal >> 2), uint8_t(((temporal & 3) << 6) | (type << 3)), 0, 0 };
		b.insert(b.end(), picture.begin(), picture.end());
		auto rest = s.bytes(0, 50);
		for (auto& i: rest) {
			i = i ? i : 7;
		}
		b.insert(b.end(), rest.begin(), rest.end());
		frames.push_back(b);
		auto const info = writer->write(b.data(), b.size());
		check_eq(int(info.type), type, "type of frame");
		check_eq(info.gop_start, start, "start of group");
		check_eq(info.closed_gop, start && closed, "closed group");
		check_eq(int(info.temporal_offset), temporal, "temporal offset");
		if (n) {
			check_eq(info.offset, next, "offset");
		}
		next = info.offset + info.size;
		if (!lock.key) {
			check_eq(info.hash, hash(b), "hash");
			check_eq(info.size, uint64_t(b.size()), "size");
		}
	}
	check(writer->finalize(), "finalize says that nothing was written");
	writer.reset();
	s.note("frames", n);
	s.note("size", std::to_string(width) + "x" + std::to_string(height));
	s.note("rate", rate.as_string());
	s.nontrivial_if(n > 1);

	auto compare = [&](dcp::MonoMPEG2PictureAsset const& a) {
		check_eq(a.id(), asset.id(), "ID");
		check(a.standard() == dcp::Standard::INTEROP, "not Interop");
		check_eq(a.edit_rate().as_string(), rate.as_string(), "edit rate");
		check_eq(a.intrinsic_duration(), int64_t(n), "intrinsic duration");
		check_eq(a.size().width, width, "width");
		check_eq(a.size().height, height, "height");
		check_eq(a.screen_aspect_ratio().as_float(), aspect == 2 ? 4.0f / 3 : aspect == 3 ? 16.0f / 9 : 2.21f, "aspect ratio");
		tags.compare(a);
		auto reader = a.start_read();
		for (int i = 0; i < n; ++i) {
			auto f = reader->get_frame(i);
			check(same(f->data(), f->size(), frames[i]), "frame " + std::to_string(i) + " is wrong");
		}
		try {
			reader->get_frame(n);
			fail("read frame beyond the end");
		} catch (dcp::ReadError&) {}
	};
	compare(asset);
	dcp::MonoMPEG2PictureAsset again(file);
	lock.unlock(again);
	compare(again);
	check(static_cast<bool>(std::dynamic_pointer_cast<dcp::MonoMPEG2PictureAsset>(dcp::asset_factory(file, false))), "not recognised as MPEG2");
});

static Register equality("equality", 1500, 30000, "some difference", [](Src& s) {
	auto const& pool = images();
	Kumu::shim_seed(s.draw(0xffffffff));
	bool const stereo = s.boolean();
	Model a, b;
	a.stereo = b.stereo = stereo;
	a.standard = b.standard = s.boolean() ? dcp::Standard::SMPTE : dcp::Standard::INTEROP;
	a.rate = b.rate = media::edit_rate(s);
	if (s.chance(10)) {
		b.rate = media::edit_rate(s);
	}
	a.lock.generate(s, 25);
	b.lock.generate(s, 25);
	a.tags.generate(s);
	b.tags.generate(s);
	int const eyes = stereo ? 2 : 1;
	vector<int> fa, fb;
	int const n = s.range(1, 4);
	for (int i = 0; i < n * eyes; ++i) {
		fa.push_back(s.draw(8));
	}
	fb = fa;
	string change = "none";
	switch (s.weighted({2, 5, 1, 1, 1})) {
	case 0:
		break;
	case 1: {
		int k = 0;
		for (; s.more(k, 1, 3, 40); ++k) {
			fb[s.draw(fb.size() - 1)] = s.draw(8);
		}
		change = "frames";
		break;
	}
	case 2:
		for (int i = 0; i < eyes * s.range(1, 2); ++i) {
			fb.push_back(fb[i % fb.size()]);
		}
		while (fb.size() % eyes) {
			fb.push_back(0);
		}
		change = "longer";
		break;
	case 3:
		if (n > 1) {
			fb.resize(eyes * s.range(1, n - 1));
		}
		change = "shorter";
		break;
	case 4:
		/* Size of the first, so the descriptor; or of another, perhaps */
		fb[s.draw(fb.size() - 1)] = 9;
		change = "size";
		break;
	}
	if (s.chance(15)) {
		std::swap(fa, fb);
	}
	for (auto i: fa) {
		a.frames.push_back(pool[i].j2k);
	}
	for (auto i: fb) {
		b.frames.push_back(pool[i].j2k);
	}

	dcp::EqualityOptions opt;
	opt.max_mean_pixel_error = s.pick({0.0, 0.0, 0.5, 1.0, 1.5, 5.0, 10.0, 5000.0});
	opt.max_std_dev_pixel_error = s.pick({0.0, 0.0, 0.4, 1.0, 1.6, 5.0, 25.0, 5000.0});
	opt.keep_going = s.boolean();

	/* What should happen */
	bool want = fa.size() == fb.size() && a.rate == b.rate && pool[fa[0]].width == pool[fb[0]].width;
	bool close = false;
	bool differ = fa != fb;
	for (size_t i = 0; i < std::min(fa.size(), fb.size()); ++i) {
		auto const& p = pool[fa[i]];
		auto const& q = pool[fb[i]];
		if (p.j2k == q.j2k) {
			continue;
		}
		if (p.pixels.size() != q.pixels.size()) {
			want = false;
			continue;
		}
		long double total = 0, squares = 0;
		for (size_t j = 0; j < p.pixels.size(); ++j) {
			long double const d = std::abs(p.pixels[j] - q.pixels[j]);
			total += d;
			squares += d * d;
		}
		auto const mean = total / p.pixels.size();
		auto const deviation = sqrtl(std::max(0.0L, squares / p.pixels.size() - mean * mean));
		close = close || fabsl(mean - opt.max_mean_pixel_error) < 1e-6 || fabsl(deviation - opt.max_std_dev_pixel_error) < 1e-3;
		if (mean > opt.max_mean_pixel_error || deviation > opt.max_std_dev_pixel_error) {
			want = false;
		}
	}
	s.note("a", show(fa));
	s.note("b", show(fb));
	s.note("mean allowed", opt.max_mean_pixel_error);
	s.note("deviation allowed", opt.max_std_dev_pixel_error);
	s.label(want ? "equal" : "not equal");
	if (close && fa.size() == fb.size()) {
		/* Too near to the limit to say */
		s.label("too near");
		return;
	}
	s.nontrivial_if(differ);

	auto write = [&](Model& m, string name) {
		auto x = make(m);
		auto w = x->start_write(s.scratch() + "/" + name, dcp::Behaviour::MAKE_NEW);
		write_all(m, *w, 0, m.frames.size());
		w->finalize();
		return x;
	};
	auto x = write(a, "a.mxf");
	auto y = write(b, "b.mxf");
	check(x->can_be_read(), "can't be read");
	check_eq(load(a, s.scratch() + "/a.mxf")->can_be_read(), !a.lock.key, "can be read without a key");

	int errors = 0;
	auto handler = [&errors](dcp::NoteType type, string) { errors += type == dcp::NoteType::ERROR; };
	check_eq(x->equals(y, opt, handler), want, "equal");
	check_eq(errors > 0, !want, "error noted");
	errors = 0;
	check_eq(y->equals(x, opt, handler), want, "equal, the other way round");
	check_eq(errors > 0, !want, "error noted, the other way round");
	errors = 0;
	check(x->equals(x, opt, handler), "not equal to itself");
	check(errors == 0, "errors noted when comparing something with itself");
	if (!a.stereo) {
		/* Something else */
		auto z = make_shared<dcp::FontAsset>(x->id(), s.scratch() + "/a.mxf");
		check(!x->equals(z, opt, handler), "equal to a font");
		check(!x->equals(make_shared<dcp::StereoJ2KPictureAsset>(a.rate, a.standard), opt, handler), "equal to a stereo picture");
	}
});
