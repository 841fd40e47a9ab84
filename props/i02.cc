/* I02: compression and decompression of JPEG2000 */

#include "full.h"
#include "array_data.h"
#include "exceptions.h"
#include "j2k_transcode.h"
#include "mono_j2k_picture_frame.h"
#include "openjpeg_image.h"
#include "verify_j2k.h"
#include <openjpeg.h>
#include <cmath>
#include <cstring>
#include <fstream>

using pbt::check;
using pbt::check_eq;
using pbt::fail;
using pbt::Register;
using pbt::Src;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;

static full::Setup setup;

namespace {

typedef vector<uint8_t> Bytes;

struct Image
{
	dcp::Size size;
	vector<int> c[3];

	string show() const
	{
		return std::to_string(size.width) + "x" + std::to_string(size.height);
	}

	shared_ptr<dcp::OpenJPEGImage> openjpeg() const
	{
		auto i = make_shared<dcp::OpenJPEGImage>(size);
		for (int n = 0; n < 3; ++n) {
			std::copy(c[n].begin(), c[n].end(), i->data(n));
		}
		return i;
	}
};

/** Smooth shapes with some detail */
Image image(Src& s, dcp::Size size)
{
	Image i;
	i.size = size;
	for (int n = 0; n < 3; ++n) {
		i.c[n].resize(size.width * size.height);
		int const base = s.draw(4095);
		int const dx = s.irange(-8, 8);
		int const dy = s.irange(-8, 8);
		int const noise = s.pick({ 0, 0, 5, 200 });
		uint32_t r = s.draw(0xffff) + 1;
		int const line = s.draw(size.width - 1);
		for (int y = 0; y < size.height; ++y) {
			for (int x = 0; x < size.width; ++x) {
				r = r * 1664525 + 1013904223;
				int v = base + x * dx + y * dy;
				if (x == line) {
					v += 500;
				}
				if (noise) {
					v += int((r >> 8) % (noise * 2)) - noise;
				}
				i.c[n][y * size.width + x] = std::max(0, std::min(4095, v));
			}
		}
	}
	return i;
}

/* Compression and decompression with no help from the library */

struct Memory
{
	Bytes* data;
	size_t at;
};

OPJ_SIZE_T write(void* b, OPJ_SIZE_T n, void* m)
{
	auto me = static_cast<Memory*>(m);
	if (me->at + n > me->data->size()) {
		me->data->resize(me->at + n);
	}
	memcpy(me->data->data() + me->at, b, n);
	me->at += n;
	return n;
}

OPJ_SIZE_T read(void* b, OPJ_SIZE_T n, void* m)
{
	auto me = static_cast<Memory*>(m);
	auto const left = me->data->size() - me->at;
	if (left == 0) {
		return static_cast<OPJ_SIZE_T>(-1);
	}
	n = std::min(n, left);
	memcpy(b, me->data->data() + me->at, n);
	me->at += n;
	return n;
}

OPJ_OFF_T skip(OPJ_OFF_T n, void* m)
{
	auto me = static_cast<Memory*>(m);
	me->at += n;
	if (me->at > me->data->size()) {
		me->data->resize(me->at);
	}
	return n;
}

OPJ_BOOL seek(OPJ_OFF_T n, void* m)
{
	static_cast<Memory*>(m)->at = n;
	return OPJ_TRUE;
}

/** Compress something without loss */
Bytes lossless(Image const& i, OPJ_CODEC_FORMAT format, int resolutions, int offset_x = 0, int offset_y = 0)
{
	auto e = opj_create_compress(format);
	opj_cparameters_t p;
	opj_set_default_encoder_parameters(&p);
	p.tcp_numlayers = 1;
	p.tcp_rates[0] = 0;
	p.cp_disto_alloc = 1;
	p.numresolution = resolutions;
	auto o = i.openjpeg();
	p.image_offset_x0 = offset_x;
	p.image_offset_y0 = offset_y;
	o->opj_image()->x0 += offset_x;
	o->opj_image()->x1 += offset_x;
	o->opj_image()->y0 += offset_y;
	o->opj_image()->y1 += offset_y;
	check(opj_setup_encoder(e, &p, o->opj_image()), "could not set up encoder");
	auto st = opj_stream_default_create(OPJ_FALSE);
	Bytes d;
	Memory m = { &d, 0 };
	opj_stream_set_write_function(st, write);
	opj_stream_set_seek_function(st, seek);
	opj_stream_set_skip_function(st, skip);
	opj_stream_set_user_data(st, &m, nullptr);
	check(opj_start_compress(e, o->opj_image(), st) && opj_encode(e, st) && opj_end_compress(e, st), "could not encode");
	opj_stream_destroy(st);
	opj_destroy_codec(e);
	return d;
}

struct Decoded
{
	int width = 0;
	int height = 0;
	vector<int> c[3];
};

Decoded decode(Bytes d, OPJ_CODEC_FORMAT format, int reduce)
{
	auto e = opj_create_decompress(format);
	opj_dparameters_t p;
	opj_set_default_decoder_parameters(&p);
	p.cp_reduce = reduce;
	opj_setup_decoder(e, &p);
	auto st = opj_stream_default_create(OPJ_TRUE);
	Memory m = { &d, 0 };
	opj_stream_set_read_function(st, read);
	opj_stream_set_user_data(st, &m, nullptr);
	opj_stream_set_user_data_length(st, d.size());
	opj_image_t* i = nullptr;
	check(opj_read_header(st, e, &i) && opj_decode(e, st, i), "could not decode");
	Decoded r;
	r.width = i->comps[0].w;
	r.height = i->comps[0].h;
	for (int n = 0; n < 3; ++n) {
		r.c[n].assign(i->comps[n].data, i->comps[n].data + r.width * r.height);
	}
	opj_image_destroy(i);
	opj_stream_destroy(st);
	opj_destroy_codec(e);
	return r;
}

/** @return a number of resolutions which is possible for an image */
int some_resolutions(Src& s, Image const& i)
{
	int most = 1;
	while (most < 6 && (1 << most) <= std::min(i.size.width, i.size.height)) {
		++most;
	}
	return s.range(1, most);
}

dcp::Size some_size(Src& s)
{
	return dcp::Size(s.edgy(1, 130, { 32, 33, 64, 65 }), s.edgy(1, 70, { 32, 33 }));
}

void compare(dcp::OpenJPEGImage const& got, Decoded const& want)
{
	check_eq(got.size().width, want.width, "width");
	check_eq(got.size().height, want.height, "height");
	for (int c = 0; c < 3; ++c) {
		for (int i = 0; i < want.width * want.height; ++i) {
			check_eq(got.data(c)[i], want.c[c][i], "value " + std::to_string(i) + " of component " + std::to_string(c), "");
		}
	}
}

Register decompress("decompress", 3000, 60000, "the size is reduced", [](Src& s) {
	auto const i = image(s, some_size(s));
	auto const format = s.boolean() ? OPJ_CODEC_J2K : OPJ_CODEC_JP2;
	int const resolutions = some_resolutions(s, i);
	int const reduce = s.boolean() ? 0 : s.draw(resolutions - 1);
	s.note("size", i.show());
	s.note("JP2", format == OPJ_CODEC_JP2);
	s.note("reduce", reduce);
	s.nontrivial_if(reduce);
	bool const offset = s.chance(30);
	int const x0 = offset ? s.range(0, 40) : 0;
	int const y0 = offset ? s.range(0, 40) : 0;
	s.note("offset", std::to_string(x0) + "," + std::to_string(y0));
	auto const d = lossless(i, format, resolutions, x0, y0);
	shared_ptr<dcp::OpenJPEGImage> got;
	switch (s.draw(4)) {
	case 0:
		got = dcp::decompress_j2k(d.data(), d.size(), reduce);
		break;
	case 1:
		got = dcp::decompress_j2k(dcp::ArrayData(d.data(), d.size()), reduce);
		break;
	case 2:
		got = dcp::decompress_j2k(std::shared_ptr<const dcp::Data>(new dcp::ArrayData(d.data(), d.size())), reduce);
		break;
	case 3:
		got = dcp::MonoJ2KPictureFrame(d.data(), d.size()).xyz_image(reduce);
		break;
	case 4:
	{
		auto const file = s.scratch() + "/frame";
		std::ofstream(file, std::ios::binary).write(reinterpret_cast<char const*>(d.data()), d.size());
		got = dcp::MonoJ2KPictureFrame(file).xyz_image(reduce);
		break;
	}
	}
	auto const want = decode(d, format, reduce);
	compare(*got, want);
	if (reduce == 0) {
		for (int n = 0; n < 3; ++n) {
			check(std::equal(i.c[n].begin(), i.c[n].end(), got->data(n)), "image is not the same");
		}
	}
});

Register damaged("damaged", 3000, 80000, "all", [](Src& s) {
	auto const i = image(s, some_size(s));
	auto const format = s.boolean() ? OPJ_CODEC_J2K : OPJ_CODEC_JP2;
	auto d = lossless(i, format, some_resolutions(s, i));
	s.note("size", i.show());
	s.nontrivial();
	switch (s.draw(3)) {
	case 0:
		d.resize(s.draw(d.size() - 1));
		s.note("cut to", d.size());
		break;
	case 1:
		/* Headers are more interesting */
		for (int n = 0; s.more(n, 1, 6, 60); ++n) {
			auto const at = s.draw(std::min<size_t>(d.size() - 1, s.boolean() ? 200 : 100000));
			d[at] = s.draw(255);
			s.note("changed", at);
		}
		break;
	case 2:
		d = s.bytes(0, 60);
		break;
	case 3:
		for (size_t n = d.size() / 2; n < d.size(); ++n) {
			d[n] = 0;
		}
		break;
	}
	/* Don't be asked for huge images */
	for (size_t n = 0; n + 46 < d.size(); ++n) {
		if (d[n] == 0xff && d[n + 1] == 0x51) {
			for (int f = 0; f < 8; ++f) {
				d[n + 6 + f * 4] = d[n + 7 + f * 4] = 0;
				d[n + 8 + f * 4] &= 1;
			}
			break;
		}
	}
	auto const copy = d;
	try {
		auto got = dcp::decompress_j2k(d.data(), d.size(), 0);
		check(bool(got), "nothing was returned");
		/* All of it should be there */
		check(got->opj_image()->comps[0].w == uint32_t(got->size().width) && got->opj_image()->comps[0].h == uint32_t(got->size().height), "size is not that of the data");
		int64_t total = 0;
		for (int c = 0; c < 3; ++c) {
			auto const& comp = got->opj_image()->comps[c];
			if (comp.data && comp.w == uint32_t(got->size().width) && comp.h == uint32_t(got->size().height)) {
				for (int n = 0; n < got->size().width * got->size().height; ++n) {
					total += got->data(c)[n];
				}
			}
		}
		s.label(total ? "decoded" : "decoded to nothing");
	} catch (dcp::ReadError&) {
		s.label("refused");
	} catch (dcp::J2KDecompressionError&) {
		s.label("refused");
	} catch (dcp::ProgrammingError&) {
		s.label("refused");
	}
	check(d == copy, "data has been changed");
});

Register compress("compress", 250, 5000, "the bandwidth limits the size", [](Src& s) {
	bool const fourk = s.chance(15);
	dcp::Size const size = fourk ? dcp::Size(2049 + s.draw(100), s.range(64, 100)) : dcp::Size(s.range(32, 400), s.range(32, 200));
	auto const i = image(s, size);
	int const fps = s.pick({ 24, 25, 30, 48, 60 });
	bool const threed = s.boolean();
	/* Often give little enough that it makes a difference */
	int bandwidth = s.boolean() ? 250000000 : s.range(2000, 30000) * 8 * fps;
	string const comment = s.str("abc XYZ0123", 1, 40);
	s.note("size", i.show());
	s.note("fps", fps);
	s.note("bandwidth", bandwidth);
	s.note("3D", threed);
	int const limit = (bandwidth / 8) / fps / (threed ? 2 : 1);
	auto const d = dcp::compress_j2k(i.openjpeg(), bandwidth, fps, threed, fourk, comment);
	check(d.size() > 0, "nothing was made");
	/* OpenJPEG does not count its headers */
	check(d.size() <= limit + 300, "too large: " + std::to_string(d.size()) + " bytes rather than " + std::to_string(limit));
	s.nontrivial_if(d.size() > limit * 0.8);
	check(string(reinterpret_cast<char const*>(d.data()), d.size()).find(comment) != string::npos, "comment is not there");

	auto const back = dcp::decompress_j2k(d, 0);
	check(back->size() == size, "wrong size");
	compare(*back, decode(Bytes(d.data(), d.data() + d.size()), OPJ_CODEC_J2K, 0));
	if (bandwidth == 250000000) {
		double total = 0;
		for (int c = 0; c < 3; ++c) {
			for (int n = 0; n < size.width * size.height; ++n) {
				total += std::pow(back->data(c)[n] - i.c[c][n], 2);
			}
		}
		double const rms = std::sqrt(total / (3 * size.width * size.height));
		check(rms < 20, "image is different by " + std::to_string(rms));
	}

	vector<dcp::VerificationNote> notes;
	dcp::verify_j2k(make_shared<dcp::ArrayData>(d), 0, 0, fps, notes);
	for (auto const& n: notes) {
		fail("verification of what was made: " + dcp::note_to_string(n));
	}
});

}
