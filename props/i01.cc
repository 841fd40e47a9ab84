/* I01: conversion of images between RGB and XYZ */

#include "full.h"
#include "chromaticity.h"
#include "colour_conversion.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include "openjpeg_image.h"
#include "piecewise_lut.h"
#include "rgb_xyz.h"
#include <cmath>

using pbt::check;
using pbt::check_eq;
using pbt::fail;
using pbt::Register;
using pbt::Src;
using std::make_shared;
using std::shared_ptr;
using std::string;
using std::vector;
using dcp::ColourConversion;

static full::Setup setup;

namespace {

double const DCI = 48.0 / 52.37;

/** A conversion and enough about it to work it out slowly */
struct Conversion
{
	ColourConversion conversion;
	string name;
	/** Gamma of the output */
	double gamma;
};

/* These are kept so that their tables do not need to be worked out each time */
vector<Conversion> const& conversions()
{
	static vector<Conversion> c;
	if (!c.empty()) {
		return c;
	}
	c.push_back({ ColourConversion::srgb_to_xyz(), "sRGB", 2.6 });
	c.push_back({ ColourConversion::rec601_to_xyz(), "rec601", 2.6 });
	c.push_back({ ColourConversion::rec709_to_xyz(), "rec709", 2.6 });
	c.push_back({ ColourConversion::p3_dci_to_xyz(), "P3 DCI", 2.6 });
	c.push_back({ ColourConversion::p3_d65_to_xyz(), "P3 D65", 2.6 });
	c.push_back({ ColourConversion::p3_d60_to_xyz(), "P3 D60", 2.6 });
	c.push_back({ ColourConversion::rec1886_to_xyz(), "rec1886", 2.6 });
	c.push_back({ ColourConversion::rec2020_to_xyz(), "rec2020", 2.6 });
	c.push_back({ ColourConversion::s_gamut3_to_xyz(), "S-Gamut3", 1 });
	vector<shared_ptr<dcp::TransferFunction>> in = {
		make_shared<dcp::GammaTransferFunction>(1.8),
		make_shared<dcp::ModifiedGammaTransferFunction>(2.4, 0.04045, 0.055, 12.92),
		make_shared<dcp::IdentityTransferFunction>(),
	};
	vector<std::pair<shared_ptr<dcp::TransferFunction>, double>> out = {
		{ make_shared<dcp::GammaTransferFunction>(2.6), 2.6 },
		{ make_shared<dcp::GammaTransferFunction>(2.2), 2.2 },
		{ make_shared<dcp::IdentityTransferFunction>(), 1 },
	};
	for (size_t i = 0; i < in.size(); ++i) {
		for (size_t o = 0; o < out.size(); ++o) {
			bool const adjust = (i + o) % 2;
			c.push_back({
				ColourConversion(
					in[i], dcp::YUVToRGB::REC709, dcp::Chromaticity(0.66, 0.32), dcp::Chromaticity(0.21, 0.71), dcp::Chromaticity(0.14, 0.05), dcp::Chromaticity(0.3127, 0.329),
					adjust ? boost::optional<dcp::Chromaticity>(dcp::Chromaticity(0.314, 0.351)) : boost::optional<dcp::Chromaticity>(), out[o].first
					),
				"own " + std::to_string(i) + " " + std::to_string(o), out[o].second
				});
		}
	}
	return c;
}

struct Picture
{
	dcp::Size size;
	int stride;
	vector<uint8_t> data;

	uint16_t get(int x, int y, int c) const
	{
		auto const p = &data[y * stride + x * 6 + c * 2];
		return p[0] | (p[1] << 8);
	}
};

int value(Src& s, int max)
{
	switch (s.weighted({ 40, 30, 15, 15 })) {
	case 0:
		return s.draw(max);
	case 1:
		return s.skewed(0, max);
	case 2:
		return max - s.draw(max / 50);
	default:
		return s.pick({ 0, max });
	}
}

Picture picture(Src& s)
{
	Picture p;
	p.size = dcp::Size(s.range(1, 12), s.range(1, 6));
	p.stride = p.size.width * 6 + (s.boolean() ? 2 * s.draw(10) : 0);
	p.data.resize(p.stride * p.size.height, 0xaa);
	bool const grey = s.chance(20);
	for (int y = 0; y < p.size.height; ++y) {
		for (int x = 0; x < p.size.width; ++x) {
			int v = value(s, 65535);
			for (int c = 0; c < 3; ++c) {
				if (!grey && c) {
					v = value(s, 65535);
				}
				p.data[y * p.stride + x * 6 + c * 2] = v & 0xff;
				p.data[y * p.stride + x * 6 + c * 2 + 1] = v >> 8;
			}
		}
	}
	return p;
}

string where(int x, int y, int c)
{
	return "component " + std::to_string(c) + " of (" + std::to_string(x) + ", " + std::to_string(y) + ")";
}

/** Whole product for conversion from linear RGB, from the parts of it */
void product(ColourConversion const& c, double* m)
{
	auto const a = c.bradford();
	auto const b = c.rgb_to_xyz();
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			double t = 0;
			for (int k = 0; k < 3; ++k) {
				t += a(i, k) * b(k, j);
			}
			m[i * 3 + j] = t * DCI;
		}
	}
}

Register to_xyz("to_xyz", 6000, 150000, "all", [](Src& s) {
	auto const& c = conversions()[s.draw(conversions().size() - 1)];
	auto const p = picture(s);
	s.note("conversion", c.name);
	s.note("size", std::to_string(p.size.width) + "x" + std::to_string(p.size.height) + " stride " + std::to_string(p.stride) + " first " + std::to_string(p.get(0, 0, 0)) + " " + std::to_string(p.get(0, 0, 1)) + " " + std::to_string(p.get(0, 0, 2)));
	s.nontrivial();
	double m[9], got_m[9];
	product(c.conversion, m);
	dcp::combined_rgb_to_xyz(c.conversion, got_m);
	for (int i = 0; i < 9; ++i) {
		check(std::fabs(m[i] - got_m[i]) < 1e-9, "combined matrix is wrong");
	}
	auto const got = dcp::rgb_to_xyz(p.data.data(), p.size, p.stride, c.conversion);
	check(got->size() == p.size, "wrong size");
	int const pixels = p.size.width * p.size.height;
	vector<uint16_t> packed(pixels * 3 + 1, 0x5555);
	dcp::rgb_to_xyz(p.data.data(), packed.data(), p.size, p.stride, c.conversion);
	check_eq(packed[pixels * 3], uint16_t(0x5555), "value after packed image");
	auto const& in = c.conversion.in()->double_lut(0, 1, 12, false);
	for (int y = 0; y < p.size.height; ++y) {
		for (int x = 0; x < p.size.width; ++x) {
			int const n = y * p.size.width + x;
			double rgb[3];
			for (int i = 0; i < 3; ++i) {
				rgb[i] = in[p.get(x, y, i) >> 4];
			}
			for (int i = 0; i < 3; ++i) {
				int const v = got->data(i)[n];
				check_eq(int(packed[n * 3 + i]), v, "packed " + where(x, y, i), "");
				check(v >= 0 && v <= 4095, where(x, y, i) + " is out of range");
				if (c.gamma == 0) {
					continue;
				}
				double const linear = std::min(1.0, std::max(0.0, m[i * 3] * rgb[0] + m[i * 3 + 1] * rgb[1] + m[i * 3 + 2] * rgb[2]));
				/* Tables are used which are of this resolution in their two parts */
				double const step = (linear < 0.0619 ? 0.062 / 65535 : 0.938 / 4095) * 0.51;
				double const lo = std::pow(std::max(0.0, linear - step), 1 / c.gamma) * 4095 - 1.01;
				double const hi = std::pow(std::min(1.0, linear + step), 1 / c.gamma) * 4095 + 1.01;
				check(v >= lo && v <= hi, where(x, y, i) + " is " + std::to_string(v) + " but should be from " + std::to_string(lo) + " to " + std::to_string(hi));
			}
		}
	}
	/* What's been truncated to 12 bits makes no difference */
	auto q = p;
	for (int y = 0; y < p.size.height; ++y) {
		for (int i = 0; i < p.size.width * 3; ++i) {
			auto& b = q.data[y * p.stride + i * 2];
			b = (b & 0xf0) | s.draw(15);
		}
	}
	auto const again = dcp::rgb_to_xyz(q.data.data(), q.size, q.stride, c.conversion);
	for (int i = 0; i < 3; ++i) {
		check(std::equal(got->data(i), got->data(i) + pixels, again->data(i)), "lowest bits made a difference");
	}
});

Register from_xyz("from_xyz", 5000, 120000, "something was out of range", [](Src& s) {
	auto const& c = conversions()[s.draw(conversions().size() - 1)];
	dcp::Size const size(s.range(1, 12), s.range(1, 6));
	auto image = make_shared<dcp::OpenJPEGImage>(size);
	bool const outside = s.boolean();
	int wild = 0;
	for (int i = 0; i < size.width * size.height; ++i) {
		for (int j = 0; j < 3; ++j) {
			int v = value(s, 4095);
			if (outside && s.chance(10)) {
				v = s.boolean() ? 4096 + s.skewed(0, 1 << 20) : -1 - s.skewed(0, 1 << 20);
				++wild;
			}
			image->data(j)[i] = v;
		}
	}
	s.note("conversion", c.name);
	s.note("size", std::to_string(size.width) + "x" + std::to_string(size.height) + " first " + std::to_string(image->data(0)[0]) + " " + std::to_string(image->data(1)[0]) + " " + std::to_string(image->data(2)[0]));
	s.note("out of range", wild);
	s.nontrivial_if(wild);
	int const extra = s.boolean() ? 2 * s.draw(10) : 0;
	Picture got;
	got.size = size;
	got.stride = size.width * 6 + extra;
	got.data.resize(got.stride * size.height, 0xaa);
	int notes = 0;
	if (wild || s.boolean()) {
		dcp::xyz_to_rgb(image, c.conversion, got.data.data(), got.stride, dcp::NoteHandler([&](dcp::NoteType, string) { ++notes; }));
		check_eq(notes, wild, "number of notes");
	} else {
		dcp::xyz_to_rgb(image, c.conversion, got.data.data(), got.stride);
	}
	int const stride = size.width * 4 + extra;
	vector<uint8_t> rgba(stride * size.height, 0xaa);
	if (!wild) {
		dcp::xyz_to_rgba(image, c.conversion, rgba.data(), stride);
	}
	auto const m = c.conversion.xyz_to_rgb();
	auto const& in = c.conversion.out()->double_lut(0, 1, 12, false);
	auto const& out = c.conversion.in()->double_lut(0, 1, 16, true);
	for (int y = 0; y < size.height; ++y) {
		for (int x = 0; x < size.width; ++x) {
			double xyz[3];
			for (int i = 0; i < 3; ++i) {
				xyz[i] = in[std::max(0, std::min(4095, image->data(i)[y * size.width + x]))] / DCI;
			}
			for (int i = 0; i < 3; ++i) {
				double const linear = std::min(1.0, std::max(0.0, m(i, 0) * xyz[0] + m(i, 1) * xyz[1] + m(i, 2) * xyz[2]));
				int const a = std::floor(linear * 65535 - 0.501);
				double lo = 1, hi = 0;
				for (int j = std::max(0, a); j <= std::min(65535, a + 2); ++j) {
					if (std::fabs(j - linear * 65535) > 0.501) {
						continue;
					}
					lo = std::min(lo, out[j]);
					hi = std::max(hi, out[j]);
				}
				int const v = got.get(x, y, i);
				check(v >= lo * 65535 - 1 && v <= hi * 65535 + 1, where(x, y, i) + " is " + std::to_string(v) + " but should be about " + std::to_string(lo * 65535));
				if (!wild) {
					int const w = rgba[y * stride + x * 4 + 2 - i];
					check(w >= lo * 255 - 1 && w <= hi * 255 + 1, "RGBA " + where(x, y, i) + " is " + std::to_string(w) + " but should be about " + std::to_string(lo * 255));
				}
			}
			if (!wild) {
				check_eq(int(rgba[y * stride + x * 4 + 3]), 255, "alpha");
			}
		}
		for (int i = 0; i < extra; ++i) {
			check_eq(int(got.data[y * got.stride + size.width * 6 + i]), 0xaa, "value after end of line");
			if (!wild) {
				check_eq(int(rgba[y * stride + size.width * 4 + i]), 0xaa, "value after end of line");
			}
		}
	}
});

/** Colours which both sides can represent survive being converted and back, if there is no adjustment to the white point */
Register there_and_back("there_and_back", 3000, 80000, "all", [](Src& s) {
	auto const& c = conversions()[s.draw(conversions().size() - 1)];
	/* S-Gamut3's curve is steep enough that the steps in the tables are large */
	if (c.conversion.adjusted_white() || c.gamma == 0 || c.name == "S-Gamut3") {
		s.discard();
	}
	auto const p = picture(s);
	s.nontrivial();
	s.note("conversion", c.name);
	s.note("first", std::to_string(p.get(0, 0, 0)) + " " + std::to_string(p.get(0, 0, 1)) + " " + std::to_string(p.get(0, 0, 2)));
	auto const xyz = dcp::rgb_to_xyz(p.data.data(), p.size, p.stride, c.conversion);
	Picture q = p;
	dcp::xyz_to_rgb(xyz, c.conversion, q.data.data(), q.stride);
	for (int y = 0; y < p.size.height; ++y) {
		for (int x = 0; x < p.size.width; ++x) {
			bool clipped = false;
			double darkest = 1;
			for (int i = 0; i < 3; ++i) {
				clipped = clipped || xyz->data(i)[y * p.size.width + x] == 4095;
				darkest = std::min(darkest, p.get(x, y, i) / 65535.0);
			}
			if (clipped || darkest < 0.3) {
				/* Dark colours have large errors when one component is much larger than the others */
				continue;
			}
			for (int i = 0; i < 3; ++i) {
				check(std::abs(int(q.get(x, y, i)) - int(p.get(x, y, i))) < 650, where(x, y, i) + " went from " + std::to_string(p.get(x, y, i)) + " to " + std::to_string(q.get(x, y, i)));
			}
		}
	}
});

Register planes("planes", 4000, 80000, "all", [](Src& s) {
	auto const p = picture(s);
	dcp::OpenJPEGImage const image(p.data.data(), p.size, p.stride);
	s.nontrivial();
	s.note("size", std::to_string(p.size.width) + "x" + std::to_string(p.size.height) + " stride " + std::to_string(p.stride));
	check(image.size() == p.size, "size");
	dcp::OpenJPEGImage copy(image);
	check(copy.size() == p.size, "size of copy");
	for (int c = 0; c < 3; ++c) {
		check_eq(image.precision(c), 12, "precision");
		for (int y = 0; y < p.size.height; ++y) {
			for (int x = 0; x < p.size.width; ++x) {
				check_eq(image.data(c)[y * p.size.width + x], p.get(x, y, c) >> 4, where(x, y, c), "");
				check_eq(copy.data(c)[y * p.size.width + x], p.get(x, y, c) >> 4, where(x, y, c) + " in copy", "");
				copy.data(c)[y * p.size.width + x] = 99999;
				check_eq(image.data(c)[y * p.size.width + x], p.get(x, y, c) >> 4, where(x, y, c) + " after changing the copy", "");
			}
		}
	}
});

}
