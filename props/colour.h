/* What the colour checks share */

#ifndef VERIF_COLOUR_H
#define VERIF_COLOUR_H

#include "pbt.h"
#include "colour_conversion.h"
#include "gamma_transfer_function.h"
#include "identity_transfer_function.h"
#include "modified_gamma_transfer_function.h"
#include "s_gamut3_transfer_function.h"
#include <array>
#include <cmath>

typedef std::array<std::array<double, 3>, 3> M3;
typedef std::array<double, 3> V3;

inline M3 from_ublas(boost::numeric::ublas::matrix<double> const& m)
{
	pbt::check(m.size1() == 3 && m.size2() == 3, "matrix is not 3x3");
	M3 o;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			o[i][j] = m(i, j);
		}
	}
	return o;
}

inline M3 mul(M3 const& a, M3 const& b)
{
	M3 o;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			o[i][j] = a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j];
		}
	}
	return o;
}

inline V3 mul(M3 const& a, V3 const& v)
{
	V3 o;
	for (int i = 0; i < 3; ++i) {
		o[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2];
	}
	return o;
}

inline double det(M3 const& m)
{
	return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1])
		- m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
		+ m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
}

inline M3 invert(M3 const& m)
{
	double const d = det(m);
	M3 o;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			int const a = (j + 1) % 3, b = (j + 2) % 3, c = (i + 1) % 3, e = (i + 2) % 3;
			o[i][j] = (m[a][c] * m[b][e] - m[a][e] * m[b][c]) / d;
		}
	}
	return o;
}

inline double norm(M3 const& m)
{
	double n = 0;
	for (auto const& r: m) {
		for (auto v: r) {
			n = std::max(n, std::fabs(v));
		}
	}
	return n;
}

inline void close(double a, double b, double tol, std::string const& what)
{
	if (!(std::fabs(a - b) <= tol)) {
		pbt::fail(what + ": got " + pbt::show(a) + ", expected " + pbt::show(b) + " within " + pbt::show(tol));
	}
}

inline void close(M3 const& a, M3 const& b, double tol, std::string const& what)
{
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			close(a[i][j], b[i][j], tol, what + " (" + std::to_string(i) + "," + std::to_string(j) + ")");
		}
	}
}

inline std::string show_c(dcp::Chromaticity const& c)
{
	return pbt::show(c.x) + "," + pbt::show(c.y);
}

/** XYZ of a chromaticity with Y = 1 */
inline V3 xyz(dcp::Chromaticity const& c)
{
	return {{c.x / c.y, 1, (1 - c.x - c.y) / c.y}};
}

/** The matrix which takes RGB to XYZ, found by solving for the amounts of each primary which give white */
inline M3 model_rgb_to_xyz(dcp::Chromaticity r, dcp::Chromaticity g, dcp::Chromaticity b, dcp::Chromaticity w)
{
	M3 const p = {{{{r.x, g.x, b.x}}, {{r.y, g.y, b.y}}, {{1 - r.x - r.y, 1 - g.x - g.y, 1 - b.x - b.y}}}};
	auto const s = mul(invert(p), xyz(w));
	M3 o = p;
	for (int i = 0; i < 3; ++i) {
		for (int j = 0; j < 3; ++j) {
			o[i][j] *= s[j];
		}
	}
	return o;
}

struct Preset
{
	char const* name;
	dcp::ColourConversion const& (*get)();
	double gamma; ///< 0 for sRGB, -1 for S-Log3
	dcp::YUVToRGB yuv;
	double r[2], g[2], b[2], w[2];
	double out; ///< 0 for identity
};

inline std::vector<Preset> const& presets()
{
	using namespace dcp;
	static std::vector<Preset> const p = {
		{ "srgb", ColourConversion::srgb_to_xyz, 0, YUVToRGB::REC601, {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.3290}, 2.6 },
		{ "rec601", ColourConversion::rec601_to_xyz, 2.2, YUVToRGB::REC601, {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.3290}, 2.6 },
		{ "rec709", ColourConversion::rec709_to_xyz, 2.2, YUVToRGB::REC709, {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.3290}, 2.6 },
		{ "p3_dci", ColourConversion::p3_dci_to_xyz, 2.6, YUVToRGB::REC709, {0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}, {0.314, 0.351}, 2.6 },
		{ "p3_d65", ColourConversion::p3_d65_to_xyz, 2.6, YUVToRGB::REC709, {0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}, {0.3127, 0.3290}, 2.6 },
		{ "p3_d60", ColourConversion::p3_d60_to_xyz, 2.6, YUVToRGB::REC709, {0.68, 0.32}, {0.265, 0.69}, {0.15, 0.06}, {0.32168, 0.33767}, 2.6 },
		{ "rec1886", ColourConversion::rec1886_to_xyz, 2.4, YUVToRGB::REC709, {0.64, 0.33}, {0.3, 0.6}, {0.15, 0.06}, {0.3127, 0.3290}, 2.6 },
		{ "rec2020", ColourConversion::rec2020_to_xyz, 2.4, YUVToRGB::REC2020, {0.708, 0.292}, {0.170, 0.797}, {0.131, 0.046}, {0.3127, 0.3290}, 2.6 },
		{ "s_gamut3", ColourConversion::s_gamut3_to_xyz, -1, YUVToRGB::REC709, {0.73, 0.280}, {0.140, 0.855}, {0.100, -0.050}, {0.3127, 0.3290}, 0 },
	};
	return p;
}

inline dcp::Chromaticity gen_chromaticity(pbt::Src& s, double xl = 0.02, double xh = 0.8, double yl = 0.02, double yh = 0.85)
{
	return dcp::Chromaticity(s.real(xl, xh), s.real(yl, yh));
}

/** Primaries and a white inside the triangle that they make */
struct Gamut
{
	dcp::Chromaticity r, g, b, w;
	bool preset = false;
	std::string name;
};

inline Gamut gen_gamut(pbt::Src& s)
{
	Gamut o;
	if (s.chance(15)) {
		auto const& p = s.pick(presets());
		o.r = {p.r[0], p.r[1]};
		o.g = {p.g[0], p.g[1]};
		o.b = {p.b[0], p.b[1]};
		o.w = {p.w[0], p.w[1]};
		o.preset = true;
		o.name = p.name;
		return o;
	}
	o.r = gen_chromaticity(s, 0.4, 0.8, 0.15, 0.45);
	o.g = gen_chromaticity(s, 0.05, 0.4, 0.5, 0.9);
	o.b = gen_chromaticity(s, 0.05, 0.25, -0.08, 0.2);
	/* Weights of the corners */
	double const a = s.real(0.1, 1), b = s.real(0.1, 1), c = s.real(0.1, 1);
	double const t = a + b + c;
	o.w = {(a * o.r.x + b * o.g.x + c * o.b.x) / t, (a * o.r.y + b * o.g.y + c * o.b.y) / t};
	if (o.w.y < 0.1) {
		o.w.y = 0.1 + (0.1 - o.w.y) * 0.1;
	}
	switch (s.draw(5)) {
	/* Some tidy, awkward positions: white level with or above a primary, and so on */
	case 1:
		o.r.y = o.w.y;
		break;
	case 2:
		o.g.x = o.w.x;
		break;
	default:
		break;
	}
	o.name = "r=" + show_c(o.r) + " g=" + show_c(o.g) + " b=" + show_c(o.b) + " w=" + show_c(o.w);
	return o;
}

inline dcp::ColourConversion make_conversion(Gamut const& g, boost::optional<dcp::Chromaticity> adjusted = boost::none)
{
	return dcp::ColourConversion(
		std::make_shared<dcp::GammaTransferFunction>(2.2), dcp::YUVToRGB::REC709, g.r, g.g, g.b, g.w, adjusted, std::make_shared<dcp::GammaTransferFunction>(2.6)
		);
}

/* ---- transfer functions ---- */

/** A model of a transfer function */
struct Fn
{
	enum Type { GAMMA, MODIFIED, SLOG3, IDENTITY } type = GAMMA;
	double power = 1, threshold = 0, A = 0, B = 1;

	std::shared_ptr<const dcp::TransferFunction> make() const
	{
		switch (type) {
		case GAMMA: return std::make_shared<dcp::GammaTransferFunction>(power);
		case MODIFIED: return std::make_shared<dcp::ModifiedGammaTransferFunction>(power, threshold, A, B);
		case SLOG3: return std::make_shared<dcp::SGamut3TransferFunction>();
		case IDENTITY: return std::make_shared<dcp::IdentityTransferFunction>();
		}
		return {};
	}

	std::string name() const
	{
		switch (type) {
		case GAMMA: return "gamma(" + pbt::show(power) + ")";
		case MODIFIED: return "modified_gamma(" + pbt::show(power) + "," + pbt::show(threshold) + "," + pbt::show(A) + "," + pbt::show(B) + ")";
		case SLOG3: return "s-log3";
		case IDENTITY: return "identity";
		}
		return "";
	}

	double forward(double x) const
	{
		switch (type) {
		case GAMMA: return std::pow(x, power);
		case MODIFIED: return x > threshold ? std::pow((x + A) / (1 + A), power) : x / B;
		case SLOG3:
			return x >= 171.2102946929 / 1023
				? std::pow(10.0, (x * 1023 - 420) / 261.5) * 0.19 - 0.01
				: (x * 1023 - 95) * 0.01125 / (171.2102946929 - 95);
		case IDENTITY: return x;
		}
		return 0;
	}

	double backward(double y) const
	{
		switch (type) {
		case GAMMA: return std::pow(y, 1 / power);
		case MODIFIED: return y > threshold / B ? (1 + A) * std::pow(y, 1 / power) - A : y * B;
		case SLOG3:
			return y >= 0.01125
				? (420 + std::log10((y + 0.01) / 0.19) * 261.5) / 1023
				: (y * (171.2102946929 - 95) / 0.01125 + 95) / 1023;
		case IDENTITY: return y;
		}
		return 0;
	}

	double value(double x, bool inverse) const
	{
		return inverse ? backward(x) : forward(x);
	}

	/** True if x is so close to a change from one formula to another that rounding could decide it */
	bool on_edge(double x, bool inverse) const
	{
		double edge = -1;
		if (type == MODIFIED) {
			edge = inverse ? threshold / B : threshold;
		} else if (type == SLOG3) {
			edge = inverse ? 0.01125 : 171.2102946929 / 1023;
		}
		return edge >= 0 && std::fabs(x - edge) < 1e-12;
	}
};

/** @param smooth true to make only functions with no step in them */
inline Fn gen_fn(pbt::Src& s, bool smooth = false)
{
	Fn f;
	f.type = static_cast<Fn::Type>(s.weighted({4, 5, 3, 1}));
	switch (f.type) {
	case Fn::GAMMA:
		f.power = s.boolean() ? s.pick({2.6, 2.2, 2.4, 1.0, 1.8}) : s.real(0.3, 4);
		break;
	case Fn::MODIFIED:
		if (s.chance(30)) {
			f.power = 2.4;
			f.threshold = 0.04045;
			f.A = 0.055;
			f.B = 12.92;
		} else if (smooth || s.boolean()) {
			f.power = s.real(1.5, 3.5);
			f.A = s.real(0.01, 0.3);
			f.threshold = f.A / (f.power - 1);
			f.B = f.threshold / std::pow((f.threshold + f.A) / (1 + f.A), f.power);
		} else {
			f.power = s.real(0.5, 3.5);
			f.A = s.real(0, 0.5);
			f.threshold = s.real(0, 0.9);
			f.B = s.real(0.5, 20);
		}
		break;
	default:
		break;
	}
	return f;
}

#endif
