// C37: audio synthesis and processing (sprout/compost) against closed-form references.
#include <mon.hpp>
#include <spr.hpp>
#include <cmath>
#include <complex>
#include <memory>
#include <random>
#include <sprout/compost/effects.hpp>
#include <sprout/compost/formats.hpp>
#include <sprout/compost/waves.hpp>
#include <sprout/compost/utility.hpp>
#include <sprout/compost/sources.hpp>
#include <sprout/iterator/sinusoid_iterator.hpp>
#include <sprout/iterator/square_iterator.hpp>
#include <sprout/iterator/sawtooth_iterator.hpp>
#include <sprout/iterator/triangle_iterator.hpp>
#include <sprout/random.hpp>
#include <sprout/array.hpp>
using namespace mon;
namespace sc = sprout::compost;
#define MON_PART(i) (MON_SHARD == (i))
static const long double PI = 3.14159265358979323846264338327950288L;
typedef std::vector<long double> V;

template<class T> static T sample(bool wide) {
	auto& r = rng();
	switch (r.below(8)) {
	case 0: return T(0);
	case 1: return T(1);
	case 2: return T(-1);
	case 3: return wide ? T(r.range(-8, 8)) : T(r.range(-4, 4)) / 4;
	case 4: return wide ? T(r.range(-1000, 1000)) / 100 : T(r.range(-100, 100)) / 100;
	case 5: return T(r.range(-128, 127)) / 128;
	default: return T(r.range(-1000000, 1000000)) / 1000000;
	}
}
// a heap array of exactly N samples, so that ASan sees a read outside of it
template<class T, std::size_t N> struct Sig {
	std::unique_ptr<sprout::array<T, N> > p; V ref;
	explicit Sig(bool wide = true) : p(new sprout::array<T, N>()) { for (std::size_t i = 0; i < N; ++i) { (*p)[i] = sample<T>(wide); ref.push_back((*p)[i]); } }
	sprout::array<T, N>& operator()() { return *p; }
	sprout::array<T, N> const& c() const { return *p; }
};
template<class R> static V all(R const& r) { V v; for (auto i = r.begin(), e = r.end(); !(i == e); ++i) { v.push_back(static_cast<long double>(*i)); if (v.size() > 5000) break; } return v; }
// compare a produced range with the reference values
template<class T, class C, class R> static void same(C& c, R const& r, V const& want, long double k = 16) {
	V g = all(r);
	c.eq(g.size(), want.size(), "number of samples");
	if (g.size() != want.size()) return;
	long double mag = 1; for (auto x : want) mag = std::max(mag, std::fabs(x));
	for (std::size_t i = 0; i < g.size(); ++i) {
		long double tol = k * std::numeric_limits<T>::epsilon() * mag;
		if (!(std::fabs(g[i] - want[i]) <= tol)) { c.ok(false, "sample " + std::to_string(i) + ": " + str((double)g[i]) + " instead of " + str((double)want[i])); return; }
	}
	c.ok(true, "");
	// random access agrees with traversal
	if (!want.empty()) { std::size_t i = rng().below(want.size()); c.eq((long double)r.begin()[(std::ptrdiff_t)i], g[i], "operator[] of the range's iterator"); auto it = r.begin() + (std::ptrdiff_t)i; c.eq((long double)*it, g[i], "begin() + i"); }
}
template<class F> static void sizes_(F f) { f(std::integral_constant<std::size_t, 1>()); f(std::integral_constant<std::size_t, 2>()); f(std::integral_constant<std::size_t, 7>()); f(std::integral_constant<std::size_t, 24>()); }
template<class F> static V map(V v, F f) { for (auto& x : v) x = f(x); return v; }
static V inter(V const& l, V const& r) { V v; for (std::size_t i = 0; i < l.size(); ++i) { v.push_back(l[i]); v.push_back(r[i]); } return v; }
static V every2(V const& x, std::size_t o) { V v; for (; o < x.size(); o += 2) v.push_back(x[o]); return v; }
static long double clampl_(long double x, long double a, long double b) { return x < a ? a : x > b ? b : x; }

#if MON_PART(0)
template<class T> struct Point {
	template<class N> void operator()(N) {
		for (int k = 0; k < reps(6); ++k) {
			Sig<T, N::value> s; auto& r = rng();
			T g = sample<T>(true), lv = sample<T>(false);
			if (k == 0) { g = 0; } if (k == 1) g = 100;
			{ MON_CASE(c, "changed_volume", N::value, g); same<T>(c, s() | sc::changed_volume(g), map(s.ref, [&](long double x) { return x * g; })); same<T>(c, s.c() | sc::changed_volume(g), map(s.ref, [&](long double x) { return x * g; })); }
			{ MON_CASE(c, "rectified", N::value); same<T>(c, s() | sc::rectified, map(s.ref, [&](long double x) { return std::fabs(x); }), 0); }
			{ T lo = sample<T>(true), hi = lo + std::fabs(sample<T>(true)); MON_CASE(c, "clipped", N::value, lo, hi); same<T>(c, s() | sc::clipped(lo, hi), map(s.ref, [&](long double x) { return clampl_(x, lo, hi); }), 0);
			  same<T>(c, s() | sc::clipped(), map(s.ref, [&](long double x) { return clampl_(x, -1, 1); }), 0); same<T>(c, s() | sc::clipped, map(s.ref, [&](long double x) { return clampl_(x, -1, 1); }), 0); }
			{ MON_CASE(c, "distorted", N::value, g, lv); same<T>(c, s() | sc::distorted(g, lv), map(s.ref, [&](long double x) { return clampl_(x * g, -1, 1) * lv; })); }
			{ MON_CASE(c, "fuzzed", N::value, g, lv); same<T>(c, s() | sc::fuzzed(g, lv), map(s.ref, [&](long double x) { return clampl_(std::fabs(x) * g, -1, 1) * lv; })); }
			{ MON_CASE(c, "overdriven", N::value, g, lv); same<T>(c, s() | sc::overdriven(g, lv), map(s.ref, [&](long double x) { long double y = x * g; return (y >= 0 ? std::atan(y) / (PI / 2) : std::atan(y) / (PI / 2) / 10) * lv; }), 32); }
			{ T th = std::fabs(sample<T>(false)); if (r.coin()) th = std::fabs(T(s.ref[r.below(s.ref.size())])); MON_CASE(c, "noise_gated", N::value, th); same<T>(c, s() | sc::noise_gated(th), map(s.ref, [&](long double x) { return std::fabs(x) <= th ? 0 : x; }), 0); }
			{ T th = T(r.range(1, 9)) / 10, ra = T(r.range(1, 10)) / 10; MON_CASE(c, "compressed", N::value, th, ra);
			  same<T>(c, s() | sc::compressed(th, ra), map(s.ref, [&](long double x) { long double gn = 1 / ((long double)th + (1 - (long double)th) * ra); return (x > th ? th + (x - th) * ra : x < -th ? -th + (x + th) * ra : x) * gn; }), 128); }
			{ Sig<T, N::value> u; MON_CASE(c, "superposed", N::value); V w = s.ref; for (std::size_t i = 0; i < w.size(); ++i) w[i] += u.ref[i]; same<T>(c, s() | sc::superposed(u()), w); }
			{ T dp = T(r.range(0, 10)) / 10, rt = T(r.range(0, 400)) / 10; int fs = r.coin() ? 44100 : (int)r.range(1, 1000); MON_CASE(c, "tremolo", N::value, dp, rt, fs);
			  V w = s.ref; for (std::size_t i = 0; i < w.size(); ++i) w[i] *= 1 + dp * std::sin(2 * PI * rt * (long double)i / fs); same<T>(c, s() | sc::tremolo(dp, rt, fs), w, 4096 * (1 + rt * N::value / fs));
			  if (fs == 44100) same<T>(c, s() | sc::tremolo(dp, rt), w, 4096 * (1 + rt * N::value / fs)); }
			{ T dp = T(r.range(0, 10)) / 10, rt = T(r.range(0, 400)) / 10; int fs = r.coin() ? 44100 : (int)r.range(1, 1000); MON_CASE(c, "auto_pan", N::value, dp, rt, fs);
			  V l = s.ref, q = s.ref; for (std::size_t i = 0; i < l.size(); ++i) { long double a = 2 * PI * rt * (long double)i / fs; l[i] *= 1 + dp * std::sin(a); q[i] *= 1 + dp * std::sin(a + PI); } same<T>(c, s() | sc::auto_pan(dp, rt, fs), inter(l, q), 4096 * (1 + rt * N::value / fs));
			  if (fs == 44100) same<T>(c, s() | sc::auto_pan(dp, rt), inter(l, q), 4096 * (1 + rt * N::value / fs)); }
			{ // chains of effects compose from left to right
			  MON_CASE(c, "chain", N::value, g); same<T>(c, s() | sc::changed_volume(g) | sc::clipped | sc::rectified | sc::changed_volume(T(2)), map(s.ref, [&](long double x) { return std::fabs(clampl_(x * g, -1, 1)) * 2; })); }
		}
	}
};
MON_TEST(point_f) { sizes_(Point<float>()); }
MON_TEST(point_d) { sizes_(Point<double>()); }
#endif

#if MON_PART(1)
template<class T> struct Delay {
	template<class N> void operator()(N) {
		long n = N::value;
		for (int k = 0; k < reps(8); ++k) {
			Sig<T, N::value> s; auto& r = rng();
			int fs = 1 << r.range(0, 10);
			{ // reverberation: x[n] + sum a^i x[n - i d], for whole delays in samples
				long d = r.range(1, n + 2); std::size_t rep = r.range(0, 4); T a = T(r.range(-10, 10)) / 10, dl = T(d) / fs;
				V w = s.ref; for (long i = 0; i < n; ++i) for (std::size_t j = 1; j <= rep; ++j) if (i - (long)j * d >= 0) w[i] += std::pow((long double)a, (int)j) * s.ref[i - (long)j * d];
				MON_CASE(c, "reverbed", N::value, a, dl, rep, fs); same<T>(c, s() | sc::reverbed(a, dl, rep, fs), w, 256);
			}
			{ long d = r.range(1, 30); T dl = T(d) / 44100; (void)dl; // default repeat (2) and sampling rate
				T a = T(r.range(0, 8)) / 8; T zero = T(0); V w = s.ref; for (long i = 0; i < n; ++i) w[i] += (a + a * a) * s.ref[i]; MON_CASE(c, "reverbed default", N::value, a); same<T>(c, s() | sc::reverbed(a, zero), w, 64); }
			{ // pseudo stereo: sum and difference with the delayed signal, silence before the delay
				long d = r.range(0, n + 2); T dl = T(d) / fs; V l, q; for (long i = 0; i < n; ++i) { bool on = i >= d; l.push_back(on ? s.ref[i] + s.ref[i - d] : 0); q.push_back(on ? s.ref[i] - s.ref[i - d] : 0); }
				MON_CASE(c, "pseudo_stereo", N::value, dl, fs); same<T>(c, s() | sc::pseudo_stereo(dl, fs), inter(l, q));
			}
			for (int ch = 0; ch < 2; ++ch) { // vibrato and chorus: linear interpolation at n - tau, tau = d + depth sin(2 pi rate n / fs)
				T d = T(r.range(0, 40)) / 8, dp = r.coin([&]{ return 0; }(), 1) ? T(0) : T(r.range(0, 24)) / 8, rt = T(r.range(0, 80)) / 16;
				if (r.below(4) == 0) dp = 0;
				V w; std::vector<bool> chk;
				for (long i = 0; i < n; ++i) {
					long double tau = d + dp * std::sin(2 * PI * rt * (long double)i / fs), t = i - tau; long m = (long)std::floor(t); long double de = t - m, y = 0;
					bool inside = m >= 0 && m + 1 < n, sure = true;
					if (t < 0 && t > -1) sure = false;                          // truncation towards zero of the position before the first sample
					long double near = std::fabs(t - std::round(t)); if (near < 1e-3L && near != 0 && (std::round(t) <= 0 || std::round(t) >= n - 1)) sure = false;
					if (near == 0 && dp != 0 && (std::round(t) <= 0 || std::round(t) >= n - 1)) sure = false;
					if (inside) y = de * s.ref[m + 1] + (1 - de) * s.ref[m];
					w.push_back(ch ? s.ref[i] + y : y); chk.push_back(sure);
				}
				auto judge = [&](const char* nm, V g) {
					MON_CASE(c, nm, N::value, d, dp, rt, fs); c.eq(g.size(), w.size(), "number of samples"); if (g.size() != w.size()) return;
					for (std::size_t i = 0; i < w.size(); ++i) if (chk[i] && !(std::fabs(g[i] - w[i]) <= 8192 * 20 * std::numeric_limits<T>::epsilon() * (1 + rt * n / fs))) { c.ok(false, "sample " + std::to_string(i) + ": " + str((double)g[i]) + " instead of " + str((double)w[i])); return; }
					c.ok(true, "");
				};
				if (ch) judge("chorus", all(s() | sc::chorus(d, dp, rt, fs))); else judge("vibrato", all(s() | sc::vibrato(d, dp, rt, fs)));
			}
		}
	}
};
MON_TEST(delay_f) { sizes_(Delay<float>()); }
MON_TEST(delay_d) { sizes_(Delay<double>()); }
#endif

#if MON_PART(2)
struct Neg { template<class T> SPROUT_CONSTEXPR T operator()(T const& x) const { return -x; } };
template<class T> struct Chan {
	template<class N> void operator()(N) {
		for (int k = 0; k < reps(6); ++k) {
			Sig<T, N::value> a; Sig<T, N::value> b; T g = sample<T>(false), h = sample<T>(false);
			{ MON_CASE(c, "stereo", N::value); same<T>(c, a() | sc::stereo(b()), inter(a.ref, b.ref), 0); }
			Sig<T, 2 * N::value> s; V l = every2(s.ref, 0), r = every2(s.ref, 1);
			{ MON_CASE(c, "left_channel", N::value); same<T>(c, s() | sc::left_channel, l, 0); same<T>(c, s.c() | sc::left_channel, l, 0); }
			{ MON_CASE(c, "right_channel", N::value); same<T>(c, s() | sc::right_channel, r, 0); same<T>(c, s.c() | sc::right_channel, r, 0); }
			auto vol = [&](V v, T q) { return map(v, [&](long double x) { return x * q; }); };
			auto rect = [&](V v) { return map(v, [&](long double x) { return std::fabs(x); }); };
			{ MON_CASE(c, "effected_left", N::value, g); same<T>(c, s() | sc::effected_left_cannel(sc::changed_volume(g)), inter(vol(l, g), r)); same<T>(c, s() | sc::effected_left_cannel(sc::rectified), inter(rect(l), r)); }
			{ MON_CASE(c, "effected_right", N::value, g); same<T>(c, s() | sc::effected_right_cannel(sc::changed_volume(g)), inter(l, vol(r, g))); same<T>(c, s() | sc::effected_right_cannel(sc::rectified), inter(l, rect(r))); }
			{ MON_CASE(c, "effected_each", N::value, g, h); same<T>(c, s() | sc::effected_each_cannel(sc::changed_volume(g)), inter(vol(l, g), vol(r, g))); same<T>(c, s() | sc::effected_each_cannel(sc::changed_volume(g), sc::changed_volume(h)), inter(vol(l, g), vol(r, h))); }
#ifndef __clang__
			{ MON_CASE(c, "vocal_cancelled", N::value); V w; for (std::size_t i = 0; i < l.size(); ++i) w.push_back(l[i] - r[i]); same<T>(c, s() | sc::vocal_cancelled, w); }
#endif
			{ // complex signals
				MON_CASE(c, "complex", N::value); auto z = s() | sc::as_complex; std::size_t i = 0; for (auto it = z.begin(); it != z.end(); ++it, ++i) { sprout::complex<T> v = *it; c.eq((long double)v.real(), s.ref[i], "as_complex real part"); c.eq((long double)v.imag(), 0.0L, "as_complex imaginary part"); } c.eq(i, s.ref.size(), "size");
				sprout::array<sprout::complex<T>, N::value> w; V re, im; for (std::size_t j = 0; j < N::value; ++j) { w[j] = sprout::complex<T>(a()[j], b()[j]); }
				same<T>(c, w | sc::as_real, a.ref, 0); same<T>(c, w | sc::as_imag, b.ref, 0);
			}
		}
	}
};
MON_TEST(chan_f) { sizes_(Chan<float>()); }
MON_TEST(chan_d) { sizes_(Chan<double>()); }
// PCM quantisation: saturates outside [-1, 1], is monotonic, and truncates the scaled value
template<class I, class T, class Ad> static void pcm_(const char* nm, Ad ad) {
	typedef std::numeric_limits<I> L; long double mx = L::max(); bool sg = L::is_signed;
	for (int k = 0; k < reps(30); ++k) {
		Sig<T, 24> s(true); MON_CASE(c, nm, k);
		if (k == 0) { T v[24] = {1, -1, 0, T(0.5), T(-0.5), 2, -2, T(1e30), T(-1e30), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::nextafter(T(1), T(0)), std::nextafter(T(1), T(2)), std::nextafter(T(-1), T(0)), std::nextafter(T(-1), T(-2)), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), T(-0.0), T(0.25), T(0.999), T(-0.999), T(0.001), T(-0.001), std::numeric_limits<T>::max()}; for (int i = 0; i < 24; ++i) { s()[i] = v[i]; s.ref[i] = v[i]; } }
		auto r = s() | ad; std::size_t i = 0; long double prevx = 0, prevy = 0;
		for (auto it = r.begin(); it != r.end(); ++it, ++i) {
			I y = *it; long double x = s.ref[i], e = sg ? clampl_(x, -1, 1) * mx : clampl_((x + 1) / 2, 0, 1) * mx;
			long double slack = mx * 4 * std::numeric_limits<T>::epsilon();
			c.ok(std::fabs((long double)y - e) < 1 + slack, "within one step of the scaled sample " + str((double)x) + " -> " + str((double)y));
			c.ok(sg ? (std::fabs((long double)y) <= std::fabs(e) + slack) : (long double)y <= e + slack, "never beyond the scaled sample");
			if (x >= 1) c.eq(+y, +L::max(), "saturates at the top"); if (x <= -1) c.eq(+y, sg ? +(I)-L::max() : +(I)0, "saturates at the bottom"); if (x == 0 && sg) c.eq(+y, 0, "zero");
			if (i && x >= prevx) c.ok(y >= prevy, "monotonic"); if (i && x <= prevx) c.ok(y <= prevy, "monotonic");
			prevx = x; prevy = y;
		}
		c.eq(i, (std::size_t)24, "size");
	}
}
MON_TEST(pcm) {
	pcm_<std::uint8_t, double>("as_pcm_wave8 d", sc::as_pcm_wave8); pcm_<std::uint8_t, float>("as_pcm_wave8 f", sc::as_pcm_wave8);
	pcm_<std::int16_t, double>("as_pcm_wave16 d", sc::as_pcm_wave16); pcm_<std::int16_t, float>("as_pcm_wave16 f", sc::as_pcm_wave16);
	pcm_<std::int8_t, double>("as_pcm_wave<int8> d", sc::as_pcm_wave<std::int8_t>()); pcm_<std::uint16_t, float>("as_pcm_wave<uint16> f", sc::as_pcm_wave<std::uint16_t>()); pcm_<std::uint16_t, double>("as_pcm_wave<uint16> d", sc::as_pcm_wave<std::uint16_t>()); pcm_<std::int32_t, double>("as_pcm_wave<int32> d", sc::as_pcm_wave<std::int32_t>()); pcm_<std::uint32_t, double>("as_pcm_wave<uint32> d", sc::as_pcm_wave<std::uint32_t>());
}
MON_TEST(source) {
	for (int k = 0; k < reps(60); ++k) {
		auto& r = rng(); bool b8 = r.coin(); int e[5]; for (int& x : e) x = b8 ? (int)r.range(0, 255) : (int)r.range(-32768, 32767);
		if (k == 0 || k == 1) { b8 = k == 0; e[3] &= 127; e[4] &= 127; e[0] = b8 ? 0 : -32768; e[1] = b8 ? 255 : 32767; e[2] = b8 ? 128 : 0; }
		sc::sources::info_type inf = {1, 1, 44100, 0, 0, (std::uint16_t)(b8 ? 8 : 16), 5};
		MON_CASE(c, "sound_type", b8, e[0]); sc::sources::sound_type<5> s(inf, e[0], e[1], e[2], e[3], e[4]); c.eq(s.size(), (std::size_t)5, "size");
		for (int i = 0; i < 5; ++i) { double w = b8 ? e[i] / 128.0 - 1 : e[i] / 32768.0; c.eq(s(i), w, "normalised sample"); c.eq(s.elements()[i], w, "elements()"); c.ok(s(i) >= -1 && s(i) < 1, "range"); }
		// PCM quantisation of the loaded sample gives the original back within one step
		if (b8) { auto q = s.elements() | sc::as_pcm_wave8; int i = 0; for (auto it = q.begin(); it != q.end(); ++it, ++i) c.ok(std::abs((int)*it - e[i]) <= 1, "round trip"); } else { auto q = s.elements() | sc::as_pcm_wave16; int i = 0; for (auto it = q.begin(); it != q.end(); ++it, ++i) c.ok(std::abs((int)*it - e[i]) <= 1, "round trip"); }
	}
}
#endif

#if MON_PART(3)
// ---- IIR filters: the designed transfer function equals the analogue prototype under the bilinear transform with prewarping
typedef std::complex<long double> C;
template<class T> struct Co { sprout::array<T, 3> a, b; };
template<class T, class C_, class P> static void resp(C_& c, P const& co, std::function<C(C)> proto, long double k) {
	for (int j = 0; j <= 16; ++j) {
		long double f = 0.5L * j / 16, w = 2 * PI * f; C z1 = std::exp(C(0, -w)); C z2 = z1 * z1;
		C num = (long double)co.second[0] + (long double)co.second[1] * z1 + (long double)co.second[2] * z2, den = (long double)co.first[0] + (long double)co.first[1] * z1 + (long double)co.first[2] * z2;
		// proto in terms of s = (1 - z^-1)/(1 + z^-1): evaluate through numerator/denominator pair to allow Nyquist
		C h = proto(C(0, j == 16 ? 1e9L : std::tan(PI * f)));
		c.ok(std::abs(num - h * den) <= k * std::numeric_limits<T>::epsilon() * (1 + std::abs(h)) + (j == 16 ? 1e-6L : 0) * (1 + std::abs(h)), "response at f=" + str((double)f) + " (of the sampling rate)");
	}
	c.ok((long double)co.first[0] == 1, "a[0] is one");
	// poles inside the unit circle (triangle conditions)
	long double a1 = co.first[1], a2 = co.first[2], e = k * std::numeric_limits<T>::epsilon(); c.ok(std::fabs(a2) < 1 + e && std::fabs(a1) < 1 + a2 + e, "stable");
}
template<class T> static void filt() {
	typedef sprout::array<T, 3> A; A z = {{}};
	for (int k = 0; k < reps(60); ++k) {
		auto& r = rng(); T fc = T(r.range(2, 45)) / 100, f2 = fc + T(r.range(1, 4)) / 100, q = T(r.range(2, 40)) / 10, g = T(r.range(-8, 30)) / 10;
		long double O = std::tan(PI * (long double)fc), O2 = std::tan(PI * (long double)f2), Q = q, G = 1 + (long double)g, W = O * O2, B = O2 - O; long double kk = 4096 * (1 + O2 * O2) * (1 + G);
		{ MON_CASE(c, "iir_lpf", fc, q); resp<T>(c, sc::iir_lpf(fc, q, z, z), [&](C s) { return O * O / (s * s + O / Q * s + O * O); }, kk); }
		{ MON_CASE(c, "iir_hpf", fc, q); resp<T>(c, sc::iir_hpf(fc, q, z, z), [&](C s) { return s * s / (s * s + O / Q * s + O * O); }, kk); }
		{ MON_CASE(c, "iir_bpf", fc, f2); resp<T>(c, sc::iir_bpf(fc, f2, z, z), [&](C s) { return B * s / (s * s + B * s + W); }, kk); }
		{ MON_CASE(c, "iir_bef", fc, f2); resp<T>(c, sc::iir_bef(fc, f2, z, z), [&](C s) { return (s * s + W) / (s * s + B * s + W); }, kk); }
		{ MON_CASE(c, "iir_resonator", fc, q); resp<T>(c, sc::iir_resonator(fc, q, z, z), [&](C s) { return O / Q * s / (s * s + O / Q * s + O * O); }, kk); }
		{ MON_CASE(c, "iir_notch", fc, q); resp<T>(c, sc::iir_notch(fc, q, z, z), [&](C s) { return (s * s + O * O) / (s * s + O / Q * s + O * O); }, kk); }
		{ MON_CASE(c, "iir_low_shelving", fc, q, g); resp<T>(c, sc::iir_low_shelving(fc, q, g, z, z), [&](C s) { return (s * s + std::sqrt(G) * O / Q * s + G * O * O) / (s * s + O / Q * s + O * O); }, kk); }
		{ MON_CASE(c, "iir_high_shelving", fc, q, g); resp<T>(c, sc::iir_high_shelving(fc, q, g, z, z), [&](C s) { return (G * s * s + std::sqrt(G) * O / Q * s + O * O) / (s * s + O / Q * s + O * O); }, kk); }
		{ MON_CASE(c, "iir_peaking", fc, q, g); resp<T>(c, sc::iir_peaking(fc, q, g, z, z), [&](C s) { return (s * s + G * O / Q * s + O * O) / (s * s + O / Q * s + O * O); }, kk); }
		{ // applying a filter sample by sample is the difference equation
			MON_CASE(c, "apply_iir", k); A a = {{1, T(r.range(-10, 10)) / 16, T(r.range(-10, 10)) / 16}}, b = {{sample<T>(false), sample<T>(false), sample<T>(false)}}; sprout::array<T, 2> da = {{}}, db = {{}};
			std::vector<T> x, y; for (int i = 0; i < 12; ++i) {
				T v = sample<T>(false); auto p = sc::apply_iir(v, a, b, da, db); da = p.second.first; db = p.second.second; x.push_back(v); y.push_back(p.first);
				long double w = (long double)b[0] * v + (i > 0 ? (long double)b[1] * x[i - 1] - (long double)a[1] * y[i - 1] : 0) + (i > 1 ? (long double)b[2] * x[i - 2] - (long double)a[2] * y[i - 2] : 0);
				long double mag = 1; for (T t : y) mag = std::max(mag, std::fabs((long double)t));
				c.ok(std::fabs(w - p.first) <= 16 * std::numeric_limits<T>::epsilon() * mag, "output sample " + std::to_string(i));
			}
		}
	}
}
MON_TEST(filters_f) { filt<float>(); }
MON_TEST(filters_d) { filt<double>(); }
template<class T> static void util_() {
	for (int k = 0; k < reps(200); ++k) {
		auto& r = rng(); int i = (int)r.range(-60, 60), d = (int)r.range(1, 60); T fi = T(r.range(-600, 600)) / 10;
		{ MON_CASE(c, "equal_temperament_value", i, d, fi); long double e = std::numeric_limits<double>::epsilon() * 64, w = std::pow(2.0L, (long double)i / 12); c.ok(std::fabs(sc::equal_temperament_value(i) - w) <= e * w, "twelve-tone"); w = std::pow(2.0L, (long double)i / d); c.ok(std::fabs(sc::equal_temperament_value(i, d) - w) <= e * w * 60, "div"); w = std::pow(2.0L, (long double)fi / 12); c.ok(std::fabs(sc::equal_temperament_value(fi) - w) <= 64 * std::numeric_limits<T>::epsilon() * w, "fractional"); }
		{ T t1 = T(r.range(1, 50)) / 100, t2 = T(r.range(1, 40)) / 100, x = T(r.range(-20, 120)) / 100; if (r.below(5) == 0) x = t1; if (r.below(7) == 0) x = 0;
		  long double X = x, A = t1, B = t2, w = X >= 0 && X <= A ? 3 * (X / A) * (X / A) - 2 * (X / A) * (X / A) * (X / A) : X > A && X <= A + B ? 1 - ((X - A) / B) * ((X - A) / B) : 0;
		  MON_CASE(c, "rosenberg_value", x, t1, t2); if (std::fabs(X - (A + B)) > 1e-3L) c.ok(std::fabs((long double)sc::rosenberg_value(x, t1, t2) - w) <= 64 * std::numeric_limits<T>::epsilon(), "pulse"); else c.ok(std::fabs((long double)sc::rosenberg_value(x, t1, t2)) <= 3e-1L, "pulse end"); }
	}
}
MON_TEST(util_f) { util_<float>(); }
MON_TEST(util_d) { util_<double>(); }
#endif

#if MON_PART(4)
// ---- waves as ranges and iterators
static long double saw(long double t) { return 2 * (t - std::floor(t + 0.5L)); }
template<class T, class R, class F> static void wave(const char* nm, R const& rg, F f, long double fr, long double am, long double ph, std::function<bool(long double)> edge, std::size_t n) {
	MON_CASE(c, nm, (double)fr, (double)am, (double)ph);
	auto it = rg.begin();
	for (std::size_t i = 0; i < n; ++i, ++it) {
		long double t = fr * (long double)i + ph, w = am * f(t); if (edge(t)) continue;
		long double tol = 256 * std::numeric_limits<T>::epsilon() * std::fabs(am) * (1 + std::fabs(fr) * i + std::fabs(ph)) + std::numeric_limits<T>::min();
		tol += std::fabs(am) * (std::string(nm).find("tri") == 0 ? std::sqrt((long double)std::numeric_limits<T>::epsilon() * (1 + std::fabs(t))) * 16 : 0);
		c.ok(std::fabs((long double)*it - w) <= tol, "sample " + std::to_string(i) + ": " + str((double)*it) + " instead of " + str((double)w));
		c.eq((long double)rg.begin()[i], (long double)*it, "random access"); c.eq((long double)*(rg.begin() + i), (long double)*it, "advanced iterator");
	}
}
template<class T> struct Waves {
	template<class N> void operator()(N) {
		for (int k = 0; k < reps(8); ++k) {
			auto& r = rng(); T fr = T(r.range(0, 64)) / 64, am = r.below(6) ? T(r.range(-8, 8)) / 4 : T(0), ph = T(r.range(-32, 32)) / 16, du = T(r.range(1, 15)) / 16; if (r.coin()) { fr = T(r.range(0, 1000)) / 777; ph = T(r.range(-1000, 1000)) / 333; }
			auto none = [](long double) { return false; };
			auto sedge = [](long double t) { long double u = t + 0.5L; long double d = std::fabs(u - std::round(u)); return d < 1e-4L && d != 0; };
			auto qedge = [&](long double t) { long double u = t + 0.5L, v = t - du + 0.5L; long double d = std::fabs(u - std::round(u)), e = std::fabs(v - std::round(v)); return (d < 1e-4L && d != 0) || (e < 1e-4L && e != 0); };
			auto sn = [](long double t) { return std::sin(t); }; long double tp = 2 * PI;
			auto tri = [](long double t) { return 2 / PI * std::asin(std::sin(2 * PI * t)); };
			auto sq = [&](long double t) { return saw(t) - saw(t - du); };
			Sig<T, N::value> s; std::size_t n = N::value;
			{ auto w = s() | sc::waves::sinusoidal(fr, am, ph); MON_CASE(c, "bounded wave", n); c.eq((std::size_t)(w.end() - w.begin()), n, "as many samples as the base range"); }
			wave<T>("sin", s() | sc::waves::sinusoidal(fr, am, ph), sn, tp * fr, am, ph, none, n);
			wave<T>("saw", s() | sc::waves::sawtooth_wave(fr, am, ph), saw, fr, am, ph, sedge, n);
			wave<T>("tri", s() | sc::waves::triangle_wave(fr, am, ph), tri, fr, am, ph, none, n);
			wave<T>("square", s() | sc::waves::square_wave(fr, am, ph, du), sq, fr, am, ph, qedge, n);
			wave<T>("infinite sin", sc::waves::sinusoidal(fr, am, ph), sn, tp * fr, am, ph, none, 40);
			wave<T>("infinite saw", sc::waves::sawtooth_wave(fr, am, ph), saw, fr, am, ph, sedge, 40);
			wave<T>("tri infinite", sc::waves::triangle_wave(fr, am, ph), tri, fr, am, ph, none, 40);
			wave<T>("infinite square", sc::waves::square_wave(fr, am, ph, du), sq, fr, am, ph, qedge, 40);
		}
	}
};
MON_TEST(waves_f) { sizes_(Waves<float>()); }
MON_TEST(waves_d) { sizes_(Waves<double>()); }
template<class It, class Mk> static void iter_(const char* nm, Mk mk) {
	for (int k = 0; k < reps(40); ++k) {
		auto& r = rng(); long i = r.range(0, 50), d = r.range(-20, 20); MON_CASE(c, nm, i, d);
		It a = mk(i), b = mk(i + d);
		c.eq((long)(b - a), d, "difference"); c.eq(a == b, d == 0, "=="); c.eq(a != b, d != 0, "!="); c.eq(a < b, d > 0, "<"); c.eq(a > b, d < 0, ">"); c.eq(a <= b, d >= 0, "<="); c.eq(a >= b, d <= 0, ">=");
		It e = a; e += d; c.eq(*e, *b, "+="); c.ok(e == b, "+= position"); e -= d; c.eq(*e, *a, "-="); c.eq(a[d], *b, "[]"); c.eq(*(a + d), *b, "+"); c.eq(*(d + a), *b, "n + it"); c.eq(*(b - d), *a, "-");
		It f = a; It o = f++; c.ok(o == a && f - a == 1 && *f == *(a + 1), "post ++"); o = f--; c.ok(o - a == 1 && f == a && *f == *a, "post --"); c.eq(*++f, *(a + 1), "++"); c.eq(*--f, *a, "--");
		c.eq(*sprout::next(a), *(a + 1), "next"); c.eq(*sprout::prev(a), *(a - 1), "prev"); c.eq(*sprout::next(a, d), *b, "next n"); c.eq(*sprout::prev(b, d), *a, "prev n"); c.eq((long)sprout::distance(a, a + 5), 5L, "distance");
		It g = b, h = a; sprout::swap(g, h); c.ok(*g == *a && g == a && *h == *b && h == b, "swap"); g.swap(h); c.ok(*g == *b && *h == *a, "member swap");
		It z(a); z = b; c.ok(*z == *b && z == b, "assignment");
		c.eq((long)a.index(), i, "index()");
	}
}
template<class T> static void iters() {
	auto& r = rng(); T fr = T(r.range(1, 100)) / 77, am = T(r.range(1, 20)) / 7, ph = T(r.range(-10, 10)) / 13, du = T(r.range(1, 9)) / 10;
	iter_<sprout::sinusoid_iterator<T> >("sinusoid_iterator", [=](long i) { return sprout::sinusoid_iterator<T>(i, fr, am, ph); });
	iter_<sprout::sawtooth_iterator<T> >("sawtooth_iterator", [=](long i) { return sprout::sawtooth_iterator<T>(i, fr, am, ph); });
	iter_<sprout::triangle_iterator<T> >("triangle_iterator", [=](long i) { return sprout::triangle_iterator<T>(i, fr, am, ph); });
	iter_<sprout::square_iterator<T> >("square_iterator", [=](long i) { return sprout::square_iterator<T>(i, fr, am, ph, du); });
	{ MON_CASE(c, "parameters", fr, am, ph, du); sprout::square_iterator<T> q(3, fr, am, ph, du); c.eq(q.frequency(), fr, "frequency"); c.eq(q.amplitude(), am, "amplitude"); c.eq(q.phase(), ph, "phase"); c.eq(q.duty(), du, "duty"); sprout::sinusoid_iterator<T> s(3, fr, am, ph); c.eq(s.frequency(), fr, "frequency"); c.eq(s.amplitude(), am, "amplitude"); c.eq(s.phase(), ph, "phase"); sprout::sinusoid_iterator<T> z; c.eq((long)z.index(), 0L, "default index"); c.ok(*z == 0 && z.amplitude() == 1 && z.frequency() == 1 && z.phase() == 0, "default"); sprout::square_iterator<T> y; c.ok(y.duty() == T(0.5) && y.amplitude() == 1, "default duty"); }
}
MON_TEST(iters_f) { iters<float>(); }
MON_TEST(iters_d) { iters<double>(); }
MON_TEST(noise) {
	for (int k = 0; k < reps(20); ++k) {
		unsigned seed = (unsigned)rng()() | 1; double sigma = rng().range(1, 40) / 10.0; MON_CASE(c, "white_noise", seed, sigma);
		Sig<double, 9> s; sprout::random::mt19937 e(seed);
		// the bounded form starts from the engine that white_noise(...).engine() reports
		auto inf = sc::white_noise(e, sigma);
		auto draws = [&](sprout::random::mt19937 const& from) { V w; sprout::random::normal_distribution<double> const d(0, sigma); auto x = d(from); for (int i = 0; i < 9; ++i) { w.push_back(x.result()); x = x(); } return w; };
		V w0 = draws(e), w1 = draws(inf.engine());
		auto it = inf.begin(); for (int i = 0; i < 9; ++i, ++it) c.eq((long double)*it, w0[i], "unbounded noise: i-th draw");
		auto rg = s() | sc::white_noise(e, sigma); V g; for (auto j = rg.begin(); j != rg.end() && g.size() < 50; ++j) g.push_back(*j); c.eq(g.size(), w1.size(), "as many samples as the base range"); for (std::size_t i = 0; i < std::min(g.size(), w1.size()); ++i) c.eq(g[i], w1[i], "bounded noise: i-th draw");
		c.eq((double)inf.sigma(), sigma, "sigma()"); c.eq((double)rg.sigma(), sigma, "sigma()");
	}
	for (int k = 0; k < reps(20); ++k) { long n = rng().range(0, 20); double v = sample<double>(true); MON_CASE(c, "blanked", n, v); auto b = sc::blanked(n); c.eq((long)all(b).size(), n, "count"); for (auto x : all(b)) c.eq(x, 0.0L, "silence"); auto d = sc::blanked(n, v); c.eq((long)all(d).size(), n, "count"); for (auto x : all(d)) c.eq(x, (long double)v, "level");
		Sig<double, 7> s; auto e = s() | sc::blanked(n, v); c.eq((long)all(e).size(), std::min(n, 7L), "clipped to the base range"); }
}
#endif
