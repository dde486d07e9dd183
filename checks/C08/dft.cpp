#include <kinds.hpp>
#include <fp.hpp>
#include <complex>
#include <sprout/complex.hpp>
#include <sprout/numeric/dft.hpp>
#include <sprout/numeric/fft.hpp>
#include <sprout/range/numeric/dft.hpp>
#include <sprout/iterator/dft_iterator.hpp>
#include <sprout/iterator/idft_iterator.hpp>
#include <sprout/iterator/amplitude_spectrum_iterator.hpp>
#include <sprout/iterator/phase_spectrum_iterator.hpp>
#include <sprout/iterator/sinusoid_iterator.hpp>
#include <sprout/iterator/sawtooth_iterator.hpp>
#include <sprout/iterator/square_iterator.hpp>
#include <sprout/iterator/triangle_iterator.hpp>
using namespace mon;
typedef long double L; typedef std::complex<L> CL; typedef std::vector<CL> VL;
static L const PI = 3.14159265358979323846264338327950288L;
template<class F> char const* fn(); template<> char const* fn<float>() { return "float"; } template<> char const* fn<double>() { return "double"; } template<> char const* fn<L>() { return "long double"; }
// inputs: exactly representable in float
VL randc(std::size_t n) { VL r(n); int kind = (int)rng().below(5); for (std::size_t i = 0; i < n; ++i) switch (kind) {
	case 0: r[i] = CL((int)rng().range(-9, 9), (int)rng().range(-9, 9)); break; case 1: r[i] = CL(rng().range(-1000, 1000) / 64.0L, rng().range(-1000, 1000) / 64.0L); break;
	case 2: r[i] = CL((int)rng().range(-9, 9), 0); break; case 3: r[i] = i == n / 2 ? CL(1, 2) : CL(0, 0); break; default: r[i] = std::ldexp(1.0L, (int)rng().range(-8, 8)) * CL(rng().coin() ? 1 : -1, rng().range(-2, 2)); } return r; }
VL DFT(VL const& x, int sign) { VL r(x.size()); std::size_t n = x.size(); for (std::size_t i = 0; i < n; ++i) { CL s = 0; for (std::size_t k = 0; k < n; ++k) { L a = sign * 2 * PI * (L)((i * k) % n) / n; s += x[k] * CL(std::cos(a), std::sin(a)); } r[i] = sign > 0 ? s / (L)n : s; } return r; }
L PH(CL const& z) { return std::atan2((L)std::llround(z.imag()), (L)std::llround(z.real())); } // the library rounds both parts to integers first
template<class F> L tol(VL const& x, bool inv) { L s = 0; for (auto const& c : x) s += std::abs(c); return (40 * (L)x.size() + 40) * std::numeric_limits<F>::epsilon() * s / (inv ? (x.size() ? x.size() : 1) : 1); }
template<class F> std::vector<sprout::complex<F> > S(VL const& v) { std::vector<sprout::complex<F> > r; for (auto const& c : v) r.push_back(sprout::complex<F>((F)c.real(), (F)c.imag())); return r; }
std::vector<std::pair<L, L> > sh(VL const& v) { std::vector<std::pair<L, L> > r; for (auto const& c : v) r.push_back(std::make_pair(c.real(), c.imag())); return r; }
template<class C, class G> void cmp1(C& c, G const& g, CL const& w, L t, char const* what, std::size_t i) { std::string s = std::string(what) + "[" + std::to_string(i) + "]"; near(c, g.real(), w.real(), t, (s + ".real").c_str()); near(c, g.imag(), w.imag(), t, (s + ".imag").c_str()); }
template<class C, class R> void cmp(C& c, R const& r, VL const& w, L t, char const* what) { std::size_t i = 0; for (auto it = r.begin(); it != r.end() && i < w.size(); ++it, ++i) cmp1(c, *it, w[i], t, what, i); c.eq((std::size_t)std::distance(r.begin(), r.end()), w.size(), "length"); }
// result kinds: R with its window; expected content: transform in the front of the window, the rest kept
template<class E, std::size_t N> struct WArr { typedef sprout::array<E, N> R; static std::size_t const cap = N; std::size_t off, len; std::vector<E> full; R r; WArr(std::vector<E> const& f) : off(0), len(N), full(f), r(arr<E, N>(f)) {} static std::string nm() { return "array" + std::to_string(N); } static std::vector<E> in(R const& q) { return std::vector<E>(q.begin(), q.end()); } };
template<class E, std::size_t N> struct WSub { typedef sprout::sub_array<sprout::array<E, N> > R; static std::size_t const cap = N; std::size_t off, len; std::vector<E> full; R r; WSub(std::vector<E> const& f) : off(rng().below(N + 1)), len(rng().below(N - off + 1)), full(f), r(arr<E, N>(f), (std::ptrdiff_t)off, (std::ptrdiff_t)(off + len)) {} static std::string nm() { return "sub_array" + std::to_string(N); } static std::vector<E> in(R const& q) { auto a = q.get_array(); return std::vector<E>(a.begin(), a.end()); } };
// periodic waves: values of the defining function at sample i of the range
template<class F> struct Wave { F f, a, p, d; };
L saw(L t) { return 2 * (t - std::floor(t + 0.5L)); }
struct Exp { L v; bool edge; };
inline Exp w_sin(L f, L a, L p, L, L i, L n) { Exp e = { a * std::sin(2 * PI * f / n * i + p), false }; return e; }
inline Exp w_saw(L f, L a, L p, L, L i, L) { L t = f * i + p; L h = t + 0.5L; Exp e = { a * saw(t), std::fabs(h - std::round(h)) < 1e-4L * (1 + std::fabs(t)) && h != std::round(h) }; return e; }
inline Exp w_sqr(L f, L a, L p, L d, L i, L n) { Exp x = w_saw(f, 1, p, 0, i, n), y = w_saw(f, 1, p - d, 0, i, n); Exp e = { a * (x.v - y.v), x.edge || y.edge }; return e; }
inline Exp w_tri(L f, L a, L p, L, L i, L) { L t = f * i + p; L u = t - std::floor(t); L v = u < 0.25L ? 4 * u : u < 0.75L ? 2 - 4 * u : 4 * u - 4; Exp e = { a * v, false }; return e; }
template<class F> void params(F& f, F& a, F& p, F& d) { int k = (int)rng().below(3); f = k == 0 ? (F)rng().range(0, 4) : (F)(rng().range(-40, 40) / 16.0); a = (F)(rng().range(-8, 8) / 4.0); p = (F)(rng().range(-16, 16) / 16.0); d = (F)(rng().range(1, 15) / 16.0); }
#if MON_PART(0)
template<class S_, class F> void elements() { std::string tag = "<" + S_::name() + "," + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(60); ++it) { VL x = randc(rng().coin() ? rng().below(9) : rand_len(40)); std::size_t n = x.size(); VL f = DFT(x, -1), b = DFT(x, 1); S_ s(S<F>(x));
	{ MON_CASE(c, OPN("dft_element"), sh(x)); for (std::size_t i = 0; i < n; ++i) cmp1(c, sprout::dft_element(s.cb(), s.ce(), (std::ptrdiff_t)i), f[i], tol<F>(x, false), "X", i); }
	{ MON_CASE(c, OPN("idft_element"), sh(x)); for (std::size_t i = 0; i < n; ++i) cmp1(c, sprout::idft_element(s.cb(), s.ce(), (std::ptrdiff_t)i), b[i], tol<F>(x, true), "x", i); }
} }
#define ELT(N, S_) MON_TEST(el_##N) { elements<S_<sprout::complex<float> >, float>(); elements<S_<sprout::complex<double> >, double>(); elements<S_<sprout::complex<L> >, L>(); }
template<class T> using SIn = Src<In, T>; template<class T> using SFw = Src<Fw, T>; template<class T> using SRa = Src<Ra, T>; template<class T> using SRn = Src<Ra, T, NonLit>;
ELT(in, SIn) ELT(fw, SFw) ELT(ra, SRa) ELT(ranl, SRn) ELT(ptr, Ptr)
template<class F> void iters() { std::string tag = std::string("<") + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(60); ++it) { VL x = randc(1 + rand_len(30)); VL f = DFT(x, -1), b = DFT(x, 1); Ptr<sprout::complex<F> > s(S<F>(x)); std::ptrdiff_t n = (std::ptrdiff_t)x.size();
#define WALK(LABEL, MK, W, T) { MON_CASE(c, OPN(LABEL), sh(x)); auto i0 = MK(s.cb(), s.ce()), i1 = MK(s.cb(), s.ce(), n); c.eq((std::ptrdiff_t)(i1 - i0), n, "distance"); VL w = W; std::size_t k = 0; for (auto i = i0; i != i1; ++i, ++k) cmp1(c, *i, w[k], T, "forward", k); c.eq(k, x.size(), "steps"); for (auto i = i1; i != i0; ) { --i; --k; cmp1(c, *i, w[k], T, "backward", k); } std::ptrdiff_t j = (std::ptrdiff_t)rng().below((std::uint64_t)n); cmp1(c, i0[j], w[(std::size_t)j], T, "[]", (std::size_t)j); cmp1(c, *(i1 - (n - j)), w[(std::size_t)j], T, "-", (std::size_t)j); c.ok((i0 + j) - i0 == j && i0 <= i0 + j && i0 + j < i1, "order"); }
	WALK("dft_iterator", sprout::make_dft_iterator, f, tol<F>(x, false)) WALK("idft_iterator", sprout::make_idft_iterator, b, tol<F>(x, true))
	{ MON_CASE(c, OPN("amplitude_spectrum_iterator"), sh(x)); auto i0 = sprout::make_amplitude_spectrum_iterator(s.cb()); for (std::ptrdiff_t i = 0; i < n; ++i) near(c, i0[i], std::abs(x[(std::size_t)i]), 4 * std::numeric_limits<F>::epsilon() * std::abs(x[(std::size_t)i]), "amplitude"); }
	{ MON_CASE(c, OPN("phase_spectrum_iterator"), sh(x)); auto i0 = sprout::make_phase_spectrum_iterator(s.cb()); for (std::ptrdiff_t i = 0; i < n; ++i) { CL z = x[(std::size_t)i]; near(c, *(i0 + i), PH(z), 8 * std::max<L>(std::numeric_limits<F>::epsilon(), std::numeric_limits<double>::epsilon()), "phase"); } }
} }
MON_TEST(iters_f) { iters<float>(); } MON_TEST(iters_d) { iters<double>(); } MON_TEST(iters_l) { iters<L>(); }
#endif
#if MON_PART(1)
VL want(VL const& full, std::size_t off, std::size_t len, VL const& t) { VL r(full.begin() + off, full.begin() + off + len); for (std::size_t i = 0; i < len && i < t.size(); ++i) r[i] = t[i]; return r; }
template<class C, class K, class R> void chkw(C& c, K const& k, R const& r, VL const& full, VL const& t, L tl) { VL w = want(full, k.off, k.len, t); cmp(c, r, w, tl, "window"); VL iw = full; std::copy(w.begin(), w.end(), iw.begin() + k.off); cmp(c, K::in(r), iw, tl, "internal"); }
template<class S_, class F, template<class, std::size_t> class W, std::size_t N> void fixedf() { typedef W<sprout::complex<F>, N> K; std::string tag = "<" + S_::name() + "->" + K::nm() + "," + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(50); ++it) { VL x = randc(rng().below(N + 4)); VL full = randc(N); K k(S<F>(full)); S_ s(S<F>(x)); VL f = DFT(x, -1), b = DFT(x, 1);
	{ MON_CASE(c, OPN("fixed::dft"), sh(x), k.off, k.len); chkw(c, k, sprout::fixed::dft(s.cb(), s.ce(), k.r), full, f, tol<F>(x, false)); chkw(c, k, sprout::dft(s.cb(), s.ce(), k.r), full, f, tol<F>(x, false)); }
	{ MON_CASE(c, OPN("fixed::idft"), sh(x), k.off, k.len); chkw(c, k, sprout::fixed::idft(s.cb(), s.ce(), k.r), full, b, tol<F>(x, true)); chkw(c, k, sprout::idft(s.cb(), s.ce(), k.r), full, b, tol<F>(x, true)); }
	{ MON_CASE(c, OPN("fit::dft"), sh(x), k.off, k.len); VL w = f; w.resize(std::min(w.size(), k.len)); cmp(c, sprout::fit::dft(s.cb(), s.ce(), k.r), w, tol<F>(x, false), "fit"); }
	{ MON_CASE(c, OPN("fit::idft"), sh(x), k.off, k.len); VL w = b; w.resize(std::min(w.size(), k.len)); cmp(c, sprout::fit::idft(s.cb(), s.ce(), k.r), w, tol<F>(x, true), "fit"); }
	{ MON_CASE(c, OPN("fixed::dft<Result>"), sh(x)); typedef sprout::array<sprout::complex<F>, N> R; VL w = f; w.resize(N); cmp(c, sprout::fixed::dft<R>(s.cb(), s.ce()), w, tol<F>(x, false), "pit"); w = b; w.resize(N); cmp(c, sprout::fixed::idft<R>(s.cb(), s.ce()), w, tol<F>(x, true), "pit inverse"); }
	if (x.size() == N) { MON_CASE(c, OPN("idft(dft)"), sh(x)); auto r = sprout::fixed::dft<sprout::array<sprout::complex<F>, N> >(s.cb(), s.ce()); cmp(c, sprout::fixed::idft<sprout::array<sprout::complex<F>, N> >(r.begin(), r.end()), x, 2 * tol<F>(x, false), "round trip"); }
	{ MON_CASE(c, OPN("range dft"), sh(full)); auto a = arr<sprout::complex<F>, N>(S<F>(full)); typedef sprout::array<sprout::complex<F>, N> R; VL ff = DFT(full, -1), fb = DFT(full, 1); cmp(c, sprout::range::fixed::dft(a, R()), ff, tol<F>(full, false), "dft"); cmp(c, sprout::range::fixed::idft(a, R()), fb, tol<F>(full, true), "idft"); for (std::size_t i = 0; i < N; ++i) { cmp1(c, sprout::range::dft_element(a, (std::ptrdiff_t)i), ff[i], tol<F>(full, false), "dft_element", i); cmp1(c, sprout::range::idft_element(a, (std::ptrdiff_t)i), fb[i], tol<F>(full, true), "idft_element", i); } }
} }
#define FX(N, S_, W, K) MON_TEST(fx_##N) { fixedf<Src<S_, sprout::complex<float> >, float, W, K>(); fixedf<Src<S_, sprout::complex<double> >, double, W, K>(); }
FX(ra_arr, Ra, WArr, 8) FX(ra_sub, Ra, WSub, 9) FX(fw_arr, Fw, WArr, 5) FX(fw_sub, Fw, WSub, 6) FX(fw_one, Fw, WArr, 1)
// amplitude and phase spectra
template<class S_, class F, template<class, std::size_t> class W, std::size_t N> void spect() { typedef W<F, N> K; std::string tag = "<" + S_::name() + "->" + K::nm() + "," + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(60); ++it) { VL x = randc(rng().below(N + 4)); std::vector<F> full; for (std::size_t i = 0; i < N; ++i) full.push_back((F)rng().range(100, 200)); K k(full); S_ s(S<F>(x)); std::vector<L> amp, ph; L mx = 0; for (auto const& z : x) { amp.push_back(std::abs(z)); mx = std::max(mx, std::abs(z)); ph.push_back(PH(z)); } L te = std::numeric_limits<F>::epsilon() * 8;
#define SP(NAME, W_, T) { MON_CASE(c, OPN("fixed::" #NAME), sh(x), k.off, k.len); auto g = [&](typename K::R const& r) { auto in = K::in(r); for (std::size_t i = 0; i < N; ++i) { bool inw = i >= k.off && i < k.off + k.len && i - k.off < x.size(); near(c, in[i], inw ? W_[i - k.off] : (L)full[i], inw ? (T) : 0, #NAME); } c.eq((std::size_t)std::distance(r.begin(), r.end()), k.len, "length"); }; g(sprout::fixed::NAME(s.cb(), s.ce(), k.r)); g(sprout::NAME(s.cb(), s.ce(), k.r)); } \
	{ MON_CASE(c, OPN("fixed::" #NAME "<Result>"), sh(x)); auto r = sprout::fixed::NAME<sprout::array<F, N> >(s.cb(), s.ce()); for (std::size_t i = 0; i < N; ++i) near(c, r[i], i < x.size() ? W_[i] : 0, T, #NAME); } \
	{ MON_CASE(c, OPN("fit::" #NAME), sh(x), k.off, k.len); auto r = sprout::fit::NAME(s.cb(), s.ce(), k.r); std::size_t i = 0; for (auto p = r.begin(); p != r.end(); ++p, ++i) near(c, *p, i < x.size() ? W_[i] : -1, T, #NAME); c.eq(i, std::min(x.size(), k.len), "fit length"); }
	SP(amplitude_spectrum, amp, te * mx) SP(spectrum, amp, te * mx) SP(phase_spectrum, ph, te)
	{ MON_CASE(c, OPN("spectrum_value"), sh(x)); for (auto const& z : x) { sprout::complex<F> q((F)z.real(), (F)z.imag()); near(c, sprout::amplitude_spectrum_value(q), std::abs(z), te * mx, "amplitude"); near(c, sprout::phase_spectrum_value(q), PH(z), te, "phase"); } }
} }
#define SPT(N, S_, W, K) MON_TEST(sp_##N) { spect<Src<S_, sprout::complex<float> >, float, W, K>(); spect<Src<S_, sprout::complex<double> >, double, W, K>(); }
SPT(ra_arr, Ra, WArr, 6) SPT(ra_sub, Ra, WSub, 7) SPT(fw_arr, Fw, WArr, 5) SPT(fw_sub, Fw, WSub, 6)
#endif
#if MON_PART(2)
template<class F, template<class, std::size_t> class W, std::size_t N> void waves() { typedef W<F, N> K; std::string tag = "<" + K::nm() + "," + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(150); ++it) { std::vector<F> full; for (std::size_t i = 0; i < N; ++i) full.push_back((F)rng().range(100, 200)); K k(full); F f, a, p, d; params(f, a, p, d); bool df = rng().coin(1, 8); if (df) { f = 1; a = 1; p = 0; d = (F)0.5L; } L te = std::numeric_limits<F>::epsilon();
#define WV(NAME, W_, ARGS, TOL) { MON_CASE(c, OPN("fixed::" #NAME), f, a, p, d, k.off, k.len); auto v = [&](std::vector<F> const& in, std::size_t off, std::size_t len, char const* what) { for (std::size_t i = 0; i < in.size(); ++i) { bool inw = i >= off && i < off + len; if (inw) { Exp e = W_(f, a, p, d, (L)(i - off), (L)len); if (!e.edge) near(c, in[i], e.v, TOL, what); } else near(c, in[i], (L)full[i], 0, what); } }; \
		v(K::in(sprout::fixed::NAME ARGS), k.off, k.len, #NAME " fixed"); v(K::in(sprout::NAME ARGS), k.off, k.len, #NAME); if (df) v(K::in(sprout::fixed::NAME(k.r)), k.off, k.len, #NAME " default parameters"); auto r = sprout::fit::NAME ARGS; std::vector<F> g(r.begin(), r.end()); c.eq(g.size(), k.len, "fit length"); v(g, 0, k.len, #NAME " fit"); }
	WV(sinusoid, w_sin, (k.r, f, a, p), te * 40 * (1 + std::fabs(f) * 8) * std::fabs(a)) WV(sawtooth, w_saw, (k.r, f, a, p), te * 40 * (1 + N) * 4) WV(square, w_sqr, (k.r, f, a, p, d), te * 40 * (1 + N) * 8) WV(triangle, w_tri, (k.r, f, a, p), std::sqrt(te) * 8 * (1 + std::fabs(a)))
	{ MON_CASE(c, OPN("wave iterators"), f, a, p, d); auto i0 = sprout::sinusoid_iterator<F>(0, f, a, p); auto i1 = sprout::sawtooth_iterator<F>(0, f, a, p); auto i2 = sprout::square_iterator<F>(0, f, a, p, d); auto i3 = sprout::triangle_iterator<F>(0, f, a, p); for (int i = 0; i < 12; ++i) {
		near(c, *i0, w_sin(f, a, p, d, i, 1).v, te * 400 * (1 + std::fabs(f)) * std::fabs(a), "sinusoid_iterator"); near(c, sprout::sinusoid_iterator<F>(0, f, a, p)[i], w_sin(f, a, p, d, i, 1).v, te * 400 * (1 + std::fabs(f)) * std::fabs(a), "sinusoid_iterator[]"); Exp e = w_saw(f, a, p, d, i, 1); if (!e.edge) near(c, *i1, e.v, te * 2000, "sawtooth_iterator"); e = w_sqr(f, a, p, d, i, 1); if (!e.edge) near(c, *i2, e.v, te * 4000, "square_iterator"); near(c, *i3, w_tri(f, a, p, d, i, 1).v, std::sqrt(te) * 8 * (1 + std::fabs(a)), "triangle_iterator"); ++i0; ++i1; i2 += 1; i3 = i3 + 1; } }
} }
MON_TEST(w_arr_f) { waves<float, WArr, 7>(); } MON_TEST(w_arr_d) { waves<double, WArr, 8>(); waves<double, WArr, 1>(); } MON_TEST(w_sub_f) { waves<float, WSub, 6>(); } MON_TEST(w_sub_d) { waves<double, WSub, 9>(); }
#endif
#if MON_PART(3)
template<class F, std::size_t N> void ffts() { std::string tag = "<" + std::to_string(N) + "," + fn<F>() + ">"; typedef sprout::array<sprout::complex<F>, N> R; for (std::uint64_t it = 0; it < reps(25); ++it) { VL x = randc(N); VL f = DFT(x, -1), b = DFT(x, 1); auto a = arr<sprout::complex<F>, N>(S<F>(x));
	{ MON_CASE(c, OPN("fixed::fft"), sh(x)); cmp(c, sprout::fixed::fft(a, R()), f, tol<F>(x, false), "fft"); cmp(c, sprout::fixed::fft<R>(a), f, tol<F>(x, false), "fft<R>"); }
	{ MON_CASE(c, OPN("fixed::ifft"), sh(x)); cmp(c, sprout::fixed::ifft(a.begin(), a.end(), R()), b, tol<F>(x, true), "ifft"); cmp(c, sprout::fixed::ifft<R>(a.begin(), a.end()), b, tol<F>(x, true), "ifft<R>"); }
	{ MON_CASE(c, OPN("ifft(fft)"), sh(x)); R r = sprout::fixed::fft(a, R()); cmp(c, sprout::fixed::ifft(r.begin(), r.end(), R()), x, 2 * tol<F>(x, true), "round trip"); }
	{ MON_CASE(c, OPN("fit::fft"), sh(x)); cmp(c, sprout::fit::fft(a.begin(), a.end(), R()), f, tol<F>(x, false), "fit fft"); cmp(c, sprout::fit::ifft(a.begin(), a.end(), R()), b, tol<F>(x, true), "fit ifft"); }
	{ MON_CASE(c, OPN("fft of a shorter input is zero-padded"), sh(x)); VL y = x; std::size_t m = rng().below(N + 1); y.resize(m); auto v = sprout::sub(a, 0, (std::ptrdiff_t)m); VL z = y; z.resize(N); cmp(c, sprout::fixed::fft(v, R()), DFT(z, -1), tol<F>(x, false), "fft"); cmp(c, sprout::fixed::fft(a.begin(), a.begin() + m, R()), DFT(z, -1), tol<F>(x, false), "fft of iterators"); cmp(c, sprout::fixed::ifft(a.begin(), a.begin() + m, R()), DFT(z, 1), tol<F>(x, true), "ifft of iterators"); std::vector<sprout::complex<F> > hv(a.begin(), a.begin() + m); cmp(c, sprout::fixed::fft(hv.begin(), hv.end(), R()), DFT(z, -1), tol<F>(x, false), "fft of an exact heap range"); cmp(c, sprout::fixed::ifft(hv.begin(), hv.end(), R()), DFT(z, 1), tol<F>(x, true), "ifft of an exact heap range"); }
} }
MON_TEST(fft_small) { ffts<double, 1>(); ffts<double, 2>(); ffts<double, 4>(); ffts<float, 8>(); } MON_TEST(fft_16) { ffts<double, 16>(); ffts<long double, 8>(); } MON_TEST(fft_64) { ffts<double, 64>(); ffts<float, 32>(); }
template<std::size_t N> void bitrev() { std::string tag = "<" + std::to_string(N) + ">"; for (int it = 0; it < 20; ++it) { std::vector<unsigned> full; for (std::size_t i = 0; i < N; ++i) full.push_back((unsigned)rng().below(50) + 1000); WSub<unsigned, N> k(full); unsigned bits = 0; while ((std::size_t(1) << bits) < k.len) ++bits; auto rv = [&](unsigned i) { unsigned r = 0; for (unsigned j = 0; j < bits; ++j) if (i >> j & 1) r |= 1u << (bits - 1 - j); return r; }; std::vector<unsigned> w = full, q; for (std::size_t i = 0; i < k.len; ++i) { w[k.off + i] = rv((unsigned)i); q.push_back(rv((unsigned)i)); } MON_CASE(c, OPN("bitrev_table"), k.off, k.len); c.eq(k.in(sprout::fixed::bitrev_table(k.r)), w); c.eq(k.in(sprout::bitrev_table(k.r)), w); auto r = sprout::fit::bitrev_table(k.r); c.eq(std::vector<unsigned>(r.begin(), r.end()), q, "fit"); } }
MON_TEST(bitrev_) { bitrev<1>(); bitrev<2>(); bitrev<8>(); bitrev<16>(); bitrev<13>(); }
#endif
#if MON_PART(4) && __cplusplus >= 201402L
template<class S_, class F> void inplace() { std::string tag = "<" + S_::name() + "," + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(60); ++it) { VL x = randc(std::size_t(1) << rng().below(it % 8 ? 7 : 11)); VL f = DFT(x, -1), b = DFT(x, 1); S_ s(S<F>(x));
	{ MON_CASE(c, OPN("fft"), sh(x)); sprout::fft(s.mb(), s.me()); cmp(c, s.buf, f, tol<F>(x, false), "fft"); sprout::ifft(s.mb(), s.me()); cmp(c, s.buf, x, 2 * tol<F>(x, false), "round trip"); }
	{ S_ q(S<F>(x)); MON_CASE(c, OPN("ifft"), sh(x)); sprout::ifft(q.mb(), q.me()); cmp(c, q.buf, b, tol<F>(x, true), "ifft"); }
} }
MON_TEST(ip_ptr_d) { inplace<Ptr<sprout::complex<double> >, double>(); } MON_TEST(ip_ra_f) { inplace<Src<Ra, sprout::complex<float> >, float>(); } MON_TEST(ip_ptr_l) { inplace<Ptr<sprout::complex<L> >, L>(); }
template<class F> void wav14() { std::string tag = std::string(" in place<") + fn<F>() + ">"; for (std::uint64_t it = 0; it < reps(200); ++it) { std::size_t n = rng().below(20); F f, a, p, d; params(f, a, p, d); bool df = rng().coin(1, 8); if (df) { f = 1; a = 1; p = 0; d = (F)0.5L; } L te = std::numeric_limits<F>::epsilon();
#define W14(NAME, W_, ARGS, TOL) { MON_CASE(c, OPN(#NAME), f, a, p, d, n); Src<Fw, F> s(std::vector<F>(n, F(7))); if (df) sprout::NAME(s.mb(), s.me()); else sprout::NAME ARGS; for (std::size_t i = 0; i < n; ++i) { Exp e = W_(f, a, p, d, (L)i, (L)n); if (!e.edge) near(c, s.buf[i], e.v, TOL, #NAME); } }
	W14(sinusoid, w_sin, (s.mb(), s.me(), f, a, p), te * 40 * (1 + std::fabs(f) * 8) * std::fabs(a)) W14(sawtooth, w_saw, (s.mb(), s.me(), f, a, p), te * 4000) W14(square, w_sqr, (s.mb(), s.me(), f, a, p, d), te * 8000) W14(triangle, w_tri, (s.mb(), s.me(), f, a, p), std::sqrt(te) * 8 * (1 + std::fabs(a)))
} }
MON_TEST(w14_f) { wav14<float>(); } MON_TEST(w14_d) { wav14<double>(); }
MON_TEST(sp14) { std::string tag = " in place"; for (std::uint64_t it = 0; it < reps(100); ++it) { VL x = randc(rng().below(12)); Src<In, sprout::complex<double> > s(S<double>(x)); Src<Fw, double> o(std::vector<double>(x.size(), 7.0));
#define S14(NAME, W_) { MON_CASE(c, OPN(#NAME), sh(x)); auto r = sprout::NAME(s.cb(), s.ce(), o.mb()); c.eq(o.off(r), (std::ptrdiff_t)x.size(), "end"); for (std::size_t i = 0; i < x.size(); ++i) near(c, o.buf[i], W_, 1e-14L * (1 + std::abs(x[i])), #NAME); }
	S14(amplitude_spectrum, std::abs(x[i])) S14(spectrum, std::abs(x[i])) S14(phase_spectrum, PH(x[i])) } }
#endif
