// range::fixed, range::fit and string case algorithms over ranges == the iterator forms.
#include "rg.hpp"
#include <sprout/range/algorithm/string.hpp>
#include <sprout/algorithm/string.hpp>
#include <sprout/algorithm/string/join.hpp>
#include <sprout/string.hpp>
#include <sprout/range/numeric/dft.hpp>
namespace rg = sprout::range;
#define OPN(n) (n + tag)
template<class A> V vs(A const& a) { V r; std::size_t k = 0; for (auto i = sprout::begin(a), e = sprout::end(a); i != e && k < 64; ++i, ++k) r.push_back((int)*i); return r; }
#define IT1 s.cb(), s.ce()
#define IT2 s.cb(), s.ce(), t.cb(), t.ce()
#define F1(NAME, ...) { MON_CASE(c, OPN(#NAME), v, k); c.eq(vs(rg::fixed::NAME(r, res, ##__VA_ARGS__)), vs(sprout::fixed::NAME(IT1, res, ##__VA_ARGS__)), "fixed with result"); c.eq(vs(rg::NAME(r, res, ##__VA_ARGS__)), vs(sprout::NAME(IT1, res, ##__VA_ARGS__)), "unqualified alias"); c.eq(vs(rg::fixed::NAME<Res>(r, ##__VA_ARGS__)), vs(sprout::fixed::NAME<Res>(IT1, ##__VA_ARGS__)), "fixed<Result>"); c.eq(vs(rg::fit::NAME(r, res, ##__VA_ARGS__)), vs(sprout::fit::NAME(IT1, res, ##__VA_ARGS__)), "fit"); }
#define F2(NAME, ...) { MON_CASE(c, OPN(#NAME), v, w); c.eq(vs(rg::fixed::NAME(r, q, res, ##__VA_ARGS__)), vs(sprout::fixed::NAME(IT2, res, ##__VA_ARGS__)), "fixed with result"); c.eq(vs(rg::NAME(r, q, res, ##__VA_ARGS__)), vs(sprout::NAME(IT2, res, ##__VA_ARGS__)), "unqualified alias"); c.eq(vs(rg::fixed::NAME<Res>(r, q, ##__VA_ARGS__)), vs(sprout::fixed::NAME<Res>(IT2, ##__VA_ARGS__)), "fixed<Result>"); c.eq(vs(rg::fit::NAME(r, q, res, ##__VA_ARGS__)), vs(sprout::fit::NAME(IT2, res, ##__VA_ARGS__)), "fit"); }
template<class F> void work(F f) { for (int n = 0; n <= 3; ++n) all_seqs(n, 3, [&](V const& v) { f(v, V{0, 1}); }); for (std::uint64_t i = 0; i < reps(40); ++i) { int hi = (int)rng().pick(V{2, 5, 50}); V v = rand_seq(rand_len(12), 0, hi), w = rand_seq(rand_len(12), 0, hi); f(v, w); } }
struct Un { int operator()(int x) const { return x * 2 + 1; } };
template<class S, std::size_t N> void go() { std::string tag = "<" + S::name() + "," + str(N) + ">"; typedef sprout::array<int, N> Res; Res res; for (std::size_t i = 0; i < N; ++i) res[i] = 100 + (int)i; work([&](V const& v, V const& w) { S s(v), t(w); auto r = mkr(s.cb(), s.ce()); auto q = mkr(t.cb(), t.ce()); int k = w.empty() ? 1 : w[0]; Geq ge(k); EqMod em(2); Desc ds(1); (void)q;
#if MON_PART(0)
	F1(copy) F1(copy_if, ge) F1(copy_until, ge) F1(copy_while, ge) F1(partition_copy, ge) F1(stable_partition_copy, ge) F1(remove_copy, k) F1(remove_copy_if, ge) F1(replace_copy, k, 9) F1(replace_copy_if, ge, 9)
	{ MON_CASE(c, OPN("copy/std"), v); V x(vs(res)); for (std::size_t i = 0; i < N && i < v.size(); ++i) x[i] = v[i]; c.eq(vs(rg::fixed::copy(r, res)), x); x = vs(res); std::size_t j = 0; for (int y : v) if (y != k && j < N) x[j++] = y; c.eq(vs(rg::fixed::remove_copy(r, res, k)), x, "remove_copy"); }
#endif
#if MON_PART(1)
	F1(unique_copy) F1(unique_copy, em) F1(clamp_range_copy, 1, 2) F1(clamp_range_copy, 2, 1, ds) F1(transform, Un())
	F1(partial_sum) F1(partial_sum, std::minus<int>()) F1(adjacent_difference) F1(adjacent_difference, std::plus<int>()) F1(exclusive_scan, 5) F1(exclusive_scan, 5, std::minus<int>()) F1(inclusive_scan) F1(inclusive_scan, std::plus<int>()) F1(inclusive_scan, std::plus<int>(), 5) F1(transform_exclusive_scan, 5, std::plus<int>(), Un()) F1(transform_inclusive_scan, std::plus<int>(), Un()) F1(transform_inclusive_scan, std::plus<int>(), Un(), 5)
#endif
#if MON_PART(2)
	{ V x(v), y(w); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); { S s(x), t(y); auto r = mkr(s.cb(), s.ce()); auto q = mkr(t.cb(), t.ce()); F2(merge) F2(set_difference) F2(set_intersection) F2(set_symmetric_difference) F2(set_union) } std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); { S s(x), t(y); auto r = mkr(s.cb(), s.ce()); auto q = mkr(t.cb(), t.ce()); F2(merge, ds) F2(set_difference, ds) F2(set_intersection, ds) F2(set_symmetric_difference, ds) F2(set_union, ds) } }
	{ MON_CASE(c, OPN("transform2"), v); V y(v); for (auto& z : y) z += 7; S t(y); auto q = mkr(t.cb(), t.ce()); std::minus<int> op; c.eq(vs(rg::fixed::transform(r, q, res, op)), vs(sprout::fixed::transform(IT1, t.cb(), res, op))); c.eq(vs(rg::fixed::transform<Res>(r, q, op)), vs(sprout::fixed::transform<Res>(IT1, t.cb(), op)), "fixed<Result>"); c.eq(vs(rg::fit::transform(r, q, res, op)), vs(sprout::fit::transform(IT1, t.cb(), res, op)), "fit"); }
	for (std::size_t m = 0; m <= v.size(); m += 1 + v.size() / 3) { MON_CASE(c, OPN("rotate_copy"), v, m); c.eq(vs(rg::fixed::rotate_copy(r, s.cat(m), res)), vs(sprout::fixed::rotate_copy(s.cb(), s.cat(m), s.ce(), res))); c.eq(vs(rg::fixed::rotate_copy<Res>(r, s.cat(m))), vs(sprout::fixed::rotate_copy<Res>(s.cb(), s.cat(m), s.ce())), "fixed<Result>"); c.eq(vs(rg::fit::rotate_copy(r, s.cat(m), res)), vs(sprout::fit::rotate_copy(s.cb(), s.cat(m), s.ce(), res)), "fit"); }
	if (v.size()) { std::size_t a = v.size() / 2, b = v.size() - 1; MON_CASE(c, OPN("swap_element_copy"), v, a, b); c.eq(vs(rg::fixed::swap_element_copy(r, res, s.cat(a), s.cat(b))), vs(sprout::fixed::swap_element_copy(IT1, res, s.cat(a), s.cat(b)))); c.eq(vs(rg::fixed::swap_element_copy<Res>(r, s.cat(a), s.cat(b))), vs(sprout::fixed::swap_element_copy<Res>(IT1, s.cat(a), s.cat(b))), "fixed<Result>"); c.eq(vs(rg::fit::swap_element_copy(r, res, s.cat(a), s.cat(b))), vs(sprout::fit::swap_element_copy(IT1, res, s.cat(a), s.cat(b))), "fit"); }
#endif
}); }
template<class S, std::size_t N> void gob() {
#if MON_PART(3)
 std::string tag = "<" + S::name() + "," + str(N) + ">"; typedef sprout::array<int, N> Res; Res res; for (std::size_t i = 0; i < N; ++i) res[i] = 100 + (int)i; work([&](V const& v, V const&) { S s(v); auto r = mkr(s.cb(), s.ce()); int k = 0; F1(reverse_copy) F1(copy_backward) });
#endif
}
#if MON_PART(3)
MON_TEST(bi) { gob<SBi, 1>(); gob<SBi, 3>(); gob<SBi, 8>(); gob<SBi, 0>(); gob<SBi, 2>(); } MON_TEST(ra) { gob<SRa, 1>(); gob<SRa, 3>(); gob<SRa, 8>(); } MON_TEST(ptr) { gob<SPt, 1>(); gob<SPt, 3>(); gob<SPt, 8>(); }
template<std::size_t N> void dftn() { std::string tag = "<" + str(N) + ">"; typedef sprout::complex<double> C; for (std::uint64_t i = 0; i < reps(20); ++i) { sprout::array<C, N> a; for (std::size_t j = 0; j < N; ++j) a[j] = C(rng().range(-9, 9), rng().range(-9, 9)); sprout::array<double, N> res = {{}}; sprout::array<C, N> cr = {{}}; auto b = sprout::begin(a), e = sprout::end(a); auto same = [](double x, double y) { return x == y || (x != x && y != y); };
	{ MON_CASE(c, OPN("range dft"), str(a[0].real()), str(i)); auto x = rg::fixed::dft(a, cr); auto y = sprout::fixed::dft(b, e, cr); bool ok = true; for (std::size_t j = 0; j < N; ++j) ok = ok && same(x[j].real(), y[j].real()) && same(x[j].imag(), y[j].imag()); c.ok(ok, "dft"); auto x2 = rg::fixed::idft(a, cr); auto y2 = sprout::fixed::idft(b, e, cr); ok = true; for (std::size_t j = 0; j < N; ++j) ok = ok && same(x2[j].real(), y2[j].real()) && same(x2[j].imag(), y2[j].imag()); c.ok(ok, "idft"); for (std::size_t j = 0; j < N; ++j) { auto z = rg::dft_element(a, (std::ptrdiff_t)j); auto zz = sprout::dft_element(b, e, (std::ptrdiff_t)j); c.ok(same(z.real(), zz.real()) && same(z.imag(), zz.imag()), "dft_element"); auto u = rg::idft_element(a, (std::ptrdiff_t)j); auto uu = sprout::idft_element(b, e, (std::ptrdiff_t)j); c.ok(same(u.real(), uu.real()) && same(u.imag(), uu.imag()), "idft_element"); } }
	{ MON_CASE(c, OPN("range spectra"), str(a[0].real()), str(i)); auto x = rg::fixed::amplitude_spectrum(a, res); auto y = sprout::fixed::amplitude_spectrum(b, e, res); bool ok = true; for (std::size_t j = 0; j < N; ++j) ok = ok && same(x[j], y[j]); c.ok(ok, "amplitude"); x = rg::fixed::phase_spectrum(a, res); y = sprout::fixed::phase_spectrum(b, e, res); ok = true; for (std::size_t j = 0; j < N; ++j) ok = ok && same(x[j], y[j]); c.ok(ok, "phase"); x = rg::fixed::spectrum(a, res); y = sprout::fixed::spectrum(b, e, res); ok = true; for (std::size_t j = 0; j < N; ++j) ok = ok && same(x[j], y[j]); c.ok(ok, "spectrum"); } } }
template<std::size_t N> sprout::basic_string<char, N> ss(std::string const& t) { return sprout::basic_string<char, N>(t.c_str(), t.size()); }
template<class A> std::string st(A const& a) { std::string r; std::size_t k = 0; for (auto i = sprout::begin(a), e = sprout::end(a); i != e && k < 300; ++i, ++k) r += (char)*i; return r; }
inline std::string rstr(std::size_t mx) { std::size_t n = rng().below(mx + 1); std::string r; for (std::size_t i = 0; i < n; ++i) r += (char)(rng().coin(1, 8) ? (int)rng().range(1, 127) : (int)rng().range(60, 126)); return r; }
inline std::string cas(std::string s, bool up) { for (auto& c : s) c = (char)(up ? (c >= 'a' && c <= 'z' ? c - 32 : c) : (c >= 'A' && c <= 'Z' ? c + 32 : c)); return s; }
template<std::size_t N> void casec() { std::string tag = "<" + str(N) + ">"; for (std::uint64_t i = 0; i < reps(80); ++i) { std::string u = rstr(N); if (i < 2) u = std::string(i ? N : 0, 'a'); auto s = ss<N>(u); sprout::array<char, N + 2> pad; for (auto& c : pad) c = '.'; std::string lo = cas(u, false), up = cas(u, true);
	{ MON_CASE(c, OPN("to_lower"), u); c.eq(st(sprout::to_lower(s)), lo, "string"); c.eq(st(sprout::fit::to_lower(s)), lo, "fit"); c.eq(st(sprout::to_upper(s)), up, "upper"); c.eq(st(sprout::fit::to_upper(s)), up, "fit upper"); }
	{ MON_CASE(c, OPN("to_lower_copy"), u); std::string d(N + 2, '.'); auto ov = [&](std::string x) { std::string y(d); y.replace(0, x.size(), x); return y; }; c.eq(st(sprout::to_lower_copy(s.begin(), s.end(), pad)), ov(lo)); c.eq(st(sprout::to_upper_copy(s.begin(), s.end(), pad)), ov(up)); c.eq(st(sprout::fit::to_lower_copy(s.begin(), s.end(), pad)), lo, "fit"); c.eq(st(sprout::fit::to_upper_copy(s.begin(), s.end(), pad)), up, "fit upper"); c.eq(st(rg::to_lower_copy(s, pad)), ov(lo), "range"); c.eq(st(rg::to_upper_copy(s, pad)), ov(up), "range upper"); c.eq(st(rg::fit::to_lower_copy(s, pad)), lo, "range fit"); c.eq(st(rg::fit::to_upper_copy(s, pad)), up, "range fit upper"); Ptr<char> pp(std::vector<char>(u.begin(), u.end())); c.eq(st(sprout::to_lower_copy(pp.cb(), pp.ce(), pad)), ov(lo), "pointer"); c.eq(st(sprout::to_lower_copy<sprout::array<char, N + 2> >(s.begin(), s.end())).substr(0, u.size()), lo, "<Result>"); } } }
template<std::size_t K, std::size_t N> void joinc() { std::string tag = "<" + str(K) + "," + str(N) + ">"; for (std::uint64_t i = 0; i < reps(60); ++i) { sprout::array<sprout::basic_string<char, N>, K> a; std::vector<std::string> v; for (std::size_t j = 0; j < K; ++j) { std::string u = i == 0 ? "" : i == 1 ? std::string(N, 'x') : rstr(N); v.push_back(u); a[j] = ss<N>(u); } auto jn = [&](std::string const& sep) { std::string r; for (std::size_t j = 0; j < K; ++j) { if (j) r += sep; r += v[j]; } return r; };
	{ MON_CASE(c, OPN("join"), jn("|")); c.eq(std::string(sprout::algorithm::join(a).c_str()), jn("")); c.eq(sprout::algorithm::join(a).size(), jn("").size(), "size"); }
	{ MON_CASE(c, OPN("join(sep)"), jn("|")); c.eq(std::string(sprout::algorithm::join(a, ", ").c_str()), jn(", "), "literal"); c.eq(std::string(sprout::algorithm::join(a, ss<3>("+")).c_str()), jn("+"), "string"); c.eq(std::string(sprout::algorithm::join(a, ss<3>("")).c_str()), jn(""), "empty separator"); c.eq(std::string(sprout::algorithm::join(a, "").c_str()), jn(""), "empty literal"); }
	{ sprout::array<sprout::array<int, N>, K> b; V x, y; for (std::size_t j = 0; j < K; ++j) { if (j) y.insert(y.end(), {7, 8}); for (std::size_t m = 0; m < N; ++m) { b[j][m] = (int)rng().range(0, 99); x.push_back(b[j][m]); y.push_back(b[j][m]); } } MON_CASE(c, OPN("join arrays"), x); c.eq(vs(sprout::algorithm::join(b)), x); sprout::array<int, 2> sp{{7, 8}}; c.eq(vs(sprout::algorithm::join(b, sp)), y, "separator"); } } }
MON_TEST(str_case) { casec<1>(); casec<5>(); casec<16>(); }
MON_TEST(join) { joinc<1, 3>(); joinc<3, 4>(); joinc<4, 1>(); joinc<2, 7>(); }
MON_TEST(dft) { dftn<1>(); dftn<4>(); dftn<7>(); }
#else
MON_TEST(fw) { go<SFw, 1>(); go<SFw, 4>(); go<SFw, 8>(); } MON_TEST(bi) { go<SBi, 2>(); go<SBi, 0>(); } MON_TEST(ra) { go<SRa, 1>(); go<SRa, 4>(); go<SRa, 8>(); } MON_TEST(ptr) { go<SPt, 3>(); go<SPt, 6>(); }
#endif
