// C23: integer mathematics against 128-bit reference arithmetic.
#include <mon.hpp>
#include <cfloat>
#include <iomanip>
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
#include <sprout/math/factorial.hpp>
#include <sprout/math/bernoulli.hpp>
#include <sprout/math/is_even.hpp>
#include <sprout/math/is_odd.hpp>
#include <sprout/integer/static_pow.hpp>
#include <sprout/integer/integer_digits.hpp>
#include <sprout/integer/carry_to_exp2.hpp>
#include <sprout/detail/math/int.hpp>
#include <sprout/cstdlib/div.hpp>
#include <sprout/cstdlib/abs.hpp>
#include <sprout/cinttypes/div.hpp>
#include <sprout/cinttypes/abs.hpp>
using namespace mon; typedef __int128 W;
template<class T> char const* tname();
template<> inline char const* tname<char>() { return "char"; } template<> inline char const* tname<signed char>() { return "signed char"; } template<> inline char const* tname<unsigned char>() { return "unsigned char"; } template<> inline char const* tname<short>() { return "short"; } template<> inline char const* tname<unsigned short>() { return "unsigned short"; } template<> inline char const* tname<wchar_t>() { return "wchar_t"; } template<> inline char const* tname<char16_t>() { return "char16_t"; } template<> inline char const* tname<int>() { return "int"; } template<> inline char const* tname<unsigned>() { return "unsigned"; } template<> inline char const* tname<long>() { return "long"; } template<> inline char const* tname<unsigned long>() { return "unsigned long"; } template<> inline char const* tname<long long>() { return "long long"; } template<> inline char const* tname<unsigned long long>() { return "unsigned long long"; } template<> inline char const* tname<float>() { return "float"; } template<> inline char const* tname<double>() { return "double"; } template<> inline char const* tname<long double>() { return "long double"; }
inline W wabs(W x) { return x < 0 ? -x : x; }
inline W wgcd(W a, W b) { a = wabs(a); b = wabs(b); while (b) { W t = a % b; a = b; b = t; } return a; }
template<class T> bool fits(W x) { return x >= (W)std::numeric_limits<T>::min() && x <= (W)std::numeric_limits<T>::max(); }
inline std::string ws(W x) { bool n = x < 0; std::string s; do { int d = (int)(x % 10); s.insert(s.begin(), (char)('0' + (d < 0 ? -d : d))); x /= 10; } while (x); return n ? "-" + s : s; }
template<class C, class T> void is(C& c, T got, W want, char const* n) { if ((W)got != want) c.failed(std::string(n) + " got=" + ws((W)got) + " want=" + ws(want)); }
template<class T> std::vector<T> vals() { typedef std::numeric_limits<T> L; std::vector<T> v; for (int i = 0; i < (int)sizeof(T) * 8; ++i) for (int d = -1; d <= 1; ++d) { W x = ((W)1 << i) + d; if (fits<T>(x)) v.push_back((T)x); if (fits<T>(-x)) v.push_back((T)-x); } v.push_back(L::min()); v.push_back(L::max()); v.push_back((T)(L::max() - 1)); v.push_back((T)(L::min() + 1)); for (int x : { 6, 12, 30, 100, 120 }) v.push_back((T)x); return v; }
template<class T> T rnd() { std::uint64_t a = rng()(); int k = (int)rng().range(0, (int)sizeof(T) * 8 - 1); if (sizeof(T) < 8) a &= (1ull << (sizeof(T) * 8)) - 1; a >>= k; T r = (T)a; return std::is_signed<T>::value && rng().coin() ? (T)(0ull - (std::uint64_t)r) : r; }
template<class T> void two(T a, T b) {
	if (std::is_same<T, wchar_t>::value && (a == std::numeric_limits<T>::min() || b == std::numeric_limits<T>::min())) return; // generic (non-built-in) path: type minimum not claimed
	if (fits<T>(wgcd(a, b))) { MON_CASE(c, std::string("gcd<") + tname<T>() + ">", (long long)a, (long long)b); W g = wgcd(a, b); is(c, sprout::gcd(a, b), g, "gcd"); is(c, sprout::math::gcd_evaluator<T>()(a, b), g, "gcd_evaluator"); is(c, sprout::math::gcd_evaluator<>()(a, b), g, "gcd_evaluator<>"); }
	W g = wgcd(a, b), l0 = 0; unsigned __int128 lu = g ? (unsigned __int128)(wabs(a) / g) * (unsigned __int128)wabs(b) : 0; W l = lu > (unsigned __int128)std::numeric_limits<T>::max() ? (W)-1 - (W)std::numeric_limits<T>::max() - 1 : (W)lu; (void)l0;
	if (l >= 0) { MON_CASE(c, std::string("lcm<") + tname<T>() + ">", (long long)a, (long long)b); is(c, sprout::lcm(a, b), l, "lcm"); is(c, sprout::math::lcm_evaluator<T>()(a, b), l, "lcm_evaluator"); is(c, sprout::math::lcm_evaluator<>()(a, b), l, "lcm_evaluator<>"); } }
template<class T> void pairs() { if (sizeof(T) == 1) { for (int a = std::numeric_limits<T>::min(); a <= std::numeric_limits<T>::max(); ++a) for (int b = std::numeric_limits<T>::min(); b <= std::numeric_limits<T>::max(); ++b) if (thorough() || (a + b) % 5 == 0 || a < -120 || b < -120) two((T)a, (T)b); return; }
	int lo = std::is_signed<T>::value ? -40 : 0; for (int a = lo; a <= 40; ++a) for (int b = lo; b <= 40; ++b) two((T)a, (T)b);
	auto v = vals<T>(); for (T a : v) for (T b : v) if (thorough() || rng().coin(1, 3) || a == std::numeric_limits<T>::min() || b == std::numeric_limits<T>::min()) two(a, b);
	for (std::uint64_t i = 0; i < reps(6000); ++i) { T a = rnd<T>(), b = rnd<T>(); two(a, b); T g = (T)rng().range(1, 50); two((T)(a / 64 * g), (T)(b / 64 * g)); } }
template<class T> void carry(T x) { MON_CASE(c, std::string("carry_to_exp2<") + tname<T>() + ">", (long long)x); W a = wabs(x), p = 0; if (a) for (p = 1; p < a; ) p *= 2; W want = x == std::numeric_limits<T>::min() ? (W)x : x < 0 ? -p : p;
	if (!fits<T>(want)) want = std::is_signed<T>::value ? (W)std::numeric_limits<T>::min() : 0; is(c, sprout::carry_to_exp2(x), want, "carry_to_exp2"); }
template<int B, class T> void digs(T x) { MON_CASE(c, std::string("int_digits<") + std::to_string(B) + "," + tname<T>() + ">", (long long)x); int n = 0; std::vector<int> d; W y = wabs(x); do { d.push_back((int)(y % B)); y /= B; ++n; } while (y); is(c, sprout::detail::int_digits<B>(x), n, "int_digits"); for (int i = 0; i < n; ++i) is(c, sprout::detail::int_digit_at<B>(x, i), d[i], "int_digit_at"); }
template<class T, int B> void ipow() { W p = 1; for (int e = 0; fits<T>(p); ++e, p *= B) { MON_CASE(c, std::string("int_pow<") + tname<T>() + "," + std::to_string(B) + ">", e); is(c, sprout::detail::int_pow<T, B>(e), p, "int_pow"); } }
template<class T, int B> void idig() { MON_CASE(c, std::string("integer_digits<") + tname<T>() + ">", B); W y = std::numeric_limits<T>::max(); int n = 0; while (y) { y /= B; ++n; } is(c, (long long)sprout::integer_digits<T, B>::value, n, "integer_digits"); }
template<class T> void single() { auto v = vals<T>(); if (sizeof(T) == 1) for (int i = std::numeric_limits<T>::min(); i <= std::numeric_limits<T>::max(); ++i) v.push_back((T)i); for (std::uint64_t i = 0; i < reps(1500); ++i) v.push_back(rnd<T>());
	for (T x : v) { carry(x); digs<10>(x); digs<2>(x); digs<16>(x); digs<7>(x); }
	ipow<T, 10>(); ipow<T, 2>(); ipow<T, 16>(); ipow<T, 3>();
	idig<T, 2>(); idig<T, 3>(); idig<T, 4>(); idig<T, 5>(); idig<T, 6>(); idig<T, 7>(); idig<T, 8>(); idig<T, 9>(); idig<T, 10>(); idig<T, 11>(); idig<T, 12>(); idig<T, 13>(); idig<T, 14>(); idig<T, 15>(); idig<T, 16>();
	W f = 1; for (std::size_t i = 0; i <= sprout::factorial_limit<T>(); ++i) { if (i) f *= (W)i; MON_CASE(c, std::string("factorial<") + tname<T>() + ">", i); c.ok(fits<T>(f), "factorial_limit beyond the type"); is(c, sprout::factorial<T>(i), f, "factorial"); is(c, sprout::unchecked_factorial<T>(i), f, "unchecked_factorial"); }
	for (long long x0 : v) if (std::is_signed<T>::value && fits<T>(wabs(x0))) { typedef typename std::conditional<std::is_signed<T>::value, T, int>::type S; S x = (S)x0; { MON_CASE(c, std::string("abs<") + tname<T>() + ">", (long long)x); is(c, sprout::abs(x), wabs(x), "abs"); } } }
template<class T, T X, T Y> void sp1() { W p = 1; for (W i = 0; i < (W)Y; ++i) p *= X; MON_CASE(c, std::string("static_pow<") + tname<T>() + ">", (long long)X, (long long)Y); is(c, sprout::static_pow<T, X, Y>::value, p, "static_pow"); }
template<class T, T X, int Y, bool Ok> struct SP { static void go() { sp1<T, X, (T)Y>(); SP<T, X, Y - 1, (Y > 0)>::go(); } };
template<class T, T X, int Y> struct SP<T, X, Y, false> { static void go() {} };
template<class T, int E, bool = (E >= 0)> struct P2 { static void go() { MON_CASE(c, std::string("static_pow2<") + tname<T>() + ">", E); is(c, sprout::static_pow2<T, (T)E>::value, (W)1 << E, "static_pow2"); is(c, sprout::static_pow2m1<T, (T)E>::value, ((W)1 << E) - 1, "static_pow2m1"); P2<T, E - 1>::go(); } };
template<class T, int E> struct P2<T, E, false> { static void go() {} };
template<class T> void fact() { long double f = 1; for (std::size_t i = 0; i <= sprout::factorial_limit<T>(); ++i) { if (i) f *= (long double)i; MON_CASE(c, std::string("factorial<") + tname<T>() + ">", i); long double g = sprout::factorial<T>(i); long double e = std::numeric_limits<T>::epsilon(); c.ok(std::fabs(g - f) <= f * (e * 0.51L + 100 * LDBL_EPSILON), "factorial value"); if (i <= 20 && f < 1 / e) c.ok(g == f, "exact"); } }
inline long double zeta(int n) { long double s = 0; for (int k = n < 4 ? 2000 : n < 8 ? 400 : 60; k >= 1; --k) s += powl((long double)k, -(long double)n); 
	int N = n < 4 ? 2001 : n < 8 ? 401 : 61; long double x = N; // Euler-Maclaurin tail from N
	s += powl(x, 1.0L - n) / (n - 1) + powl(x, -(long double)n) / 2 + n * powl(x, -(long double)n - 1) / 12 - (long double)n * (n + 1) * (n + 2) * powl(x, -(long double)n - 3) / 720; return s; }
template<class T> void bern() { for (std::size_t i = 0; i <= sprout::math::bernoulli_number_limit<T>(); ++i) { MON_CASE(c, std::string("bernoulli_number<") + tname<T>() + ">", i); long double w; if (i == 0) w = 1; else if (i == 1) w = -0.5L; else if (i % 2) w = 0; else { w = 2 * zeta((int)i); long double pi2 = 2 * 3.14159265358979323846264338327950288L; for (std::size_t k = 1; k <= i; ++k) w *= k / pi2; if (i / 2 % 2 == 0) w = -w; }
	long double g = sprout::bernoulli_number<T>(i); if (!(std::fabs(g - w) <= std::fabs(w) * (2 * (long double)std::numeric_limits<T>::epsilon() + 2e-17L))) { std::ostringstream o; o << std::setprecision(21) << g << " want " << w; c.failed(o.str()); } } }
template<class F> void par() { auto one = [](F x, int p) { MON_CASE(c, std::string("parity<") + tname<F>() + ">", x); c.eq(sprout::is_even(x), p == 0); c.eq(sprout::is_odd(x), p == 1); };
	for (int i = -200; i <= 200; ++i) { one((F)i, i & 1); one((F)i + (F)0.5, 2); } F big = std::ldexp((F)1, std::numeric_limits<F>::digits - 1); for (F b : { big, -big }) for (int k = 0; k < 6; ++k) { one(b + k, k & 1); } one(big * 2, 0); one(big * 2 + 2, 0); one(std::numeric_limits<F>::max(), 0); one(-std::numeric_limits<F>::max(), 0); one(std::numeric_limits<F>::infinity(), 2); one(-std::numeric_limits<F>::infinity(), 2); one(std::numeric_limits<F>::quiet_NaN(), 2); one(-(F)0, 0); one(std::numeric_limits<F>::denorm_min(), 2); one(std::numeric_limits<F>::min(), 2);
	for (std::uint64_t i = 0; i < reps(1500); ++i) { long long v = (long long)(rng()() >> rng().range(2, 62)); F x = (F)v; if ((long long)x == v) one(rng().coin() ? x : -x, (int)(v & 1)); } }
template<class T, class F> void dv(F f, char const* n) { auto v = vals<T>(); std::vector<T> w; for (T x : v) if (rng().coin(1, 3)) w.push_back(x); for (int i = -12; i <= 12; ++i) w.push_back((T)i); w.push_back(std::numeric_limits<T>::min()); w.push_back(std::numeric_limits<T>::max()); for (std::uint64_t i = 0; i < reps(60); ++i) w.push_back(rnd<T>());
	for (T a : w) for (T b : w) if (b != 0 && !(b == -1 && a == std::numeric_limits<T>::min())) { MON_CASE(c, n, (long long)a, (long long)b); auto r = f(a, b); is(c, r.quot, (W)a / b, "quot"); is(c, r.rem, (W)a % b, "rem"); is(c, sprout::tuple_get<0>(r), (W)a / b, "get<0>"); is(c, sprout::tuple_get<1>(r), (W)a % b, "get<1>"); auto const& k = r; is(c, sprout::tuple_get<0>(k), (W)a / b, "get<0> const"); is(c, sprout::tuple_get<1>(k), (W)a % b, "get<1> const"); } }
#if MON_PART(0)
MON_TEST(gcd8) { pairs<signed char>(); pairs<unsigned char>(); pairs<char>(); } MON_TEST(gcd16) { pairs<short>(); pairs<unsigned short>(); pairs<wchar_t>(); pairs<char16_t>(); } MON_TEST(gcd32) { pairs<int>(); pairs<unsigned>(); } MON_TEST(gcd64) { pairs<long>(); pairs<unsigned long>(); pairs<long long>(); pairs<unsigned long long>(); }
#endif
#if MON_PART(1)
MON_TEST(single8) { single<signed char>(); single<unsigned char>(); } MON_TEST(single16) { single<short>(); single<unsigned short>(); } MON_TEST(single32) { single<int>(); single<unsigned>(); } MON_TEST(single64) { single<long>(); single<unsigned long>(); single<long long>(); single<unsigned long long>(); }
MON_TEST(flt) { fact<float>(); fact<double>(); fact<long double>(); bern<float>(); bern<double>(); bern<long double>(); par<float>(); par<double>(); par<long double>(); }
MON_TEST(spow) { SP<int, 2, 30, true>::go(); SP<int, 3, 19, true>::go(); SP<int, -3, 19, true>::go(); SP<long, 10, 18, true>::go(); SP<unsigned long, 10, 19, true>::go(); SP<long long, -7, 22, true>::go(); SP<int, 0, 5, true>::go(); SP<unsigned char, 2, 7, true>::go(); SP<int, 1, 40, true>::go(); SP<int, -1, 41, true>::go(); P2<int, 30>::go(); P2<unsigned, 31>::go(); P2<long, 62>::go(); P2<unsigned long, 63>::go(); P2<unsigned char, 7>::go(); P2<short, 14>::go(); }
MON_TEST(divs) { dv<int>([](int a, int b) { return sprout::div(a, b); }, "div(int)"); dv<long>([](long a, long b) { return sprout::div(a, b); }, "div(long)"); dv<long long>([](long long a, long long b) { return sprout::div(a, b); }, "div(long long)"); dv<long>([](long a, long b) { return sprout::ldiv(a, b); }, "ldiv"); dv<long long>([](long long a, long long b) { return sprout::lldiv(a, b); }, "lldiv"); dv<std::intmax_t>([](std::intmax_t a, std::intmax_t b) { return sprout::imaxdiv(a, b); }, "imaxdiv");
	for (long x : vals<long>()) if (x != std::numeric_limits<long>::min()) { MON_CASE(c, "labs", x); is(c, sprout::labs(x), wabs(x), "labs"); is(c, sprout::llabs((long long)x), wabs(x), "llabs"); is(c, sprout::imaxabs(x), wabs(x), "imaxabs"); } }
MON_TEST(ce) { constexpr int g = sprout::gcd(12, -18) + sprout::lcm(4, 6) + sprout::factorial<int>(5); constexpr auto d = sprout::div(-7, 2); MON_CASE(c, "constexpr", 0); c.eq(g, 6 + 12 + 120); c.eq(d.quot, -3); c.eq(d.rem, -1); }
#endif
