// C20: default configuration, against the C library of the same type.
#include "cm.hpp"
// equal up to n ulps; special values exactly, including the sign of zero
template<class T, class C> void cmp(C& c, T got, T want, char const* what, bool zs = true) { ulps<T>(c, got, (long double)want, 2, what, zs); if (std::isinf(want)) c.ok(got == want, what); }
#define U(F) template<class T> void f_##F() { for (T x : args<T>(reps(1500))) { MON_CASE(c, std::string(#F) + "<" + tn<T>() + ">", x); cmp<T>(c, sprout::F(x), std::F(x), #F); c.ok(std::is_same<decltype(sprout::F(x)), T>::value, "result type"); cmp<T>(c, sprout::math::F(x), std::F(x), "sprout::math"); } }
CM_UNARY(U)
// lgamma is always Sprout's own double-precision approximation: absolute error budget near its zeros, relative elsewhere
template<class T> void f_lgamma() { for (T x : args<T>(reps(3000))) { MON_CASE(c, std::string("lgamma<") + tn<T>() + ">", x); long double w = std::lgamma((long double)x); T g = sprout::lgamma(x); if (std::isinf(w)) c.ok(g == w, "infinite"); else if (std::fabs(w) > (long double)std::numeric_limits<T>::max()) c.ok(std::isinf(g) || g > std::numeric_limits<T>::max() / 2, "overflow"); else if (x < 0 && (std::fabs(x) > 1e5L || std::fabs(x) < std::numeric_limits<T>::min() * 1e10L)) continue; else near(c, g, w, std::max<long double>(2 * ulp_of<T>(w), std::max<long double>(1, std::fabs(w)) * 1e-14L * (x < 0 ? 1 + std::fabs((long double)x) : 1)) , "lgamma"); } }
template<class T> void f_exp10() { for (T x : args<T>(reps(1500))) { MON_CASE(c, std::string("exp10<") + tn<T>() + ">", x); ulps<T>(c, sprout::math::exp10(x), (long double)Exp10(x), std::isinf(x) || x != x ? 0 : 8 + 4 * std::fabs((long double)x), "exp10"); } }
#define B(F) template<class T> void b_##F() { auto one = [&](T x, T y) { MON_CASE(c, std::string(#F) + "<" + tn<T>() + ">", x, y); if (std::string(#F) == "pow" && std::isinf(x) && std::fabs(y) > 1e15L) return; /* glibc powl is wrong for an infinite base and a huge exponent */ T w = std::F(x, y); bool zs = !((std::string(#F) == "fmax" || std::string(#F) == "fmin") && x == 0 && y == 0); cmp<T>(c, sprout::F(x, y), w, #F, zs); c.ok(std::is_same<decltype(sprout::F(x, y)), T>::value, "result type"); }; auto v = specials<T>(); for (T x : v) for (T y : v) one(x, y); for (std::uint64_t i = 0; i < reps(2500); ++i) one(rnd<T>((int)i), rnd<T>((int)(i / 8))); }
CM_BINARY(B)
template<class T> void b_fma() { auto one = [&](T x, T y, T z) { MON_CASE(c, std::string("fma<") + tn<T>() + ">", x, y, z); T w = std::fma(x, y, z), g = sprout::fma(x, y, z); cmp<T>(c, g, w, "fma"); c.ok(g == w || w != w, "fma is exact"); }; auto v = specials<T>(); for (std::uint64_t i = 0; i < reps(6000); ++i) { T x = rng().coin(1, 5) ? rng().pick(v) : rnd<T>((int)i), y = rng().coin(1, 5) ? rng().pick(v) : rnd<T>((int)(i / 8)), z = rng().coin(1, 5) ? rng().pick(v) : rng().coin(1, 3) ? -x * y : rnd<T>((int)(i / 64)); one(x, y, z); } }
// integer and mixed arguments promote as <cmath> does
#define I1(F) { MON_CASE(c, "int " #F, i); auto r = sprout::F(i); c.ok(std::is_same<decltype(r), double>::value, "type"); cmp<double>(c, r, std::F((double)i), "int"); auto q = sprout::F((unsigned char)i); cmp<double>(c, q, std::F((double)(unsigned char)i), "uchar"); auto l = sprout::F((long long)i * 3); cmp<double>(c, l, std::F((double)((long long)i * 3)), "long long"); }
#define M2(F) { MON_CASE(c, "mixed " #F, i, y); float yf = (float)y; long double yl = y; cmp<double>(c, sprout::F(i, y), std::F((double)i, y), "int,double"); cmp<double>(c, sprout::F(y, i), std::F(y, (double)i), "double,int"); cmp<double>(c, sprout::F(i, j), std::F((double)i, (double)j), "int,int"); cmp<double>(c, sprout::F(yf, y), std::F((double)yf, y), "float,double"); cmp<long double>(c, sprout::F(yf, yl), std::F((long double)yf, yl), "float,long double"); cmp<double>(c, sprout::F(yf, i), std::F((double)yf, (double)i), "float,int"); cmp<long double>(c, sprout::F(i, yl), std::F((long double)i, yl), "int,long double"); \
	c.ok(std::is_same<decltype(sprout::F(i, y)), double>::value && std::is_same<decltype(sprout::F(yf, y)), double>::value && std::is_same<decltype(sprout::F(yf, yl)), long double>::value && std::is_same<decltype(sprout::F(i, i)), double>::value && std::is_same<decltype(sprout::F(yf, i)), double>::value && std::is_same<decltype(sprout::F(yf, yf)), float>::value, "types"); }
#define ALL3(F) MON_TEST(F##_f) { f_##F<float>(); } MON_TEST(F##_d) { f_##F<double>(); } MON_TEST(F##_l) { f_##F<long double>(); }
#define BLL3(F) MON_TEST(F##_f) { b_##F<float>(); } MON_TEST(F##_d) { b_##F<double>(); } MON_TEST(F##_l) { b_##F<long double>(); }
#if MON_PART(0)
CM_UNARY(ALL3) ALL3(exp10) ALL3(lgamma)
#endif
#if MON_PART(1)
CM_BINARY(BLL3) BLL3(fma)
#endif
#if MON_PART(2)
MON_TEST(ints) { for (int i : {0, 1, -1, 2, 3, 5, 10, 20, 100, 255, 1000, -7, 32767, 2147483647}) { CM_UNARY(I1) } }
MON_TEST(mixed) { for (int i : {0, 1, -1, 2, 3, -5, 10, 100}) for (int j : {0, 1, -2, 3}) for (double y : {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.75, -100.25, 0.1}) { CM_BINARY(M2) { MON_CASE(c, "mixed fma", i, j, y); cmp<double>(c, sprout::fma(i, y, j), std::fma((double)i, y, (double)j), "int,double,int"); cmp<long double>(c, sprout::fma((float)y, i, (long double)j), std::fma((long double)(float)y, (long double)i, (long double)j), "float,int,long double"); } } }
// products of the C functions: documented helpers
template<class T> void helpers() { for (T x : args<T>(reps(600))) { std::string tag = std::string("<") + tn<T>() + ">"; long double X = x;
	{ MON_CASE(c, "sigmoid" + tag, x); long double w = 1 / (1 + std::exp(-X)); near(c, sprout::math::sigmoid(x), w, w != w ? 0 : 8 * ulp_of<T>(w) + std::numeric_limits<T>::min() * 4, "sigmoid"); }
	for (T a : {(T)2, (T)10, (T)0.5L, (T)3.25L}) { if (x > 0 && x <= std::numeric_limits<T>::max()) { MON_CASE(c, "log_a" + tag, a, x); long double w = std::log(X) / std::log((long double)a); near(c, sprout::math::log_a(a, x), w, 8 * ulp_of<T>(std::max<long double>(std::fabs(w), 1)), "log_a"); } }
	{ MON_CASE(c, "abs" + tag, x); cmp<T>(c, sprout::math::abs(x), std::fabs(x), "abs"); } } }
MON_TEST(helpers_f) { helpers<float>(); } MON_TEST(helpers_d) { helpers<double>(); } MON_TEST(helpers_l) { helpers<long double>(); }
template<class T> void constants() { namespace m = sprout::math; std::string tag = std::string("<") + tn<T>() + ">"; MON_CASE(c, "constants" + tag, 0); long double pi = std::acos(-1.0L); auto k = [&](T g, long double w, char const* n) { ulps<T>(c, g, w, 1, n); };
	k(m::pi<T>(), pi, "pi"); k(m::half_pi<T>(), pi / 2, "half_pi"); k(m::quarter_pi<T>(), pi / 4, "quarter_pi"); k(m::three_quarters_pi<T>(), pi * 3 / 4, "three_quarters_pi"); k(m::third_pi<T>(), pi / 3, "third_pi"); k(m::two_pi<T>(), 2 * pi, "two_pi"); k(m::four_pi<T>(), 4 * pi, "four_pi"); k(m::two_thirds_pi<T>(), 2 * pi / 3, "two_thirds_pi"); k(m::two_div_pi<T>(), 2 / pi, "two_div_pi"); k(m::root_two_div_pi<T>(), std::sqrt(2 / pi), "root_two_div_pi"); k(m::root_one_div_pi<T>(), std::sqrt(1 / pi), "root_one_div_pi"); k(m::two_div_root_pi<T>(), 2 / std::sqrt(pi), "two_div_root_pi"); k(m::root_pi<T>(), std::sqrt(pi), "root_pi"); k(m::one_div_root_pi<T>(), 1 / std::sqrt(pi), "one_div_root_pi"); k(m::e<T>(), std::exp(1.0L), "e"); k(m::ln_two<T>(), std::log(2.0L), "ln_two"); k(m::ln_ten<T>(), std::log(10.0L), "ln_ten"); k(m::root_two<T>(), std::sqrt(2.0L), "root_two"); k(m::half_root_two<T>(), std::sqrt(2.0L) / 2, "half_root_two"); k(m::root_three<T>(), std::sqrt(3.0L), "root_three"); k(m::phi<T>(), (1 + std::sqrt(5.0L)) / 2, "phi"); k(m::half<T>(), 0.5L, "half"); k(m::third<T>(), 1.0L / 3, "third"); k(m::quarter<T>(), 0.25L, "quarter"); k(m::two_thirds<T>(), 2.0L / 3, "two_thirds"); }
MON_TEST(constants) { constants<float>(); constants<double>(); constants<long double>(); }
#endif
