// C22: rounding, remainder, decomposition, classification, comparison - exact against the C library.
#include "../C20/cm.hpp"
#include <limits.h>
#if defined(SPROUT_CONFIG_DISABLE_BUILTIN_COPYSIGN_FUNCTION)
enum { SIGNS = 0 }; // documented issue: without a copysign builtin the sign of zero and NaN is not observable
#else
enum { SIGNS = 1 };
#endif
template<class T, class C> void same(C& c, T g, T w, char const* what) { bool ok = w != w ? g != g : g == w && (w != 0 || !SIGNS || std::signbit(g) == std::signbit(w)); if (!ok) { std::ostringstream o; o << what << " got="; show(o, g); o << " want="; show(o, w); c.failed(o.str()); } }
template<class T> std::string tag(char const* n) { return std::string(n) + "<" + tn<T>() + ">"; }
// wide exponents, subnormals, halfway neighbours
template<class T> T wide() { typedef std::numeric_limits<T> L; switch (rng().range(0, 5)) {
	case 0: return (rng().coin() ? 1 : -1) * std::ldexp(rndmant<T>(), (int)rng().range(L::min_exponent - L::digits, L::max_exponent - 1));
	case 1: return (T)(rng().coin() ? 1 : -1) * std::ldexp((T)1, (int)rng().range(L::min_exponent - L::digits, L::max_exponent - 1));
	case 2: { T h = (T)rng().range(-3000, 3000) + (T)0.5L; return rng().coin() ? std::nextafter(h, (T)0) : rng().coin() ? std::nextafter(h, h * 2) : h; }
	case 3: { T h = (T)rng().range(-3000, 3000); return rng().coin() ? std::nextafter(h, (T)4000) : rng().coin() ? std::nextafter(h, (T)-4000) : h; }
	case 4: return (rng().coin() ? 1 : -1) * std::ldexp(rndmant<T>(), (int)rng().range(L::digits - 4, 66)); // around the integer limit
	default: return rnd<T>((int)rng().range(0, 7)); } }
template<class T> std::vector<T> vals(std::uint64_t n) { std::vector<T> v = specials<T>(); for (std::uint64_t i = 0; i < n; ++i) v.push_back(wide<T>()); return v; }
template<class T> void rounding() { for (T x : vals<T>(reps(4000))) {
#define R1(F) { MON_CASE(c, tag<T>(#F), x); same<T>(c, sprout::math::F(x), std::F(x), #F); c.ok(std::is_same<decltype(sprout::F(x)), T>::value, "type"); }
	R1(floor) R1(ceil) R1(trunc) R1(round)
	{ MON_CASE(c, tag<T>("fabs"), x); same<T>(c, sprout::math::fabs(x), std::fabs(x), "fabs"); }
	{ MON_CASE(c, tag<T>("integer_part"), x); T ip; T fp = std::modf(x, &ip); same<T>(c, sprout::math::integer_part(x), ip, "integer_part"); same<T>(c, sprout::math::fractional_part(x), fp, "fractional_part"); auto p = sprout::math::frac_int(x); same<T>(c, p.first, fp, "frac_int.first"); same<T>(c, p.second, ip, "frac_int.second"); }
	{ MON_CASE(c, tag<T>("is_integer"), x); bool in = std::isfinite(x) && std::trunc(x) == x; c.eq(sprout::math::is_integer(x), in); bool odd = in && std::fabs(std::fmod(x, (T)2)) == 1; c.eq(sprout::math::is_odd(x), odd); c.eq(sprout::math::is_even(x), in && !odd); }
} }
template<class To, class T> void to_int(char const* name) { typedef std::numeric_limits<To> L; for (T x : vals<T>(reps(1500))) { auto one = [&](char const* n, T r, To g) { MON_CASE(c, std::string(n) + "<" + name + "," + tn<T>() + ">", x); if (r != r || std::isinf(r)) { c.eq(g, L::min()); return; } long double lr = r; c.eq((long double)g, lr + 0.0L); };
	auto fits = [&](T r) { return r != r || std::isinf(r) || ((long double)r >= (long double)L::min() && (long double)r <= (long double)L::max()); };
	if (!fits(x)) continue; // the argument itself must be in range: the conversion is documented only there
	T r; r = std::floor(x); if (fits(r)) one("ifloor", r, sprout::math::ifloor<To>(x)); r = std::ceil(x); if (fits(r)) one("iceil", r, sprout::math::iceil<To>(x)); r = std::round(x); if (fits(r)) one("iround", r, sprout::math::iround<To>(x)); r = std::trunc(x); if (fits(r)) one("itrunc", r, sprout::math::itrunc<To>(x)); } }
template<class T> void lrounds() { for (T x : vals<T>(reps(3000))) { if (x == x && !std::isinf(x) && std::fabs(x) >= 9.2e18) continue; MON_CASE(c, tag<T>("lround"), x); long w = x != x || std::isinf(x) ? LONG_MIN : std::lround(x); c.eq(sprout::math::lround(x), w); c.eq(sprout::math::llround(x), (long long)w); } }
template<class T> void remainders() { auto one = [&](T x, T y) {
	{ MON_CASE(c, tag<T>("fmod"), x, y); same<T>(c, sprout::math::fmod(x, y), std::fmod(x, y), "fmod"); }
	{ MON_CASE(c, tag<T>("remainder"), x, y); int q = 0; same<T>(c, sprout::math::remainder(x, y), std::remainder(x, y), "remainder"); T w = std::remquo(x, y, &q); auto p = sprout::math::rem_quo(x, y); same<T>(c, p.first, w, "rem_quo.first"); if (w == w && !std::isinf(y)) { int g = p.second; if ((std::abs(g) & 7) != (std::abs(q) & 7) || ((g < 0) != (q < 0) && (g & 7))) { std::ostringstream o; o << "rem_quo.second got=" << g << " want(mod 8)=" << q; c.failed(o.str()); } c.eq(sprout::math::quotient(x, y), g); c.eq(sprout::math::quotient<long long>(x, y), (long long)g); } } };
	auto v = specials<T>(); for (T x : v) for (T y : v) one(x, y);
	for (std::uint64_t i = 0; i < reps(3000); ++i) { T x = wide<T>(), y = wide<T>(); if (rng().coin(1, 3)) y = std::ldexp(x, (int)rng().range(-70, 3)) * rndmant<T>(); if (rng().coin(1, 6)) { y = (T)rng().range(1, 50); x = y * ((T)rng().range(-500, 500) + (T)0.5L); } if (rng().coin(1, 8)) { y = (T)rng().range(1, 1000); x = y * (T)rng().range(-9000, 9000); } one(x, y); } }
template<class T> void scaling() { typedef std::numeric_limits<T> L; auto one = [&](T x, int e) { MON_CASE(c, tag<T>("ldexp"), x, e); T w = std::ldexp(x, e); same<T>(c, sprout::math::ldexp(x, e), w, "ldexp"); same<T>(c, sprout::math::scalbn(x, e), w, "scalbn"); same<T>(c, sprout::math::scalbln(x, (long)e), w, "scalbln"); };
	int es[] = {0, 1, -1, 2, -2, 30, -30, 52, -52, 149, -149, 1022, 1023, 1024, -1021, -1022, -1023, -1074, -1075, 2098, -2098, 16383, 16384, -16382, -16445, 32828, -32828, 100000, -100000, INT_MAX, INT_MIN};
	for (T x : specials<T>()) for (int e : es) one(x, e); for (std::uint64_t i = 0; i < reps(5000); ++i) { T x = wide<T>(); int span = L::max_exponent + L::digits; one(x, (int)rng().range(-2 * span, 2 * span)); one(x, L::min_exponent - std::ilogb(x) - (int)rng().range(0, L::digits + 3)); } 
	for (long e : {LONG_MAX, LONG_MIN, 4294967296L, -4294967297L}) for (T x : {(T)1, (T)-3, L::min(), L::max(), (T)0, -(T)0}) { MON_CASE(c, tag<T>("scalbln"), x, e); same<T>(c, sprout::math::scalbln(x, e), std::scalbln(x, e), "scalbln long"); } }
template<class T> void decomp() { for (T x : vals<T>(reps(5000))) { { MON_CASE(c, tag<T>("logb"), x); same<T>(c, sprout::math::logb(x), std::logb(x), "logb"); same<T>(c, sprout::math::logb2(x), std::logb(x), "logb2"); c.eq(sprout::math::ilogb(x), std::ilogb(x)); c.eq(sprout::math::ilogb2(x), std::ilogb(x)); }
	{ MON_CASE(c, tag<T>("float_sig_exp"), x); int e = 0; T m = std::frexp(x, &e); if (x != x || std::isinf(x)) e = 0; same<T>(c, sprout::math::float_significand(x), m, "float_significand"); c.eq(sprout::math::float_exponent(x), e); auto p = sprout::math::float_sig_exp(x); same<T>(c, p.first, m, "float_sig_exp.first"); c.eq(p.second, e); same<T>(c, sprout::math::float2_significand(x), m, "float2_significand"); c.eq(sprout::math::float2_exponent(x), e); auto q = sprout::math::float2_sig_exp(x); same<T>(c, q.first, m, "float2_sig_exp.first"); c.eq(q.second, e); } } }
template<class T> void classify() { for (T x : vals<T>(reps(4000))) { MON_CASE(c, tag<T>("fpclassify"), x); int k = std::fpclassify(x); c.eq(sprout::math::fpclassify(x), k); c.eq((bool)sprout::math::isnan(x), k == FP_NAN); c.eq((bool)sprout::math::isinf(x), k == FP_INFINITE); c.eq((bool)sprout::math::isfinite(x), k != FP_NAN && k != FP_INFINITE); c.eq((bool)sprout::math::isnormal(x), k == FP_NORMAL); c.eq((bool)(sprout::math::issubnormal)(x), k == FP_SUBNORMAL); c.eq((bool)sprout::math::iszero(x), k == FP_ZERO); if (SIGNS || (x == x && x != 0)) c.eq((bool)sprout::math::signbit(x), std::signbit(x)); }
	{ T nn = -std::numeric_limits<T>::quiet_NaN(); MON_CASE(c, tag<T>("nan sign"), 0); if (SIGNS) c.eq((bool)(sprout::math::signbit)(nn), std::signbit(nn)); }
	auto pr = [&](T x, T y) { MON_CASE(c, tag<T>("comparison"), x, y); c.eq((bool)sprout::math::isgreater(x, y), (bool)std::isgreater(x, y)); c.eq((bool)sprout::math::isgreaterequal(x, y), (bool)std::isgreaterequal(x, y)); c.eq((bool)sprout::math::isless(x, y), (bool)std::isless(x, y)); c.eq((bool)sprout::math::islessequal(x, y), (bool)std::islessequal(x, y)); c.eq((bool)sprout::math::islessgreater(x, y), (bool)std::islessgreater(x, y)); c.eq((bool)sprout::math::isunordered(x, y), (bool)std::isunordered(x, y));
		T g = sprout::math::copysign(x, y), w = std::copysign(x, y); if (SIGNS || (y == y && y != 0)) { same<T>(c, g, w, "copysign"); if (SIGNS && x != x) c.eq(std::signbit(g), std::signbit(w)); }
		// tolerant comparison: equal when within eps * max(|x|,|y|,1); the ordering predicates are consistent with it
		T big = std::max({std::fabs(x), std::fabs(y), (T)1}); bool eq = x == y || std::fabs(x - y) <= std::numeric_limits<T>::epsilon() * big; if (std::isinf(x) || std::isinf(y)) eq = x == y || (sprout::math::equal_to(x, y) && x == x && y == y); if (x != x || y != y) eq = false; c.eq(sprout::math::equal_to(x, y), eq); c.eq(sprout::math::not_equal_to(x, y), !eq); c.eq(sprout::math::less(x, y), !eq && x < y); c.eq(sprout::math::greater(x, y), !eq && x > y); c.eq(sprout::math::less_equal(x, y), eq || x < y); c.eq(sprout::math::greater_equal(x, y), eq || x > y); if (x == x && y == y) c.eq(sprout::math::compare(x, y), eq ? 0 : x < y ? -1 : 1); };
	auto v = specials<T>(); for (T x : v) for (T y : v) pr(x, y); for (std::uint64_t i = 0; i < reps(3000); ++i) { T x = wide<T>(); T y = rng().coin(1, 3) ? x : wide<T>(); if (rng().coin(1, 3)) { y = x; for (int k = (int)rng().range(1, 4); k; --k) y = std::nextafter(y, rng().coin() ? (T)1e30L : (T)-1e30L); } pr(x, y); } }
// mixed-sign integer comparisons are mathematically exact
template<class A, class B> void icmp(char const* n) { std::vector<A> as{0, 1, 2, std::numeric_limits<A>::max(), std::numeric_limits<A>::min(), (A)-1, (A)-2, 100, (A)-100}; std::vector<B> bs{0, 1, 2, std::numeric_limits<B>::max(), std::numeric_limits<B>::min(), (B)-1, (B)-2, 100, (B)-100}; for (int i = 0; i < 40; ++i) { as.push_back((A)rng()()); bs.push_back((B)rng()()); }
	for (A a : as) for (B b : bs) { MON_CASE(c, std::string("integer comparison ") + n, a, b); __int128 x = a, y = b; c.eq(sprout::math::equal_to(a, b), x == y); c.eq(sprout::math::not_equal_to(a, b), x != y); c.eq(sprout::math::less(a, b), x < y); c.eq(sprout::math::greater(a, b), x > y); c.eq(sprout::math::less_equal(a, b), x <= y); c.eq(sprout::math::greater_equal(a, b), x >= y); c.eq(sprout::math::compare(a, b), x == y ? 0 : x < y ? -1 : 1); } }
#define T3(F) MON_TEST(F##_f) { F<float>(); } MON_TEST(F##_d) { F<double>(); } MON_TEST(F##_l) { F<long double>(); }
#if MON_PART(0)
T3(rounding) T3(lrounds)
template<class T> void ti() { to_int<int, T>("int"); to_int<long long, T>("long long"); to_int<short, T>("short"); to_int<unsigned, T>("unsigned"); to_int<signed char, T>("signed char"); }
T3(ti)
// integer arguments
MON_TEST(ints) { for (int i : {0, 1, -1, 2, 3, 7, -8, 100, 1023, 1024, INT_MAX, INT_MIN}) { MON_CASE(c, "integer arguments", i); double d = i; c.eq(sprout::math::floor(i), d); c.eq(sprout::math::ceil(i), d); c.eq(sprout::math::trunc(i), d); c.eq(sprout::math::round(i), d); c.eq(sprout::math::ifloor(i), i); c.eq(sprout::math::iceil(i), i); c.eq(sprout::math::iround(i), i); c.eq(sprout::math::itrunc(i), i); c.eq(sprout::math::lround(i), (long)i); c.eq(sprout::math::llround(i), (long long)i); c.eq(sprout::math::integer_part(i), d); c.ok(sprout::math::fractional_part(i) == 0, "fractional_part"); same<double>(c, sprout::math::logb(i), std::logb(d), "logb"); c.eq(sprout::math::ilogb(i), std::ilogb(d)); c.eq(sprout::math::ldexp(i, 3), d * 8); c.eq(sprout::math::scalbn(i, 3), d * 8); c.eq(sprout::math::scalbln(i, 3), d * 8); c.eq((bool)sprout::math::isnan(i), false); c.eq((bool)sprout::math::isinf(i), false); c.eq((bool)sprout::math::isfinite(i), true); c.eq((bool)sprout::math::isnormal(i), i != 0); c.eq((bool)sprout::math::iszero(i), i == 0); c.eq((bool)sprout::math::signbit(i), i < 0); c.eq(sprout::math::fpclassify(i), i ? FP_NORMAL : FP_ZERO); int e; c.eq(sprout::math::float_significand(i), std::frexp(d, &e)); c.eq(sprout::math::float_exponent(i), e);
	for (int j : {1, -3, 7, 100}) { c.eq(sprout::math::fmod(i, j), std::fmod(d, (double)j)); c.eq(sprout::math::remainder(i, j), std::remainder(d, (double)j)); c.eq(sprout::math::copysign(i, j), std::copysign(d, (double)j)); c.eq((bool)sprout::math::isless(i, (float)j), (bool)std::isless(d, (double)j)); c.eq((bool)sprout::math::isgreater(i, (float)j), (bool)std::isgreater(d, (double)j)); c.eq(sprout::math::rem_quo(i, j).first, std::remainder(d, (double)j)); } } }
#endif
#if MON_PART(1)
T3(remainders) T3(scaling)
#endif
#if MON_PART(2)
T3(decomp) T3(classify)
MON_TEST(icmp_) { icmp<int, unsigned>("int/unsigned"); icmp<unsigned, int>("unsigned/int"); icmp<signed char, unsigned long long>("schar/ull"); icmp<unsigned long long, long long>("ull/ll"); icmp<long long, unsigned char>("ll/uchar"); icmp<unsigned char, int>("uchar/int"); icmp<short, unsigned short>("short/ushort"); icmp<int, long long>("int/ll"); icmp<unsigned, unsigned long long>("unsigned/ull"); }
// usable at compile time
MON_TEST(ce) { constexpr double a = sprout::math::floor(-2.5), b = sprout::math::fmod(7.5, 2.0), d = sprout::math::ldexp(3.0, 4), e = sprout::math::logb(10.0), f = sprout::math::remainder(7.5, 2.0); MON_CASE(c, "constexpr", 0); c.eq(a, -3.0); c.eq(b, 1.5); c.eq(d, 48.0); c.eq(e, 3.0); c.eq(f, -0.5); }
#endif
