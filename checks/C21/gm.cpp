// C21: the builtin-free implementations against long double references.
// tolerance = 1 ulp of the result type + C * eps(compute type) * scale(x, result); scale expresses the algorithm's conditioning.
#include "../C20/cm.hpp"
#if SPROUT_USE_BUILTIN_CMATH_FUNCTION
#	error "this unit must use the compiler-independent implementations"
#endif
typedef long double LD;
template<class T> struct Cmp { typedef double type; }; template<> struct Cmp<LD> { typedef LD type; };
template<class T> LD ceps() { return std::numeric_limits<typename Cmp<T>::type>::epsilon(); }
template<class T> LD tmax() { return std::numeric_limits<T>::max(); }
template<class T, class C> void acc(C& c, T g, LD w, LD C_, LD scale, char const* what) {
	typedef std::numeric_limits<T> L;
	if (scale != 0 && std::isinf(w) && !std::isinf(g) && std::fabs((LD)g) > tmax<T>() * (1 - 1e-6L) && std::signbit(g) == std::signbit(w)) return; // overflow just beyond the largest value
	if (w != w || std::isinf(w)) { near(c, g, w, 0, what); return; }
	LD tol = ulp_of<T>(w) + C_ * ceps<T>() * scale + std::numeric_limits<typename Cmp<T>::type>::min() * 64;
	LD a = std::fabs(w), m = tmax<T>();
	if (a + tol > m) { if (!(std::isinf(g) ? std::signbit(g) == std::signbit(w) : std::fabs((LD)g - w) <= tol)) near(c, g, w, tol, what); return; } // within the budget of overflow: infinity or close
	(void)sizeof(L); near(c, g, w, tol, what);
}
#define F1(NAME, CC, DOMAIN, SCALE) template<class T> void f_##NAME() { for (T x : args<T>(reps(1500))) { LD X = x; bool fin = X - X == 0; LD w = std::NAME(X); LD aw = std::fabs(w), ax = std::fabs(X); (void)aw; (void)ax; MON_CASE(c, std::string(#NAME) + "<" + tn<T>() + ">", x); T g = sprout::NAME(x); if (!fin || (DOMAIN)) acc<T>(c, g, w, CC, fin ? (LD)(SCALE) : 0, #NAME); if (x == 0 && w == 0) c.ok(g == 0, "zero at zero"); c.ok(std::is_same<decltype(sprout::NAME(x)), T>::value, "type"); } }
#define MX std::max<LD>
F1(sin, 64, ax <= 1e9L, MX(1, ax))
F1(cos, 64, ax <= 1e9L, MX(1, ax))
F1(tan, 128, ax <= 1e6L, MX(1, ax) * (1 + aw * aw) * (1 + aw * 1e-15L))
F1(asin, (sizeof(T) > 8 ? 4096 : 16), true, 1)
F1(acos, (sizeof(T) > 8 ? 4096 : 16), true, 1)
F1(atan, 16, true, aw)
F1(sinh, 256, aw < tmax<T>() / 4, MX(1, aw) * (1 + (ax > 1000 && ax < 20000 ? ax / 100 : 0)))
F1(cosh, 256, aw < tmax<T>() / 4, MX(1, aw) * (1 + (ax > 1000 && ax < 20000 ? ax / 100 : 0)))
F1(tanh, 16, true, 1)
F1(asinh, 16, true, MX(1, aw))
F1(acosh, 16, true, MX(1, aw) + 1 / (aw + 1e-9L))
F1(atanh, 16, true, MX(1, aw) + 1 / MX(1 - ax, 1e-30L) * 0)
F1(exp, 256, true, aw * (1 + (ax > 1000 && ax < 20000 ? ax / 100 : 0)))
F1(exp2, 512, true, aw * (1 + (ax > 1000 && ax < 20000 ? ax / 100 : 0)))
F1(expm1, 256, true, MX(1, aw) * (1 + (ax > 1000 && ax < 20000 ? ax / 100 : 0)))
F1(log, 16, true, MX(1, aw))
F1(log2, 16, true, MX(1, aw))
F1(log10, 16, true, MX(1, aw))
F1(log1p, 16, true, MX(1, aw))
F1(sqrt, 2, true, aw)
F1(cbrt, 16, true, aw * (4 + (ax > 0 ? std::fabs(std::log(ax)) : 0)))
F1(erf, 512, true, MX(ax < 1 ? ax : 1, aw))
F1(erfc, 512, true, 1)
F1(tgamma, 1024, ax <= 170, aw)
F1(fabs, 0, true, 0)
#define B1(NAME, CC, DOMAIN, SCALE) template<class T> void b_##NAME() { auto one = [&](T x, T y) { LD X = x, Y = y; LD w = std::NAME(X, Y); LD aw = std::fabs(w), ax = std::fabs(X), ay = std::fabs(Y); (void)aw; (void)ax; (void)ay; bool fin = X - X == 0 && Y - Y == 0; MON_CASE(c, std::string(#NAME) + "<" + tn<T>() + ">", x, y); T g = sprout::NAME(x, y); if (fin ? (DOMAIN) : !(std::string(#NAME) == "pow" && std::isinf(x) && std::fabs(y) > 1e15L)) acc<T>(c, g, w, CC, fin ? (LD)(SCALE) : 0, #NAME); c.ok(std::is_same<decltype(sprout::NAME(x, y)), T>::value, "type"); }; auto v = specials<T>(); for (T x : v) for (T y : v) one(x, y); for (std::uint64_t i = 0; i < reps(2500); ++i) one(rnd<T>((int)i), rnd<T>((int)(i / 8))); }
B1(pow, 64, true, aw == 0 ? 0 : aw * (4 + MX(1, ay) * MX(1, ax > 0 ? std::fabs(std::log(ax)) : 1)))
B1(atan2, 16, true, MX(1, aw))
B1(hypot, 4, true, aw)
B1(fdim, 1, true, aw)
B1(fmax, 0, true, 0)
B1(fmin, 0, true, 0)
#define ALL3(F) MON_TEST(F##_f) { f_##F<float>(); } MON_TEST(F##_d) { f_##F<double>(); } MON_TEST(F##_l) { f_##F<long double>(); }
#define BLL3(F) MON_TEST(F##_f) { b_##F<float>(); } MON_TEST(F##_d) { b_##F<double>(); } MON_TEST(F##_l) { b_##F<long double>(); }
#if MON_PART(0)
CM_UNARY(ALL3)
#endif
#if MON_PART(1)
CM_BINARY(BLL3)
#endif
#if MON_PART(2)
// identities: sin^2+cos^2 = 1, exp(log x) = x, sqrt(x)^2 = x, parity
template<class T> void ident() { for (T x : args<T>(reps(2000))) { LD X = x; if (!(std::fabs(X) <= 1e6L)) continue; std::string tag = std::string("identities<") + tn<T>() + ">"; MON_CASE(c, tag, x); LD e = std::max<LD>(ceps<T>() * 64 * std::max<LD>(1, std::fabs(X)), std::numeric_limits<T>::epsilon() * 4); LD s = sprout::sin(x), k = sprout::cos(x); near(c, (LD)(s * s + k * k), 1.0L, e, "sin^2+cos^2"); c.ok(std::fabs(s) <= 1 + e && std::fabs(k) <= 1 + e, "range");
	near(c, sprout::cos(-x), (LD)sprout::cos(x), e, "cos even"); near(c, sprout::sin(-x), -(LD)sprout::sin(x), e, "sin odd"); near(c, sprout::atan(-x), -(LD)sprout::atan(x), e, "atan odd"); near(c, sprout::erf(-x), -(LD)sprout::erf(x), e, "erf odd"); near(c, sprout::tanh(-x), -(LD)sprout::tanh(x), e, "tanh odd"); near(c, sprout::asinh(-x), -(LD)sprout::asinh(x), e, "asinh odd");
	if (x > std::numeric_limits<T>::min() * 4) { near(c, sprout::exp(sprout::log(x)), X, X * (std::numeric_limits<T>::epsilon() * (LD)8 * (1 + std::fabs(std::log(X))) + ceps<T>() * 64 * (1 + std::fabs(std::log(X)))), "exp(log)"); LD r = sprout::sqrt(x); near(c, (LD)(r * r), X, X * 4 * std::numeric_limits<T>::epsilon(), "sqrt^2"); c.ok(sprout::log(x) == 0 || (sprout::log(x) > 0) == (x > 1), "sign of log"); } } }
// monotonicity over neighbouring sample points far enough apart to dominate the error budget
template<class T> void mono() { std::vector<T> v; for (std::uint64_t i = 0; i < reps(2000); ++i) v.push_back((T)((long double)rng().range(-600000, 600000) / 10000.0L)); std::sort(v.begin(), v.end()); for (std::size_t i = 1; i < v.size(); ++i) { T a = v[i - 1], b = v[i]; if (!(b - a > (T)1e-4L)) continue; MON_CASE(c, std::string("monotone<") + tn<T>() + ">", a, b); c.ok(sprout::exp(a) < sprout::exp(b), "exp"); c.ok(sprout::atan(a) <= sprout::atan(b), "atan"); c.ok(sprout::tanh(a) <= sprout::tanh(b), "tanh"); c.ok(sprout::sinh(a) < sprout::sinh(b), "sinh"); c.ok(sprout::asinh(a) < sprout::asinh(b), "asinh"); c.ok(sprout::erf(a) <= sprout::erf(b), "erf"); c.ok(sprout::cbrt(a) < sprout::cbrt(b), "cbrt"); if (a > 0) { c.ok(sprout::log(a) < sprout::log(b), "log"); c.ok(sprout::sqrt(a) < sprout::sqrt(b), "sqrt"); } } }
#define I1(F) { MON_CASE(c, "int " #F, i); auto r = sprout::F(i); c.ok(std::is_same<decltype(r), double>::value, "type"); double q = sprout::F((double)i); c.ok(r == q || (r != r && q != q), "same as the double overload"); }
MON_TEST(ints) { for (int i : {0, 1, -1, 2, 3, 5, 10, 20, 100, 255, 1000, -7, 32767}) { CM_UNARY(I1) } }
MON_TEST(id_f) { ident<float>(); } MON_TEST(id_d) { ident<double>(); } MON_TEST(id_l) { ident<long double>(); }
MON_TEST(mono_f) { mono<float>(); } MON_TEST(mono_d) { mono<double>(); } MON_TEST(mono_l) { mono<long double>(); }
// usable at compile time
MON_TEST(constexpr_) { constexpr double a = sprout::sin(1.0) + sprout::exp(1.0) + sprout::log(3.0) + sprout::sqrt(2.0) + sprout::atan(0.5) + sprout::pow(2.0, 0.5) + sprout::tgamma(4.5) + sprout::erf(0.3); MON_CASE(c, "constexpr", 0); near(c, a, std::sin(1.0L) + std::exp(1.0L) + std::log(3.0L) + std::sqrt(2.0L) + std::atan(0.5L) + std::pow(2.0L, 0.5L) + std::tgamma(4.5L) + std::erf(0.3L), 1e-12L, "sum"); }
#endif
