// Argument strata and function tables for the math monitors.
#ifndef CM_HPP
#define CM_HPP
#include <fp.hpp>
#include <cmath>
#include <cstring>
#include <sprout/cmath.hpp>
#include <sprout/math.hpp>
using namespace mon;
template<class T> std::vector<T> specials() {
	typedef std::numeric_limits<T> L; std::vector<T> v; T pi = (T)3.141592653589793238462643383279502884L;
	T b[] = {0, L::denorm_min(), L::denorm_min() * 2, L::denorm_min() * 3, L::min() / 2, L::min() - L::denorm_min(), L::min(), std::nextafter(L::min(), (T)1), L::epsilon(), L::epsilon() / 2, std::sqrt(L::epsilon()), (T)1e-5L, (T)0.1L, (T)0.25L, std::nextafter((T)0.5L, (T)0), (T)0.5L, std::nextafter((T)0.5L, (T)1), (T)0.75L, std::nextafter((T)1, (T)0), 1, std::nextafter((T)1, (T)2), (T)1.25L, (T)1.5L, 2, (T)2.5L, 3, (T)3.5L, 4, 5, 7, 9, 10, 16, 27, 100, 127, 128, 171, 172, 700, 709, 710, 745, 1000, 1024, 11356, 16384, 1e6, pi, pi / 2, pi / 4, pi * 2, pi * 3 / 2, (T)2.718281828459045235L, L::max(), L::max() / 2, std::sqrt(L::max()), L::infinity(), L::quiet_NaN(),
		(T)2147483647.0L, (T)2147483648.0L, (T)4294967295.0L, (T)9007199254740992.0L, (T)9223372036854775808.0L, (T)18446744073709551616.0L, std::nextafter((T)18446744073709551616.0L, (T)0), std::ldexp((T)1, L::digits - 1), std::ldexp((T)1, L::digits), std::ldexp((T)1, L::digits) + 1, std::ldexp((T)1, L::digits - 1) - (T)0.5L, std::ldexp((T)3, L::digits - 2) + (T)0.5L};
	for (T x : b) { v.push_back(x); v.push_back(-x); } return v;
}
template<class T> T rndmant() { return (T)(1.0L + (long double)(rng()() >> 1) / 9223372036854775808.0L); }
template<class T> T rnd(int k) { // one random value of stratum k
	typedef std::numeric_limits<T> L; T s = rng().coin() ? 1 : -1;
	switch (k % 8) {
	case 0: return s * std::ldexp(rndmant<T>(), (int)rng().range(L::min_exponent - 2, L::max_exponent - 2)); // whole range
	case 1: return s * std::ldexp(rndmant<T>(), (int)rng().range(-8, 8));
	case 2: return s * (T)((long double)rng().range(0, 1000000000) / 100000000.0L); // [0,10]
	case 3: return s * (T)rng().range(0, 200); // integers
	case 4: return s * ((T)rng().range(0, 2000) + (T)0.5L); // halves
	case 5: { T x = s * (T)rng().range(1, 100000); int d = (int)rng().range(-2, 2); for (; d > 0; --d) x = std::nextafter(x, L::infinity()); for (; d < 0; ++d) x = std::nextafter(x, -L::infinity()); return x; }
	case 6: return s * std::ldexp(rndmant<T>(), (int)rng().range(-40, -1));
	default: return s * (T)((long double)rng().range(0, 1000000000) / 1000000000.0L); // [0,1]
	}
}
template<class T> std::vector<T> args(std::uint64_t n) { std::vector<T> v = specials<T>(); for (std::uint64_t i = 0; i < n; ++i) v.push_back(rnd<T>((int)i)); return v; }
template<class T> char const* tn() { return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : "long double"; }
inline float Exp10(float x) { return ::exp10f(x); } inline double Exp10(double x) { return ::exp10(x); } inline long double Exp10(long double x) { return ::exp10l(x); }
// name, sprout expression, reference expression
#define CM_UNARY(X) X(sin) X(cos) X(tan) X(asin) X(acos) X(atan) X(sinh) X(cosh) X(tanh) X(asinh) X(acosh) X(atanh) X(exp) X(exp2) X(expm1) X(log) X(log2) X(log10) X(log1p) X(sqrt) X(cbrt) X(erf) X(erfc) X(tgamma) X(fabs)
#define CM_BINARY(X) X(pow) X(atan2) X(hypot) X(fdim) X(fmax) X(fmin)
#endif
