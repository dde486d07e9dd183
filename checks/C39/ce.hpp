// C39 support: a value made at run time from a constant, and exact comparison.
#pragma once
#include <mon.hpp>
#include <cmath>
#include <cstring>
#include <limits>
#include <type_traits>
using namespace mon;
template<class T> constexpr T const& cst(T const& x) { return x; }
template<class T> __attribute__((noinline)) T launder_(T const& x) { T const* volatile p = &x; return *p; }
template<class C, std::size_t N> __attribute__((noinline)) C const* launder_(C const (&x)[N]) { static std::vector<std::unique_ptr<C[]> > keep; keep.push_back(std::unique_ptr<C[]>(new C[N])); for (std::size_t i = 0; i < N; ++i) keep.back()[i] = x[i]; C const* volatile p = keep.back().get(); return p; }
#ifdef SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
static const double TOLF = 0;
#else
static const double TOLF = 1;
#endif
template<class T> typename std::enable_if<std::is_floating_point<T>::value, bool>::type same(T a, T b, double ulps) {
	if (a != a || b != b) return a != a && b != b;
	if (a == b) return std::signbit(a) == std::signbit(b) || ulps * TOLF > 0;
	T m = std::max(std::fabs(a), std::fabs(b)); return std::fabs(a - b) <= ulps * TOLF * m * std::numeric_limits<T>::epsilon();
}
template<class T> typename std::enable_if<!std::is_floating_point<T>::value, bool>::type same(T const& a, T const& b, double ulps);
template<class T> struct is_cx : std::false_type {}; template<template<class> class X, class T> struct is_cx<X<T> > : std::integral_constant<bool, std::is_floating_point<T>::value> {};
template<class T> auto deep(T const& a, T const& b, double u, int) -> typename std::enable_if<!is_cx<T>::value, decltype(a.begin() == a.end(), a.size(), true)>::type { if (a.size() != b.size()) return false; auto j = b.begin(); for (auto i = a.begin(); i != a.end(); ++i, ++j) { auto x = *i; auto y = *j; if (!same(x, y, u)) return false; } return true; }
template<class T> auto deep(T const& a, T const& b, double u, int) -> decltype(a.real(), a.imag(), true) { return same(a.real(), b.real(), u) && same(a.imag(), b.imag(), u); }
template<class T> bool deep(T const& a, T const& b, double, long) { return a == b; }
template<class T> typename std::enable_if<!std::is_floating_point<T>::value, bool>::type same(T const& a, T const& b, double ulps) { return deep(a, b, ulps, 0); }
template<class T> auto show_(T const& x, int) -> typename std::enable_if<!is_cx<T>::value, decltype(x.begin(), std::string())>::type { std::string s = "["; int n = 0; for (auto i = x.begin(); i != x.end() && n < 24; ++i, ++n) { auto v = *i; s += str(v) + " "; } return s + "]"; }
template<class T> auto show_(T const& x, int) -> decltype(x.real(), x.imag(), std::string()) { return str(x.real()) + "+i" + str(x.imag()); }
template<class T> std::string show_(T const& x, long) { return str(x); }
template<class K, class R> void judge(char const* fam, char const* text, K const& k, R const& r, double ulps) {
	MON_CASE(c, fam, text);
	static_assert(std::is_same<K, R>::value, "the type is the same at run time");
	bool ok = same(k, r, ulps); if (ok) c.ok(true, ""); else c.ok(false, "compile time " + show_(k, 0) + ", run time " + show_(r, 0));
}
