// Floating-point oracles: comparison within an absolute or ulp tolerance, with exact treatment of NaN, infinities and (optionally) zero signs.
#ifndef FP_HPP
#define FP_HPP
#include <mon.hpp>
namespace mon {
	template<class T> std::string fpstr(T x) { std::ostringstream o; show(o, x); return o.str(); }
	// |got - want| <= tol; NaN and infinite expectations must be matched exactly
	template<class C, class T, class W> bool near(C& c, T got, W want, long double tol, char const* what) {
		long double g = got, w = want; bool ok;
		if (w != w) ok = g != g; else if (std::isinf(w)) ok = g == w; else ok = g - g == 0 && std::fabs(g - w) <= tol;
		if (!ok) { std::ostringstream o; o << what << " got="; show(o, got); o << " want="; show(o, (long double)want); o << " tolerance="; show(o, tol); c.failed(o.str()); }
		return ok;
	}
	template<class T> long double ulp_of(long double w) { // spacing of T around w
		if (!(std::fabs(w) <= std::numeric_limits<T>::max())) return std::numeric_limits<T>::max();
		int e; std::frexp(w, &e); e = std::max(e, std::numeric_limits<T>::min_exponent); return std::ldexp(1.0L, e - std::numeric_limits<T>::digits);
	}
	// got is within n ulps (of T) of the long double reference; results beyond the finite range of T must overflow to infinity (or be the largest value)
	template<class T, class C> bool ulps(C& c, T got, long double want, long double n, char const* what, bool zsign = false) {
		if (want == 0 && got == 0) { if (zsign && std::signbit(got) != std::signbit(want)) { std::ostringstream o; o << what << " wrong zero sign"; return c.failed(o.str()); } return true; }
		if (std::fabs(want) > (long double)std::numeric_limits<T>::max() && !std::isinf(want)) { bool ok = (std::isinf(got) || std::fabs(got) == std::numeric_limits<T>::max()) && std::signbit(got) == std::signbit(want); if (!ok) near(c, got, want, 0, what); return ok; }
		return near(c, got, want, n * ulp_of<T>(want), what);
	}
}
#endif
