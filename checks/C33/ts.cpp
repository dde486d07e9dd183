// C33: number to text against an independent digit writer / printf, and back again.
#include <mon.hpp>
#include <cstdio>
#include <cmath>
#include <sprout/string.hpp>
using namespace mon;
typedef __int128 I128; typedef std::string S;
inline S ref(I128 v, int b) { bool n = v < 0; if (n) v = -v; S r; do { int d = (int)(v % b); r.insert(r.begin(), (char)(d < 10 ? '0' + d : 'a' + d - 10)); v /= b; } while (v); return n ? "-" + r : r; }
template<class X> bool same(X const& x, S const& w) { if (x.size() != w.size() || w.size() > X::static_size) return false; for (std::size_t i = 0; i < w.size(); ++i) if (x[i] != (typename X::value_type)w[i]) return false; return x.c_str()[w.size()] == typename X::value_type(); }
template<class X> S nar(X const& x) { S r; for (auto ch : x) r += (char)ch; return r; }
template<class T> char const* tn(); 
#define TN(T) template<> char const* tn<T>() { return #T; }
TN(signed char) TN(char) TN(short) TN(int) TN(long) TN(long long) TN(unsigned char) TN(unsigned short) TN(unsigned) TN(unsigned long) TN(unsigned long long) TN(wchar_t) TN(char16_t) TN(float) TN(double) TN(long double)
template<class T, int B> void ib(T v) { MON_CASE(c, std::string("int_to_string<") + tn<T>() + ">", (long long)v, B); S w = ref((I128)v, B); c.ok(same(sprout::int_to_string<char, B>(v), w), "char: " + nar(sprout::int_to_string<char, B>(v)) + " want " + w); if (B == 2 || B == 10 || B == 16 || B == 13) { c.ok(same(sprout::int_to_string<wchar_t, B>(v), w), "wchar_t"); c.ok(same(sprout::int_to_string<char32_t, B>(v), w), "char32_t"); } c.ok(w.size() <= sprout::printed_integer_digits<T, B>::value, "printed_integer_digits");
	long long p = std::is_signed<T>::value ? sprout::string_to_int<long long>(sprout::int_to_string<char, B>(v), B) : (long long)sprout::string_to_int<unsigned long long>(sprout::int_to_string<char, B>(v), B); c.eq(p, (long long)v, "parsed back"); }
template<class T> void i10(T v) { MON_CASE(c, std::string("to_string<") + tn<T>() + ">", (long long)v); S w = ref((I128)v, 10); c.ok(same(sprout::to_string(v), w), "to_string: " + nar(sprout::to_string(v)) + " want " + w); c.ok(same(sprout::to_wstring(v), w), "to_wstring"); c.ok(same(sprout::to_u16string(v), w), "to_u16string"); c.ok(same(sprout::to_u32string(v), w), "to_u32string"); c.ok(same(sprout::to_string_of<wchar_t>(v), w), "to_string_of"); c.ok(same(sprout::to_string_value()(v), w), "to_string_value"); }
template<class T> std::vector<T> vals(int b, int n) { std::vector<T> v; typedef std::numeric_limits<T> L; for (int d = 0; d < 3; ++d) { v.push_back((T)(L::max() - d)); v.push_back((T)(L::min() + d)); } for (int d = 0; d < 4; ++d) { v.push_back((T)d); v.push_back((T)-d); } T p = 1; while (p <= L::max() / b) { p = (T)(p * b); for (int d = -1; d < 2; ++d) { v.push_back((T)(p + d)); if (std::is_signed<T>::value) v.push_back((T)(-(p + d))); } } for (int i = 0; i < n; ++i) { T x = (T)rng()(); v.push_back(x); v.push_back((T)(x >> rng().below(sizeof(T) * 8))); } return v; }
template<class T, int B> void base() { for (T v : vals<T>(B, (int)reps(10, 10))) ib<T, B>(v); }
template<class T> void small_bases() { base<T, 2>(); base<T, 3>(); base<T, 8>(); base<T, 10>(); base<T, 16>(); base<T, 13>(); for (T v : vals<T>(10, (int)reps(40, 10))) i10<T>(v); }
template<class T, int B> struct All { static void f() { base<T, B>(); All<T, B - 1>::f(); } }; template<class T> struct All<T, 1> { static void f() {} };
// ---------------------------------------------------------------- floating
inline bool fixed_form(S const& s, bool neg) { std::size_t i = 0; if (neg != (s[0] == '-')) return false; i = neg; std::size_t b = i; while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i; if (i == b || (s[b] == '0' && i != b + 1)) return false; if (i >= s.size() || s[i] != '.') return false; std::size_t d = ++i; while (i < s.size() && std::isdigit((unsigned char)s[i])) ++i; return i == s.size() && i - d == 6; }
inline bool exp_form(S const& s, bool neg, bool zero) { std::size_t i = neg; if (neg != (s[0] == '-')) return false; if (s.size() < i + 12) return false; if (!std::isdigit((unsigned char)s[i]) || (s[i] == '0') != zero || s[i + 1] != '.') return false; for (int k = 2; k < 8; ++k) if (!std::isdigit((unsigned char)s[i + k])) return false; if (s[i + 8] != 'e' || (s[i + 9] != '-' && s[i + 9] != '+')) return false; for (std::size_t k = i + 10; k < s.size(); ++k) if (!std::isdigit((unsigned char)s[k])) return false; std::size_t nd = s.size() - (i + 10); return nd == 2 || (nd > 2 && s[i + 10] != '0'); }
template<class T> void fl(T v, bool exact6 = false) { typedef std::numeric_limits<T> L; typedef long double D; MON_CASE(c, std::string("float_to_string<") + tn<T>() + ">", v); bool neg = std::signbit(v); auto x = sprout::to_string(v); S s = nar(x);
	c.ok(x.size() <= decltype(x)::static_size && x.c_str()[x.size()] == 0, "capacity"); c.ok(same(sprout::float_to_string<char>(v), s) && same(sprout::to_wstring(v), s) && same(sprout::to_u16string(v), s) && same(sprout::to_u32string(v), s) && same(sprout::to_string_of<char32_t>(v), s) && same(sprout::to_string_value()(v), s), "every character type gives the same text");
	auto y = sprout::float_to_string_exp<char>(v); S e = nar(y); c.ok(y.size() <= decltype(y)::static_size && y.c_str()[y.size()] == 0, "exponent form capacity"); c.ok(same(sprout::float_to_string_exp<wchar_t>(v), e), "exponent form, wide");
	if (v != v || std::isinf(v)) { S w = S(neg ? "-" : "") + (v != v ? "nan" : "inf"); c.eq(s, w, "special"); c.eq(e, w, "special, exponent form"); return; }
	if (!c.ok(fixed_form(s, neg), "fixed form: " + s) || !c.ok(exp_form(e, neg, v == 0), "exponent form: " + e)) return;
	D a = std::fabs((D)v), p = std::fabs(std::strtold(s.c_str(), nullptr)), q = std::fabs(std::strtold(e.c_str(), nullptr)); D ut = std::ldexp((D)1, -62);
	D tol = 0.5e-6L + (D)L::epsilon() + a * ut; if (a >= 9.9e18L) tol = a * std::max<D>(2e-17L, (D)L::epsilon() * (D)(8 + std::log10(a))); c.ok(std::fabs(a - p) <= tol, "value of " + s.substr(0, 60));
	int ex = std::atoi(e.c_str() + e.find('e') + 1); D un = v == 0 ? 0 : 0.5e-6L * std::pow((D)10, (D)ex) * (1 + 1e-12L); if (ex < -4940) un = std::max<D>(un, std::numeric_limits<D>::denorm_min() * 4); D te = un + a * (D)L::epsilon() * (D)(8 + std::abs(ex)); if (un > 0 || v == 0) c.ok(std::fabs(a - q) <= te, "value of " + e);
	if (exact6) { char b[400]; std::snprintf(b, sizeof b, "%.6Lf", (D)v); c.eq(s, S(b), "decimal with six places"); }
	// back again
	{ T r = sprout::string_to_float<T>(x), r2 = sprout::string_to_float<T>(y); if (a < 1e19L && s.size() < 30) { c.ok(std::fabs((D)r - (D)v) <= tol + a * (D)L::epsilon() * 96, "parsed back " + s); } if (a == 0 || (a > (D)L::min() * 16 && a < (D)L::max() / 16)) c.ok(std::fabs((D)r2 - (D)v) <= te + a * (D)L::epsilon() * 200, "parsed back " + e); } }
template<class T> void fb() { typedef std::numeric_limits<T> L; for (T s : { (T)1, (T)-1 }) { for (T v : { (T)0, (T)1, (T)0.5, (T)29, (T)0.29L, (T)9.9999995L, (T)9.9999994L, (T)0.9999996L, (T)0.9999994L, (T)99999.9999999L, (T)0.0000005L, (T)0.00000049L, (T)0.0000004L, (T)(1 / 128.L), (T)123456.789L, L::max(), L::min(), L::denorm_min(), (T)(L::max() / 2), L::infinity(), L::quiet_NaN(), (T)(L::min() * 3), (T)9.9999999L, (T)999999.9L, (T)9999995, (T)9999994 }) fl<T>(s * v);
		T p = 1; for (int e = 0; e <= L::max_exponent10; ++e, p *= 10) { if (L::max_exponent10 > 1000 && e > 30 && e % 37) continue; for (T v : { p, std::nextafter(p, (T)0), std::nextafter(p, L::infinity()), p * (T)9.9999996L / 10, p * (T)3 }) if (!std::isinf(v)) fl<T>(s * v); if (e < L::max_exponent10 - 1) { T q = 1 / p; fl<T>(s * q); fl<T>(s * std::nextafter(q, (T)0)); fl<T>(s * q * (T)4.4L); } } } }
template<class T> void fr() { typedef std::numeric_limits<T> L; for (std::uint64_t i = 0; i < reps(sizeof(T) > 8 ? 60 : 800); ++i) { T v; bool ex = false; switch (rng().below(5)) { case 0: v = std::ldexp((T)(1 + (T)(rng()() >> 11) / (T)9007199254740992.L), (int)rng().range(L::min_exponent + 2, L::max_exponent - 2)); break; case 1: v = (T)(rng()() >> (64 - L::digits < 0 ? 0 : 64 - L::digits)); ex = true; break; case 2: { long long k = (long long)(rng()() >> (L::digits > 50 ? 20 : 48)); k >>= rng().below(20); v = (T)((long double)k / 1e6L); ex = true; break; } case 3: v = std::ldexp((T)(rng()() >> 40), (int)rng().range(-40, 20)); break; default: v = (T)((long double)rng().range(0, 100000000) / 128); } if (rng().coin()) v = -v; fl<T>(v, ex); } }
#if MON_PART(0)
MON_TEST(integers_all_bases_a) { All<int, 16>::f(); }
MON_TEST(constant_expressions) { MON_CASE(c, "constant expressions", 0); constexpr auto a = sprout::to_string(-2147483647 - 1); constexpr auto b = sprout::int_to_string<char, 16>(0xdeadbeefu); constexpr auto d = sprout::to_string(-29.25); constexpr auto e = sprout::float_to_string_exp<char>(0.00123); constexpr auto f = sprout::to_string(1e20f); c.eq(nar(a), S("-2147483648"), "int"); c.eq(nar(b), S("deadbeef"), "hex"); c.eq(nar(d), S("-29.250000"), "double"); c.eq(nar(e), S("1.230000e-03"), "exponent"); c.ok(std::fabs(std::strtof(nar(f).c_str(), nullptr) - 1e20f) < 1e14f, "float"); }
#endif
#if MON_PART(1)
MON_TEST(integers_all_bases_b) { All<long long, 16>::f(); }
#endif
#if MON_PART(2)
MON_TEST(integers_all_bases_c) { All<unsigned long long, 16>::f(); }
#endif
#if MON_PART(3)
MON_TEST(integers_other_types_a) { small_bases<signed char>(); small_bases<unsigned char>(); small_bases<char>(); small_bases<short>(); small_bases<unsigned short>(); for (int v = -128; v < 128; ++v) { i10<signed char>((signed char)v); i10<unsigned char>((unsigned char)v); ib<signed char, 7>((signed char)v); } }
#endif
#if MON_PART(4)
MON_TEST(integers_other_types_b) { small_bases<unsigned>(); small_bases<long>(); small_bases<unsigned long>(); small_bases<wchar_t>(); small_bases<char16_t>(); for (int v : vals<int>(10, 100)) i10<int>(v); for (auto v : vals<long long>(10, 100)) i10<long long>(v); for (auto v : vals<unsigned long long>(10, 100)) i10<unsigned long long>(v); }
#endif
#if MON_PART(5)
MON_TEST(float_boundary) { fb<float>(); }
MON_TEST(float_random) { fr<float>(); }
#endif
#if MON_PART(6)
MON_TEST(double_boundary) { fb<double>(); }
MON_TEST(double_random) { fr<double>(); }
#endif
