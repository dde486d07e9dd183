// C32: text to number, differential against glibc; every text is an exact-size NUL-terminated heap block under ASan.
#include <mon.hpp>
#include <cstdlib>
#include <cinttypes>
#include <cmath>
#include <sprout/cstdlib.hpp>
#include <sprout/cinttypes.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
using namespace mon;
typedef std::string S;
template<class Ch> std::vector<Ch> zs(S const& s) { std::vector<Ch> v; for (char c : s) v.push_back((Ch)(unsigned char)c); v.push_back(Ch()); return v; }
template<class T> struct CI;   // reference: the C library, clamped to T
template<class T, class W> T clampT(W w) { return w < (W)std::numeric_limits<T>::min() ? std::numeric_limits<T>::min() : w > (W)std::numeric_limits<T>::max() ? std::numeric_limits<T>::max() : (T)w; }
template<class T> typename std::enable_if<std::is_signed<T>::value, T>::type cref(char const* s, char** e, int b) { return clampT<T, long long>(std::strtoll(s, e, b)); }
template<class T> typename std::enable_if<!std::is_signed<T>::value, T>::type cref(char const* s, char** e, int b) { return (T)std::strtoull(s, e, b); }
// one text, every integer entry point
template<class Ch> void wide_int(Case<S const&, int&>& c, S const& s, int b) { Buf<Ch> B(zs<Ch>(s)); Ch const* p = B.p; S w = sizeof(Ch) == 1 ? " char" : sizeof(Ch) == 2 ? " char16_t" : " wide"; char* e; char const* q = s.c_str();
	long long l = cref<long long>(q, &e, b); unsigned long long u = cref<unsigned long long>(q, &e, b);
	c.eq(sprout::strtol(p, nullptr, b), (long)l, "strtol" + w); c.eq(sprout::strtoll(p, nullptr, b), l, "strtoll" + w); c.eq(sprout::strtoul(p, nullptr, b), (unsigned long)u, "strtoul" + w); c.eq(sprout::strtoull(p, nullptr, b), u, "strtoull" + w); c.eq(sprout::strtoimax(p, nullptr, b), (std::intmax_t)l, "strtoimax" + w); c.eq(sprout::strtoumax(p, nullptr, b), (std::uintmax_t)u, "strtoumax" + w);
	c.eq(sprout::strtol(p, b), (long)l, "strtol 2" + w); c.eq(sprout::strtoll(p, b), l, "strtoll 2" + w); c.eq(sprout::strtoul(p, b), (unsigned long)u, "strtoul 2" + w); c.eq(sprout::strtoull(p, b), u, "strtoull 2" + w);
	c.eq(sprout::str_to_int<int>(p, nullptr, b), cref<int>(q, &e, b), "str_to_int<int>" + w); c.eq((int)sprout::str_to_int<short>(p, nullptr, b), (int)cref<short>(q, &e, b), "str_to_int<short>" + w); c.eq((int)sprout::str_to_int<signed char>(p, b), (int)cref<signed char>(q, &e, b), "str_to_int<signed char>" + w);
	if (b == 10) { c.eq(sprout::atoi(p), cref<int>(q, &e, 10), "atoi" + w); c.eq(sprout::atol(p), (long)l, "atol" + w); c.eq(sprout::atoll(p), l, "atoll" + w); c.eq(sprout::strtol(p), (long)l, "strtol default base" + w); c.eq(sprout::strtoull(p), u, "strtoull default base" + w); } }
template<class F> void endp(Case<S const&, int&>& c, S const& s, F f, std::size_t want, char const* what) { Buf<char> B(zs<char>(s)); char* e = nullptr; f((char const*)B.p, &e); c.eq((long)(e - B.p), (long)want, what); }
template<class X> void sto_int(Case<S const&, int&>& c, X const& x, S const& s, int b, S w) { char* e; char const* q = s.c_str(); long long l = cref<long long>(q, &e, b); unsigned long long u = cref<unsigned long long>(q, &e, b); std::size_t n = (std::size_t)(e - q), i; int wi = cref<int>(q, &e, b);
#define ST(F, V) i = 999; c.eq(sprout::F(x, &i, b), V, #F + w); c.eq(i, n, #F " index" + w); c.eq(sprout::F(x, b), V, #F " no index" + w); c.eq(sprout::F(x, (std::size_t*)nullptr, b), V, #F " null index" + w); if (b == 10) { c.eq(sprout::F(x), V, #F " default" + w); i = 998; c.eq(sprout::F(x, &i), V, #F " default index" + w); c.eq(i, n, #F " default index" + w); }
	ST(stoi, wi) ST(stol, (long)l) ST(stoul, (unsigned long)u) ST(stoll, l) ST(stoull, u) ST(stoimax, (std::intmax_t)l) ST(stoumax, (std::uintmax_t)u)
	if (b == 0) { i = 997; c.eq(sprout::from_string<long>(x, &i), (long)l, "from_string" + w); c.eq(i, n, "from_string index" + w); c.eq(sprout::from_string<int>(x), wi, "from_string int" + w); c.eq(sprout::from_string<unsigned long>(x), (unsigned long)u, "from_string ul" + w); } }
void one(S const& s, int b) { if (s.find('\0') != s.npos || ((b == 0 || b == 2) && (s.find("0b") != s.npos || s.find("0B") != s.npos))) return;   /* 0b is a C23 addition */ MON_CASE(c, "integer text", s, b); char* e; char const* q = s.c_str();
	wide_int<char>(c, s, b); wide_int<wchar_t>(c, s, b); wide_int<char16_t>(c, s, b);
	{ Buf<char> B(zs<char>(s)); char const* p = B.p; char* g;
#define EN(F) e = nullptr; c.eq(sprout::F(p, &g, b), std::F(p, &e, b), #F " with an end pointer"); c.ok(g == e, #F " end pointer"); c.eq(sprout::F(p, (char**)nullptr, b), std::F(p, nullptr, b), #F " with a null end pointer");
	EN(strtol) EN(strtoul) EN(strtoll) EN(strtoull) EN(strtoimax) EN(strtoumax) }
	if (s.size() <= 70) { sprout::basic_string<char, 70> x{}; sprout::basic_string<char, 70> y(s.c_str(), s.size()); (void)x; sto_int(c, y, s, b, S(" string")); Buf<char> B(s); sto_int(c, sprout::string_view(B.p, s.size()), s, b, S(" string_view")); sprout::basic_string<wchar_t, 70> w(zs<wchar_t>(s).data(), s.size()); c.eq(sprout::stoi(w, b), cref<int>(q, &e, b), "stoi wide"); } }
// a string filled to its capacity
template<std::size_t N> void full(S const& s, int b) { MON_CASE(c, "full string", s, b); Buf<sprout::basic_string<char, N>> B(1, sprout::basic_string<char, N>(s.c_str(), s.size())); sto_int(c, B.p[0], s, b, S(" string at capacity")); }
inline S digits(unsigned long long v, int b, bool up) { S r; do { int d = (int)(v % b); r.insert(r.begin(), d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= b; } while (v); return r; }
inline S gen(int b) { S s; for (int i = (int)rng().below(3); i; --i) if (rng().coin(1, 3)) s += " \t\n\v\f\r"[rng().below(6)]; switch (rng().below(6)) { case 0: s += '-'; break; case 1: s += '+'; break; case 2: s += '-'; break; default:; } if (rng().coin(1, 20)) s += rng().coin() ? '-' : '+'; if (rng().coin(1, 4)) s += rng().coin() ? "0x" : "0X"; else if (rng().coin(1, 5)) s += "0"; int bb = b ? b : rng().coin() ? 10 : rng().coin() ? 16 : 8; unsigned long long v; static unsigned long long const B[] = { 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0 };
	switch (rng().below(5)) { case 0: v = rng()() >> rng().below(64); break; case 1: case 2: v = B[rng().below(13)] + (unsigned long long)rng().range(-2, 2); break; case 3: v = rng().below(40); break; default: v = ~0ull / (unsigned)bb + (unsigned long long)rng().range(-1, 1); }
	if (rng().coin(1, 15)) return s + (rng().coin() ? "" : "z"); s += digits(v, bb, rng().coin()); if (rng().coin(1, 6)) s += digits(rng().below((unsigned)bb), bb, false); if (rng().coin(1, 20)) s += digits(rng()(), bb, false); if (rng().coin(1, 3)) { static char const* t[] = { " ", "x", "g", "-", "9", "z", "/", ":", "@", "[", "`", "{", "\x80", "0x1", ".5" }; s += t[rng().below(15)]; } return s; }
// ---------------------------------------------------------------- floating
struct FT { S s; int nd; };
template<class T> struct CF; template<> struct CF<float> { static float f(char const* s, char** e) { return std::strtof(s, e); } static char const* nm() { return "float"; } }; template<> struct CF<double> { static double f(char const* s, char** e) { return std::strtod(s, e); } static char const* nm() { return "double"; } }; template<> struct CF<long double> { static long double f(char const* s, char** e) { return std::strtold(s, e); } static char const* nm() { return "long double"; } };
template<class T> void near(Case<S const&>& c, T got, T want, long nd, S const& what) { T const eps = std::numeric_limits<T>::epsilon(), mx = std::numeric_limits<T>::max(); if (std::isinf(want) || std::isinf(got)) { T a = std::min(std::fabs(want), mx), g = std::min(std::fabs(got), mx); c.ok(std::signbit(want) == std::signbit(got) && std::fabs(a - g) <= mx * eps * (T)(2 * nd + 96), what + " near overflow: " + mon::str(got) + " want " + mon::str(want)); return; }
	T tol = std::fabs(want) * eps * (T)(2 * nd + 96) + std::numeric_limits<T>::denorm_min() * 32; c.ok(std::fabs(got - want) <= tol, what + ": " + mon::str(got) + " want " + mon::str(want)); c.eq((int)std::signbit(got), (int)std::signbit(want), what + " sign"); }

template<class T> struct NE; 
#define NEF(T, F) template<> struct NE<T> { template<class Ch> static T f(Ch const* p) { return sprout::F(p, nullptr); } static T fe(char const* p, char** e) { return sprout::F(p, e); } };
NEF(float, strtof) NEF(double, strtod) NEF(long double, strtold)
// the whole numeral (digits accumulated without overflow) is inside the range the digit-by-digit algorithm represents
template<class T> void fl(Case<S const&>& c, S const& s, bool dec, long nd) { char const* q = s.c_str(); char *e = nullptr, *g = nullptr; T want = CF<T>::f(q, &e); S n = CF<T>::nm(); Buf<char> B(zs<char>(s)); T got = NE<T>::fe(B.p, &g); c.ok(std::memcmp(&got, &want, sizeof(T) == 16 ? 10 : sizeof(T)) == 0 || (got != got && want != want), n + " with an end pointer"); c.eq((long)(g - B.p), (long)(e - q), n + " end pointer");
	std::size_t i = 77; if (s.size() <= 90) { sprout::basic_string<char, 90> x(q, s.size()); T a = sprout::string_to_float<T>(x, &i); c.ok(a == want || a != a, n + " string_to_float"); c.eq(i, (std::size_t)(e - q), n + " index"); Buf<char> V(s); sprout::string_view v(V.p, s.size()); i = 78; a = sprout::string_to_float<T>(v, &i); c.ok(a == want || a != a, n + " string_view"); c.eq(i, (std::size_t)(e - q), n + " view index"); if (dec) { near<T>(c, sprout::string_to_float<T>(x), want, nd, n + " string_to_float no index"); near<T>(c, sprout::string_to_float<T>(v), want, nd, n + " string_view no index"); near<T>(c, sprout::from_string<T>(x), want, nd, n + " from_string"); } }
	if (dec) { near<T>(c, NE<T>::f((char const*)B.p), want, nd, n + " without an end pointer"); Buf<wchar_t> W(zs<wchar_t>(s)); near<T>(c, NE<T>::f((wchar_t const*)W.p), want, nd, n + " wide"); Buf<char32_t> U(zs<char32_t>(s)); near<T>(c, sprout::str_to_float<T>((char32_t const*)U.p), want, nd, n + " char32_t"); } }
void flt(S const& s, bool dec) { MON_CASE(c, "floating text", s); long nd = 0; for (char ch : s) { if (ch == 'e' || ch == 'E') break; nd += ch >= '0' && ch <= '9'; } fl<float>(c, s, dec && nd <= 36, nd); fl<double>(c, s, dec && nd <= 300, nd); fl<long double>(c, s, dec, nd); if (dec && nd <= 300) { Buf<char> B(zs<char>(s)); near<double>(c, sprout::atof((char const*)B.p), std::atof(s.c_str()), nd, "atof"); char const* q = s.c_str(); if (s.size() <= 90) { sprout::basic_string<char, 90> x(q, s.size()); Buf<char> V(s); sprout::string_view v(V.p, s.size()); if (nd <= 36) { near<float>(c, sprout::stof(x), std::strtof(q, nullptr), nd, "stof"); near<float>(c, sprout::stof(v), std::strtof(q, nullptr), nd, "stof view"); } near<double>(c, sprout::stod(x), std::strtod(q, nullptr), nd, "stod"); near<double>(c, sprout::stod(v), std::strtod(q, nullptr), nd, "stod view"); near<long double>(c, sprout::stold(x), std::strtold(q, nullptr), nd, "stold"); near<long double>(c, sprout::stold(v), std::strtold(q, nullptr), nd, "stold view");
		std::size_t i = 5; char* e; std::strtod(q, &e); c.eq(sprout::stod(x, &i), std::strtod(q, nullptr), "stod index"); c.eq(i, (std::size_t)(e - q), "stod index"); i = 5; c.eq(sprout::stof(x, &i), std::strtof(q, nullptr), "stof index"); c.eq(i, (std::size_t)(e - q), "stof index"); i = 5; c.eq(sprout::stold(v, &i), std::strtold(q, nullptr), "stold index"); c.eq(i, (std::size_t)(e - q), "stold index"); } } }
inline S dig(int n) { S s; for (int i = 0; i < n; ++i) s += (char)('0' + rng().below(10)); return s; }
inline S fgen() { S s; for (int i = (int)rng().below(3); i; --i) if (rng().coin(1, 3)) s += " \t\n\v\f\r"[rng().below(6)]; if (rng().coin(1, 2)) s += rng().coin(2, 3) ? '-' : '+'; int m = rng().coin(1, 8) ? 30 : 9; switch (rng().below(5)) { case 0: s += dig((int)rng().range(0, m)); break; case 1: s += dig((int)rng().range(0, m)) + "." + dig((int)rng().range(0, m)); break; case 2: s += "." + S(rng().below(6), '0') + dig((int)rng().range(0, m)); break; case 3: s += dig(1) + "."; break; default: s += dig(1) + "." + dig((int)rng().range(1, m)); }
	if (rng().coin(2, 3)) { s += rng().coin() ? 'e' : 'E'; if (rng().coin(2, 3)) s += rng().coin(2, 3) ? '-' : '+'; static long const X[] = { 9, 20, 45, 320, 5000 }; if (!rng().coin(1, 10)) s += std::to_string(rng().range(0, X[rng().below(5)])); if (rng().coin(1, 40)) s += dig(25); } if (rng().coin(1, 5)) { static char const* t[] = { " ", "x", "e", "E+", ".", "-", "+1", "f", ".5", "p3", "z" }; s += t[rng().below(11)]; } return s; }
// hexadecimal, infinity and NaN are read only with an end pointer (documented limit of the claim); keep them out of the decimal oracle
inline bool plain(S const& s) { std::size_t i = 0; while (i < s.size() && std::isspace((unsigned char)s[i])) ++i; if (i < s.size() && (s[i] == '-' || s[i] == '+')) ++i; if (i + 1 < s.size() && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) return false; return i >= s.size() || !std::isalpha((unsigned char)s[i]); }
#if MON_PART(0)
MON_TEST(integer_boundary) { static int const bs[] = { 0, 2, 8, 10, 16, 36 }; for (int b : bs) { for (char const* t : { "", "-", "+", "0", "-0", "+0", "00", "0x", "-0x", "0xg", "0X1", "08", "09", "0b1", "- 1", "+-1", "--1", " \t\n\v\f\r7", "7 ", "\x1f" "5", "\xa0" "5", "_", "1_", "z", "Z", "@", "[", "`", "{", "/", ":", "2147483647", "2147483648", "-2147483648", "-2147483649", "-2147483647", "32767", "32768", "-32768", "-32769", "127", "128", "-128", "-129", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551614", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "-18446744073709551616", "99999999999999999999999999", "-99999999999999999999999999" }) one(t, b); }
	for (int b = 2; b <= 36; ++b) for (unsigned long long v : { 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0x7fffffffull }) for (int d = -1; d <= 1; ++d) for (char const* sg : { "", "-" }) one(sg + digits(v + (unsigned long long)d, b, d > 0), b); for (int b : { 2, 10, 16, 36 }) { full<3>(digits(7, 2, false), b); full<2>("12", b); full<2>("-1", b); full<1>("1", b); full<1>("-", b); full<4>("0x1f", b); full<2>("0x", b); full<4>("  11", b); } full<2>("0x", 0); full<1>("0", 0); full<0>("", 0); full<20>("-9223372036854775808", 10); }
#endif
#if MON_PART(1)
MON_TEST(integer_random) { for (std::uint64_t i = 0; i < reps(6000); ++i) { int b = rng().coin(1, 4) ? 0 : rng().coin() ? 10 : rng().coin(1, 3) ? 16 : (int)rng().range(2, 36); one(gen(b), b); } }
MON_TEST(unterminated_view) { S s = "12345"; MON_CASE(c, "view", s); sprout::string_view v(s.data(), 3); c.ok(sprout::stoi(v) == 123, "string_view not followed by NUL: stoi reads past the end of the view"); std::size_t i = 0; c.ok(sprout::stol(v, &i) == 123, "string_view not followed by NUL: stol reads past the end of the view"); S f = "1.25"; sprout::string_view w(f.data(), 3); c.ok(sprout::stod(w) == 1.2, "string_view not followed by NUL: stod reads past the end of the view"); }
#endif
#if MON_PART(2)
MON_TEST(float_boundary) { for (char const* t : { "", "-", "+", ".", "-.", "0", "-0", "0.0", "-.0", "1", ".5", "5.", "-5.", "1e", "1e+", "1e-", "1E", "1ex", "1e+x", "e5", ".e5", "1e5", "1e+5", "1e-5", "-1e5", "-1e-5", "-1e+5", "1E5", "1.5e3", "1.5e-3", "12.5e1", "-12.5e-1", "1e0", "1e-0", "0e5", "-0e5", "0e999999", "0e-999999", "1e999999", "-1e999999", "1e-999999", "-1e-999999", "1e99999999999999999999", "1e-99999999999999999999", "-1e99999999999999999999", "1e37", "1e38", "3e38", "3.4e38", "1e-37", "1e-38", "1e-44", "1e-46", "1e-50", "1e300", "1e308", "1.7e308", "1e-300", "1e-307", "1e-308", "1e-320", "1e-323", "1e-330", "1e4000", "1e4931", "1e-4000", "1e-4931", "1e-4950", "123456789012345678901234567890", "0.000000000000000000000000000001", "0.00000000000000000000000000000123e+30", "1..2", "1.2.3", "1 2", "1e5.5", "1,5", "--1", "+-1", " \t\n\v\f\r1.5", "1e005", "1e-005", "001.5", "1.e3", "-.5e1" }) flt(t, true); for (char const* t : { "inf", "-INF", "infinity", "nan", "-nan(12)", "0x1p3", "0x1.8p-1", "-0X.8", "0x", "infx" }) flt(t, false); }
#endif
#if MON_PART(3)
MON_TEST(float_random) { for (std::uint64_t i = 0; i < reps(8000); ++i) { S s = fgen(); flt(s, plain(s)); } }
#endif
#if MON_PART(4)
// compile time agrees
MON_TEST(compile_time) { MON_CASE(c, "constant expressions", 0); constexpr int a = sprout::atoi("-2147483647"); constexpr long b = sprout::strtol("-0x7f", nullptr, 16); constexpr unsigned long u = sprout::strtoul("-1", nullptr, 10); constexpr double d = sprout::atof("-12.5e-1"), h = sprout::atof("1e300"), z = sprout::atof("1e-400"); constexpr int st = sprout::stoi(sprout::to_string("77z"), 8); c.eq(a, -2147483647, "atoi"); c.eq(b, -127l, "strtol"); c.eq(u, ~0ul, "strtoul"); c.eq(d, -1.25, "atof"); c.ok(std::fabs(h - 1e300) < 1e287, "atof 1e300"); c.eq(z, 0., "atof 1e-400"); c.eq(st, 63, "stoi"); }
#endif
