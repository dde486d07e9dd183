// C34: character classes and case mapping against the C locale, byte order against the builtins and against memory.
#include <mon.hpp>
#include <cctype>
#include <cwctype>
#include <sprout/ctype.hpp>
#include <sprout/cwctype.hpp>
#include <sprout/net/endian.hpp>
#include <sprout/endian_traits.hpp>
#include <arpa/inet.h>
#undef htonl
#undef htons
#undef ntohl
#undef ntohs
using namespace mon;
namespace ct = sprout::ctypes;
struct Row { char const* n; int (*ref)(int); ct::mask m; };
static Row const rows[] = { { "alnum", std::isalnum, ct::alnum }, { "alpha", std::isalpha, ct::alpha }, { "blank", std::isblank, ct::blank }, { "cntrl", std::iscntrl, ct::cntrl }, { "digit", std::isdigit, ct::digit }, { "graph", std::isgraph, ct::graph }, { "lower", std::islower, ct::lower }, { "print", std::isprint, ct::print }, { "punct", std::ispunct, ct::punct }, { "space", std::isspace, ct::space }, { "upper", std::isupper, ct::upper }, { "xdigit", std::isxdigit, ct::xdigit } };
template<class Ch> unsigned long long ucode(Ch c) { return sizeof(Ch) == 1 ? (unsigned long long)(unsigned char)c : sizeof(Ch) == 2 ? (unsigned long long)(std::uint16_t)c : (unsigned long long)(std::uint32_t)c; }
inline int cls(unsigned long long u) { int b = 0; if (u < 128) for (int i = 0; i < 12; ++i) if (rows[i].ref((int)u)) b |= 1 << i; return b; }
template<class Ch> int got(Ch c, int) { return (int)sprout::isalnum(c) | sprout::isalpha(c) << 1 | sprout::isblank(c) << 2 | sprout::iscntrl(c) << 3 | sprout::isdigit(c) << 4 | sprout::isgraph(c) << 5 | sprout::islower(c) << 6 | sprout::isprint(c) << 7 | sprout::ispunct(c) << 8 | sprout::isspace(c) << 9 | sprout::isupper(c) << 10 | sprout::isxdigit(c) << 11; }
inline int gotw(wchar_t c) { return (int)sprout::iswalnum(c) | sprout::iswalpha(c) << 1 | sprout::iswblank(c) << 2 | sprout::iswcntrl(c) << 3 | sprout::iswdigit(c) << 4 | sprout::iswgraph(c) << 5 | sprout::iswlower(c) << 6 | sprout::iswprint(c) << 7 | sprout::iswpunct(c) << 8 | sprout::iswspace(c) << 9 | sprout::iswupper(c) << 10 | sprout::iswxdigit(c) << 11; }
template<class Ch, class V> int gotf(Ch c) { return (int)ct::is_alnum<V>()(c) | ct::is_alpha<V>()(c) << 1 | ct::is_blank<V>()(c) << 2 | ct::is_cntrl<V>()(c) << 3 | ct::is_digit<V>()(c) << 4 | ct::is_graph<V>()(c) << 5 | ct::is_lower<V>()(c) << 6 | ct::is_print<V>()(c) << 7 | ct::is_punct<V>()(c) << 8 | ct::is_space<V>()(c) << 9 | ct::is_upper<V>()(c) << 10 | ct::is_xdigit<V>()(c) << 11; }
template<class K> void wide(K& c, wchar_t ch, int w, unsigned long long u) { int ww = 0; if (u < 128) { static int (*const wf[])(std::wint_t) = { std::iswalnum, std::iswalpha, std::iswblank, std::iswcntrl, std::iswdigit, std::iswgraph, std::iswlower, std::iswprint, std::iswpunct, std::iswspace, std::iswupper, std::iswxdigit }; for (int i = 0; i < 12; ++i) if (wf[i]((std::wint_t)u)) ww |= 1 << i; c.eq(ww, w, "C library agrees with itself"); } c.eq(gotw(ch), w, "wide predicates"); wchar_t lo = u < 128 ? (wchar_t)std::towlower((std::wint_t)u) : ch, up = u < 128 ? (wchar_t)std::towupper((std::wint_t)u) : ch; c.ok(sprout::towlower(ch) == lo && sprout::towupper(ch) == up, "wide case mapping"); for (int i = 0; i < 12; ++i) c.ok(sprout::iswclassified(rows[i].m, ch) == ((w >> i & 1) != 0), "iswclassified"); }
template<class K, class Ch> void wide(K&, Ch, int, unsigned long long) {}
template<class Ch> void unit(Ch ch) { unsigned long long u = ucode(ch); int w = cls(u); MON_CASE(c, std::string("code unit <") + (std::is_same<Ch, char>::value ? "char" : std::is_same<Ch, wchar_t>::value ? "wchar_t" : sizeof(Ch) == 2 ? "char16_t" : "char32_t") + ">", u); Ch lo = u < 128 ? (Ch)std::tolower((int)u) : ch, up = u < 128 ? (Ch)std::toupper((int)u) : ch;
	c.eq(got(ch, 0), w, "predicates"); c.eq(gotf<Ch, void>(ch), w, "function objects"); c.eq(gotf<Ch, Ch>(ch), w, "typed function objects"); c.ok(sprout::tolower(ch) == lo && ct::to_lower<>()(ch) == lo && ct::to_lower<Ch>()(ch) == lo, "tolower"); c.ok(sprout::toupper(ch) == up && ct::to_upper<>()(ch) == up && ct::to_upper<Ch>()(ch) == up, "toupper");
	for (int i = 0; i < 12; ++i) { bool b = (w >> i & 1) != 0; c.ok(sprout::isclassified(rows[i].m, ch) == b, std::string("isclassified ") + rows[i].n); c.ok(ct::is_classified<>(rows[i].m)(ch) == b && ct::is_classified<Ch>(rows[i].m)(ch) == b, std::string("is_classified ") + rows[i].n); int j = (int)((u + (unsigned)i * 5 + 1) % 12); bool b2 = b || (w >> j & 1); c.ok(sprout::isclassified(rows[i].m | rows[j].m, ch) == b2, std::string("isclassified ") + rows[i].n + "|" + rows[j].n); } c.ok(!sprout::isclassified(ct::mask(0), ch), "isclassified of the empty mask");
	Ch o = (Ch)(ch ^ 0x20), p = (Ch)(u + 1); for (Ch z : { ch, o, p, (Ch)0x41, (Ch)0x61 }) { unsigned long long uz = ucode(z); bool e = lo == (uz < 128 ? (Ch)std::tolower((int)uz) : z); c.ok(ct::nocase_equal_to<>()(ch, z) == e && ct::nocase_equal_to<Ch>()(ch, z) == e && ct::nocase_not_equal_to<>()(ch, z) != e && ct::nocase_not_equal_to<Ch>()(ch, z) != e, "nocase"); } wide(c, ch, w, u); }
// sweep without a case per unit: a unit that disagrees is re-examined as a case of its own
template<class Ch> void sweep(unsigned long long a, unsigned long long b, unsigned long long step) { MON_CASE(c, std::string("sweep ") + std::to_string(sizeof(Ch)), a, b); unsigned long long bad = 0, n = 0; for (unsigned long long u = a; u < b; u += step, ++n) { Ch ch = (Ch)u; int w = cls(u); Ch lo = u < 128 ? (Ch)std::tolower((int)u) : ch, up = u < 128 ? (Ch)std::toupper((int)u) : ch; if (got(ch, 0) != w || sprout::tolower(ch) != lo || sprout::toupper(ch) != up) { if (bad++ < 3) unit<Ch>(ch); } } c.eq(bad, 0ull, "code units that disagree"); }
// ---------------------------------------------------------------- byte order
template<class T> T rev(T v) { unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof v); std::reverse(b, b + sizeof v); std::memcpy(&v, b, sizeof v); return v; }
template<class T> void eo(T v) { MON_CASE(c, "byte order " + std::to_string(sizeof(T) * 8), (unsigned long long)v); c.ok(sprout::net::hton(v) == rev(v), "hton"); c.ok(sprout::net::ntoh(v) == rev(v), "ntoh"); c.ok(sprout::net::ntoh(sprout::net::hton(v)) == v && sprout::net::hton(sprout::net::ntoh(v)) == v, "inverse"); T r = sprout::net::hton(v); unsigned char b[sizeof(T)]; std::memcpy(b, &r, sizeof r); for (std::size_t i = 0; i < sizeof(T); ++i) c.ok(b[i] == (unsigned char)(v >> (8 * (sizeof(T) - 1 - i))), "network order in memory"); }
template<class T, class Tr, class K> void tr1(K& c, T v, bool big, char const* n) { c.eq(Tr::size(), sizeof(T), std::string(n) + " size"); unsigned long long u = (unsigned long long)v; T w = 0, z = (T)~(unsigned long long)v; for (std::size_t i = 0; i < sizeof(T); ++i) { unsigned char e = (unsigned char)(u >> 8 * (big ? sizeof(T) - 1 - i : i)); c.ok(Tr::get_byte(v, i) == e, std::string(n) + " get_byte"); Tr::set_byte(w, i, e); Tr::set_byte(z, sizeof(T) - 1 - i, (unsigned char)(u >> 8 * (big ? i : sizeof(T) - 1 - i))); } c.ok(w == v && z == v, std::string(n) + " set_byte"); T y = v; unsigned char nb = (unsigned char)(u * 37 + 11); std::size_t k = (std::size_t)(u % sizeof(T)); Tr::set_byte(y, k, nb); for (std::size_t i = 0; i < sizeof(T); ++i) c.ok(Tr::get_byte(y, i) == (i == k ? nb : Tr::get_byte(v, i)), std::string(n) + " set_byte touches one byte"); }
template<class T> void tr(T v) { MON_CASE(c, "endian traits " + std::to_string(sizeof(T) * 8) + (std::is_signed<T>::value ? "s" : "u"), (long long)v); tr1<T, sprout::big_endian_traits<T>>(c, v, true, "big"); tr1<T, sprout::little_endian_traits<T>>(c, v, false, "little"); tr1<T, sprout::endian_traits<T>>(c, v, true, "default"); }
template<class T> T rnd() { T v = (T)rng()(); if (rng().coin(1, 3)) { v = 0; for (std::size_t i = 0; i < sizeof(T); ++i) if (rng().coin()) v = (T)(v | (T)((T)(rng().coin() ? 0xff : 0x80) << (8 * i))); } return v; }
#if MON_PART(0)
MON_TEST(code_units) { for (int i = -128; i < 128; ++i) unit<char>((char)i); for (int i = 0; i < 0x180; ++i) { unit<wchar_t>((wchar_t)i); unit<char16_t>((char16_t)i); unit<char32_t>((char32_t)i); } for (unsigned long long u : { 0x2028ull, 0x3000ull, 0xff21ull, 0xd800ull, 0xffffull }) { unit<char16_t>((char16_t)u); unit<char32_t>((char32_t)u); unit<wchar_t>((wchar_t)u); } for (unsigned long long u : { 0x10041ull, 0x10ffffull, 0x7fffffffull, 0x80000041ull, 0xffffff41ull, 0xffffffffull, 0x80000000ull }) { unit<char32_t>((char32_t)u); unit<wchar_t>((wchar_t)u); } for (std::uint64_t i = 0; i < reps(200); ++i) { std::uint32_t x = (std::uint32_t)rng()(); x = (x & ~0xffu) | (x & 0x7f); unit<char32_t>((char32_t)x); unit<wchar_t>((wchar_t)x); unit<char16_t>((char16_t)x); } }
MON_TEST(sweeps) { sweep<char16_t>(0, 0x10000, 1); for (unsigned long long a = 0; a < 0x110000; a += 0x10000) { sweep<char32_t>(a, a + 0x10000, 1); sweep<wchar_t>(a, a + 0x10000, 1); } for (unsigned long long a = 0; a < 0x100000000ull; a += 0x10000000) { sweep<char32_t>(a, a + 0x10000000, thorough() ? 13 : 4099); sweep<wchar_t>(a + 0x41, a + 0x10000000, thorough() ? 17 : 4096); } }
MON_TEST(constant_expressions) { MON_CASE(c, "constant expressions", 0); constexpr bool a = sprout::isalpha('Q'), b = sprout::isspace(L'\x85'), d = sprout::isclassified(ct::alpha | ct::punct, '5'); constexpr char32_t e = sprout::toupper(U'z'); constexpr std::uint32_t f = sprout::net::htonl(0x01020380u); c.ok(a && !b && !d, "classes"); c.ok(e == U'Z', "toupper"); c.eq(f, 0x80030201u, "htonl"); }
#endif
#if MON_PART(1)
MON_TEST(byte_order) { for (unsigned i = 0; i < 256; ++i) eo<std::uint8_t>((std::uint8_t)i); for (unsigned i = 0; i < 65536; i += thorough() ? 1 : 7) { eo<std::uint16_t>((std::uint16_t)i); } for (std::uint64_t i = 0; i < reps(2000); ++i) { eo<std::uint32_t>(rnd<std::uint32_t>()); eo<std::uint64_t>(rnd<std::uint64_t>()); eo<unsigned long long>(rnd<unsigned long long>()); } for (int k = 0; k < 64; ++k) { eo<std::uint64_t>(1ull << k); eo<std::uint32_t>((std::uint32_t)(1ull << k)); }
	for (std::uint64_t i = 0; i < reps(2000); ++i) { std::uint32_t v = rnd<std::uint32_t>(); MON_CASE(c, "hton family", v); c.eq(sprout::net::htonl(v), __builtin_bswap32(v), "htonl"); c.eq(sprout::net::ntohl(v), __builtin_bswap32(v), "ntohl"); c.eq(sprout::net::htons((std::uint16_t)v), __builtin_bswap16((std::uint16_t)v), "htons"); c.eq(sprout::net::ntohs((std::uint16_t)v), __builtin_bswap16((std::uint16_t)v), "ntohs"); c.eq(::htonl(v), sprout::net::htonl(v), "C library"); } }
#endif
#if MON_PART(2)
MON_TEST(endian_traits) { for (int i = 0; i < 256; ++i) { tr<signed char>((signed char)i); tr<unsigned char>((unsigned char)i); tr<char>((char)i); } for (std::uint64_t i = 0; i < reps(700); ++i) { tr(rnd<short>()); tr(rnd<unsigned short>()); tr(rnd<int>()); tr(rnd<unsigned>()); tr(rnd<long>()); tr(rnd<unsigned long>()); tr(rnd<long long>()); tr(rnd<unsigned long long>()); tr(rnd<char16_t>()); tr(rnd<char32_t>()); tr(rnd<wchar_t>()); } for (int k = 0; k < 64; ++k) { tr((long)(1ull << k)); tr((int)(1ull << k)); tr((unsigned long)~(1ull << k)); } }
#endif
