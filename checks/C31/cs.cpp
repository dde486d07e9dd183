// C31: C string / memory functions against glibc (char, wchar_t) or a plain reference (char16_t, char32_t); every buffer is an exact-size heap block under ASan.
#include <mon.hpp>
#include <cstring>
#include <cwchar>
#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
using namespace mon;
template<class Ch> using S = std::basic_string<Ch>;
template<class Ch> char const* nm() { return std::is_same<Ch, char>::value ? "char" : std::is_same<Ch, wchar_t>::value ? "wchar_t" : sizeof(Ch) == 2 ? "char16_t" : "char32_t"; }
inline int sg(long long x) { return x < 0 ? -1 : x > 0; }
template<class Ch> std::vector<long long> codes(S<Ch> const& s) { std::vector<long long> v; for (Ch c : s) v.push_back((long long)c); return v; }
template<class Ch> std::vector<Ch> zs(S<Ch> const& s) { return std::vector<Ch>(s.c_str(), s.c_str() + s.size() + 1); }
// reference: independent definitions for every character type, cross-checked with the C library where it exists
template<class Ch> typename std::make_unsigned<Ch>::type ord(Ch c, std::true_type) { return (typename std::make_unsigned<Ch>::type)c; }
template<class Ch> Ch ord(Ch c, std::false_type) { return c; }
template<class Ch> int cmpc(Ch a, Ch b) { auto x = ord(a, std::is_same<Ch, char>()); auto y = ord(b, std::is_same<Ch, char>()); return x < y ? -1 : y < x; }
template<class Ch> int rcmp(S<Ch> const& a, S<Ch> const& b, std::size_t n = (std::size_t)-1) { for (std::size_t i = 0; i < n; ++i) { Ch x = i < a.size() ? a[i] : Ch(), y = i < b.size() ? b[i] : Ch(); if (int r = cmpc(x, y)) return r; if (!x) return 0; } return 0; }
template<class Ch> struct L { static long cmp(Ch const*, Ch const*, long r) { return r; } static long ncmp(Ch const*, Ch const*, std::size_t, long r) { return r; } static long chr(Ch const*, Ch, long r) { return r; } static long rchr(Ch const*, Ch, long r) { return r; } static long str(Ch const*, Ch const*, long r) { return r; } static long spn(Ch const*, Ch const*, long r) { return r; } static long cspn(Ch const*, Ch const*, long r) { return r; } static long pbrk(Ch const*, Ch const*, long r) { return r; } };
template<class Ch> long off(Ch const* p, Ch const* b) { return p ? (long)(p - b) : -1; }
#define CL(Ch, P) template<> struct L<Ch> { static long cmp(Ch const* a, Ch const* b, long) { return sg(std::P##cmp(a, b)); } static long ncmp(Ch const* a, Ch const* b, std::size_t n, long) { return sg(std::P##ncmp(a, b, n)); } \
	static long chr(Ch const* a, Ch b, long) { return off<Ch>(std::P##chr(a, b), a); } static long rchr(Ch const* a, Ch b, long) { return off<Ch>(std::P##rchr(a, b), a); } static long str(Ch const* a, Ch const* b, long) { return off<Ch>(std::P##str(a, b), a); } \
	static long spn(Ch const* a, Ch const* b, long) { return (long)std::P##spn(a, b); } static long cspn(Ch const* a, Ch const* b, long) { return (long)std::P##cspn(a, b); } static long pbrk(Ch const* a, Ch const* b, long) { return off<Ch>(std::P##pbrk(a, b), a); } };
CL(char, str)
CL(wchar_t, wcs)
// the wide family has its own entry points
template<class Ch> struct W { typedef Ch const* P; static int cmp(P a, P b) { return sprout::strcmp(a, b); } static int coll(P a, P b) { return sprout::strcoll(a, b); } static int ncmp(P a, P b, std::size_t n) { return sprout::strncmp(a, b, n); } static P chr(P a, Ch b) { return sprout::strchr(a, b); } static Ch* chr(Ch* a, Ch b) { return sprout::strchr(a, b); } static P rchr(P a, Ch b) { return sprout::strrchr(a, b); } static Ch* rchr(Ch* a, Ch b) { return sprout::strrchr(a, b); } static P str(P a, P b) { return sprout::strstr(a, b); } static Ch* str(Ch* a, P b) { return sprout::strstr(a, b); } static P pbrk(P a, P b) { return sprout::strpbrk(a, b); } static Ch* pbrk(Ch* a, P b) { return sprout::strpbrk(a, b); }
	static std::size_t spn(P a, P b) { return sprout::strspn(a, b); } static std::size_t cspn(P a, P b) { return sprout::strcspn(a, b); } static std::size_t len(P a) { return sprout::strlen(a); } static std::size_t len(P a, std::size_t n) { return sprout::strlen(a, n); } static Ch* cpy(Ch* d, P s) { return sprout::strcpy(d, s); } static Ch* ncpy(Ch* d, P s, std::size_t n) { return sprout::strncpy(d, s, n); } static Ch* cat(Ch* d, P s) { return sprout::strcat(d, s); } static Ch* ncat(Ch* d, P s, std::size_t n) { return sprout::strncat(d, s, n); } };
template<> struct W<wchar_t> { typedef wchar_t Ch; typedef Ch const* P; static int cmp(P a, P b) { return sprout::wcscmp(a, b); } static int coll(P a, P b) { return sprout::wcscoll(a, b); } static int ncmp(P a, P b, std::size_t n) { return sprout::wcsncmp(a, b, n); } static P chr(P a, Ch b) { return sprout::wcschr(a, b); } static Ch* chr(Ch* a, Ch b) { return sprout::wcschr(a, b); } static P rchr(P a, Ch b) { return sprout::wcsrchr(a, b); } static Ch* rchr(Ch* a, Ch b) { return sprout::wcsrchr(a, b); } static P str(P a, P b) { return sprout::wcsstr(a, b); } static Ch* str(Ch* a, P b) { return sprout::wcsstr(a, b); } static P pbrk(P a, P b) { return sprout::wcspbrk(a, b); } static Ch* pbrk(Ch* a, P b) { return sprout::wcspbrk(a, b); }
	static std::size_t spn(P a, P b) { return sprout::wcsspn(a, b); } static std::size_t cspn(P a, P b) { return sprout::wcscspn(a, b); } static std::size_t len(P a) { return sprout::wcslen(a); } static std::size_t len(P a, std::size_t n) { return sprout::wcslen(a, n); } static Ch* cpy(Ch* d, P s) { return sprout::wcscpy(d, s); } static Ch* ncpy(Ch* d, P s, std::size_t n) { return sprout::wcsncpy(d, s, n); } static Ch* cat(Ch* d, P s) { return sprout::wcscat(d, s); } static Ch* ncat(Ch* d, P s, std::size_t n) { return sprout::wcsncat(d, s, n); } };
template<class Ch> void two(S<Ch> const& a, S<Ch> const& b) { typedef W<Ch> w; MON_CASE(c, std::string("two strings <") + nm<Ch>() + ">", codes<Ch>(a), codes<Ch>(b)); Buf<Ch> A(zs<Ch>(a)), B(zs<Ch>(b)); Ch const *x = A.p, *y = B.p; typedef L<Ch> l;
	auto any = [&](Ch z) { return b.find(z) != b.npos; }; std::size_t sp = 0; while (sp < a.size() && any(a[sp])) ++sp; std::size_t cs = 0; while (cs < a.size() && !any(a[cs])) ++cs; std::size_t fd = a.find(b); long st = fd == a.npos ? -1 : (long)fd; long pb = cs == a.size() ? -1 : (long)cs;
	c.eq((long)sg(w::cmp(x, y)), l::cmp(x, y, rcmp<Ch>(a, b)), "strcmp"); c.eq((long)sg(w::coll(x, y)), l::cmp(x, y, rcmp<Ch>(a, b)), "strcoll"); c.eq((long)rcmp<Ch>(a, b), l::cmp(x, y, rcmp<Ch>(a, b)), "reference"); c.eq((long)w::spn(x, y), l::spn(x, y, (long)sp), "strspn"); c.eq((long)w::cspn(x, y), l::cspn(x, y, (long)cs), "strcspn"); c.eq(off<Ch>(w::pbrk(x, y), x), l::pbrk(x, y, pb), "strpbrk"); c.eq(off<Ch>(w::pbrk(A.p, y), x), pb, "strpbrk mutable"); c.eq(off<Ch>(w::str(x, y), x), l::str(x, y, st), "strstr"); c.eq(off<Ch>(w::str(A.p, y), x), st, "strstr mutable");
	for (std::size_t n = 0; n <= std::max(a.size(), b.size()) + 2 && n < 12; ++n) c.eq((long)sg(w::ncmp(x, y, n)), l::ncmp(x, y, n, rcmp<Ch>(a, b, n)), "strncmp " + std::to_string(n));
	{ Buf<Ch> a2(S<Ch>(a, 0, std::min(a.size(), b.size()))), b2(S<Ch>(b, 0, std::min(a.size(), b.size()))); c.eq((long)sg(w::ncmp(a2.p, b2.p, a2.n)), (long)rcmp<Ch>(S<Ch>(a2.begin(), a2.end()), S<Ch>(b2.begin(), b2.end())), "strncmp unterminated"); }
	// copying: exact destination, then a destination with a canary tail
	for (std::size_t slack = 0; slack < 3; slack += 2) { Ch const F = (Ch)0x5a; { Buf<Ch> D(b.size() + 1 + slack, F); Ch* r = w::cpy(D.p, y); S<Ch> e = b; e.push_back(Ch()); e.append(slack, F); c.ok(r == D.p && S<Ch>(D.begin(), D.end()) == e, "strcpy"); }
		{ Buf<Ch> D(a.size() + b.size() + 1 + slack, F); std::copy(A.begin(), A.end(), D.p); Ch* r = w::cat(D.p, y); S<Ch> e = a + b; e.push_back(Ch()); e.append(slack, F); c.ok(r == D.p && S<Ch>(D.begin(), D.end()) == e, "strcat"); }
		for (std::size_t n = 0; n <= b.size() + 2; ++n) { std::size_t k = std::min(n, b.size()); { Buf<Ch> D(n + slack, F); Ch* r = w::ncpy(D.p, y, n); S<Ch> e(b, 0, k); e.append(n - k, Ch()); e.append(slack, F); c.ok(r == D.p && S<Ch>(D.begin(), D.end()) == e, "strncpy " + std::to_string(n)); }
			{ Buf<Ch> D(a.size() + k + 1 + slack, F); std::copy(A.begin(), A.end(), D.p); Ch* r = w::ncat(D.p, y, n); S<Ch> e = a + S<Ch>(b, 0, k); e.push_back(Ch()); e.append(slack, F); c.ok(r == D.p && S<Ch>(D.begin(), D.end()) == e, "strncat " + std::to_string(n)); }
			if (n >= k) { Buf<Ch> U(S<Ch>(b, 0, k)); Buf<Ch> D(k, F); w::ncpy(D.p, U.p, k); c.ok(D.vec() == U.vec(), "strncpy unterminated"); Buf<Ch> D2(a.size() + k + 1, F); std::copy(A.begin(), A.end(), D2.p); w::ncat(D2.p, U.p, k); c.ok(S<Ch>(D2.begin(), D2.end() - 1) == a + S<Ch>(b, 0, k), "strncat unterminated"); } } } }
template<class Ch> void one(S<Ch> const& a, std::vector<Ch> const& al) { typedef W<Ch> w; MON_CASE(c, std::string("one string <") + nm<Ch>() + ">", codes<Ch>(a)); Buf<Ch> A(zs<Ch>(a)); Ch const* x = A.p; c.eq(w::len(x), a.size(), "strlen"); Buf<Ch> U(a); for (std::size_t n = 0; n <= a.size(); ++n) c.eq(w::len((Ch const*)U.p, n), n, "bounded strlen"); c.eq(w::len(x, a.size() + 1), a.size(), "bounded strlen");
	std::vector<Ch> q(al); q.push_back(Ch()); if (!a.empty()) q.push_back(a.back()); for (Ch z : q) { std::size_t f = a.find(z), r = a.rfind(z); long wf = !z ? (long)a.size() : f == a.npos ? -1 : (long)f, wr = !z ? (long)a.size() : r == a.npos ? -1 : (long)r; c.eq(off<Ch>(w::chr(x, z), x), L<Ch>::chr(x, z, wf), "strchr"); c.eq(off<Ch>(w::chr(A.p, z), x), wf, "strchr mutable"); c.eq(off<Ch>(w::rchr(x, z), x), L<Ch>::rchr(x, z, wr), "strrchr"); c.eq(off<Ch>(w::rchr(A.p, z), x), wr, "strrchr mutable"); } }
template<class Ch> std::vector<Ch> alpha();
template<> std::vector<char> alpha<char>() { return { 'a', 'b', (char)0x80, (char)0xff }; }
template<> std::vector<wchar_t> alpha<wchar_t>() { return { L'a', L'b', (wchar_t)0x10ffff, (wchar_t)0x7fffffff }; }
template<> std::vector<char16_t> alpha<char16_t>() { return { u'a', u'b', (char16_t)0x8000, (char16_t)0xffff }; }
template<> std::vector<char32_t> alpha<char32_t>() { return { U'a', U'b', (char32_t)0x80000000u, (char32_t)0xffffffffu }; }
template<class Ch> std::vector<S<Ch>> all(std::size_t n) { auto al = alpha<Ch>(); std::vector<S<Ch>> v(1), r(1); for (std::size_t i = 0; i < n; ++i) { std::vector<S<Ch>> u; for (auto const& s : v) for (Ch z : al) u.push_back(s + z); r.insert(r.end(), u.begin(), u.end()); v = u; } return r; }
template<class Ch> S<Ch> rstr(std::size_t m, int k) { auto al = alpha<Ch>(); std::size_t n = (std::size_t)rng().range(0, (long long)m); S<Ch> s; for (std::size_t i = 0; i < n; ++i) { Ch z; do z = k == 0 ? al[rng().below(2)] : k == 1 ? rng().pick(al) : (Ch)rng()(); while (!z); if (sizeof(Ch) == 4 && k == 2 && std::is_signed<Ch>::value) z = (Ch)(z & 0x7fffffff) ? (Ch)(z & 0x7fffffff) : (Ch)1; s.push_back(z); } return s; }
template<class Ch> void exh() { auto v = all<Ch>(thorough() && sizeof(Ch) == 1 ? 3 : 2); for (auto const& a : v) for (auto const& b : v) two<Ch>(a, b); for (auto const& a : all<Ch>(4)) one<Ch>(a, alpha<Ch>()); }
template<class Ch> void rnd() { for (std::uint64_t i = 0; i < reps(250); ++i) { int k = (int)rng().range(0, 2); S<Ch> a = rstr<Ch>(rng().coin(1, 10) ? 300 : 24, k), b; switch (rng().range(0, 4)) { case 0: b = a; if (!b.empty()) b[rng().below(b.size())] = rng().pick(alpha<Ch>()); break; case 1: b = a.substr(rng().below(a.size() + 1)); b = b.substr(0, rng().below(b.size() + 1)); break; case 2: b = a + rstr<Ch>(3, k); break; case 3: b = a; break; default: b = rstr<Ch>(8, k); } if (b.size() > 40) b.resize(40); two<Ch>(a, b); if (b.size() < 9) two<Ch>(b, a.substr(0, 40)); one<Ch>(a, alpha<Ch>()); } }
// ---------------------------------------------------------------- memory functions (bytes, wchar_t); zeros are ordinary values
typedef unsigned char UC;
inline void mem() { for (std::uint64_t i = 0; i < reps(500); ++i) { std::size_t n = (std::size_t)rng().range(0, rng().coin(1, 10) ? 200 : 16); std::vector<UC> a(n), b; UC const tb[] = { 0, 1, 0x7f, 0x80, 0xff }; int k = (int)rng().range(0, 1); for (auto& x : a) x = k ? (UC)rng()() : tb[rng().below(5)]; b = a; if (n && rng().coin(2, 3)) b[rng().below(n)] = tb[rng().below(5)]; MON_CASE(c, "memory bytes", a, b); Buf<UC> A(a), B(b); UC const* ca = A.p; UC const* cb = B.p;
		c.eq(sg(sprout::memcmp(ca, cb, n)), sg(n ? std::memcmp(ca, cb, n) : 0), "memcmp"); c.eq(sg(sprout::memcmp((void const*)ca, (void const*)cb, n)), sg(n ? std::memcmp(ca, cb, n) : 0), "memcmp void"); c.eq(sg(sprout::memcmp(A.p, B.p, n)), sg(n ? std::memcmp(ca, cb, n) : 0), "memcmp mutable");
		for (int z : { 0, 1, 0x80, 0xff, -1, 0x17f, (int)(n ? a[n - 1] : 3), (int)(n ? a[0] + 256 : 3) }) { void const* w = n ? std::memchr(ca, z, n) : nullptr; c.ok(sprout::memchr(ca, z, n) == w, "memchr"); c.ok(sprout::memchr((void const*)ca, z, n) == w, "memchr void"); void* m = sprout::memchr(A.p, z, n); c.ok(m == w, "memchr mutable"); c.ok(sprout::memchr((void*)A.p, z, n) == w, "memchr mutable void"); }
		{ Buf<UC> D(n, 7); void* r = sprout::memcpy(D.p, ca, n); c.ok(r == D.p && D.vec() == a, "memcpy"); r = sprout::memcpy((void*)D.p, (void const*)cb, n); c.ok(r == D.p && D.vec() == b, "memcpy void"); int z = (int)rng().range(-300, 600); r = sprout::memset(D.p, z, n); c.ok(r == D.p && D.vec() == std::vector<UC>(n, (UC)z), "memset"); r = sprout::memset((void*)D.p, 0, n); c.ok(r == D.p && D.vec() == std::vector<UC>(n, 0), "memset void"); }
		{ std::size_t s = rng().below(n + 1), d = rng().below(n + 1), m = n - std::max(s, d); if (rng().coin()) m = rng().below(m + 1); std::vector<UC> w(a); if (m) std::memmove(w.data() + d, w.data() + s, m); Buf<UC> D(a); void* r = sprout::memmove(D.p + d, static_cast<UC const*>(D.p) + s, m); c.ok(r == D.p + d && D.vec() == w, "memmove " + std::to_string(d) + " <- " + std::to_string(s) + " x" + std::to_string(m)); Buf<UC> F(n, 9); r = sprout::memmove((void*)F.p, (void const*)ca, n); c.ok(r == F.p && F.vec() == a, "memmove disjoint"); } } }
inline void wmem() { for (std::uint64_t i = 0; i < reps(500); ++i) { std::size_t n = (std::size_t)rng().range(0, 16); std::vector<wchar_t> a(n), b; wchar_t const tb[] = { 0, 1, (wchar_t)0x80, (wchar_t)0x7fffffff, (wchar_t)-5 }; for (auto& x : a) x = tb[rng().below(5)]; b = a; if (n && rng().coin(2, 3)) b[rng().below(n)] = tb[rng().below(5)]; MON_CASE(c, "memory wide", std::vector<int>(a.begin(), a.end()), std::vector<int>(b.begin(), b.end())); Buf<wchar_t> A(a), B(b); wchar_t const* ca = A.p; wchar_t const* cb = B.p;
		c.eq(sg(sprout::wmemcmp(ca, cb, n)), sg(n ? std::wmemcmp(ca, cb, n) : 0), "wmemcmp"); for (wchar_t z : { tb[0], tb[1], tb[2], tb[3], tb[4], (wchar_t)77 }) { wchar_t const* w = n ? std::wmemchr(ca, z, n) : nullptr; c.ok(sprout::wmemchr(ca, z, n) == w, "wmemchr"); c.ok(sprout::wmemchr(A.p, z, n) == w, "wmemchr mutable"); }
		{ Buf<wchar_t> D(n, 7); wchar_t* r = sprout::wmemcpy(D.p, ca, n); c.ok(r == D.p && D.vec() == a, "wmemcpy"); r = sprout::wmemset(D.p, tb[4], n); c.ok(r == D.p && D.vec() == std::vector<wchar_t>(n, tb[4]), "wmemset"); }
		{ std::size_t s = rng().below(n + 1), d = rng().below(n + 1), m = n - std::max(s, d); if (rng().coin()) m = rng().below(m + 1); std::vector<wchar_t> w(a); if (m) std::wmemmove(w.data() + d, w.data() + s, m); Buf<wchar_t> D(a); wchar_t* r = sprout::wmemmove(D.p + d, D.p + s, m); c.ok(r == D.p + d && D.vec() == w, "wmemmove"); } } }
#if MON_PART(0)
MON_TEST(chars) { exh<char>(); rnd<char>(); }
MON_TEST(bytes) { mem(); }
#endif
#if MON_PART(1)
MON_TEST(wide) { exh<wchar_t>(); rnd<wchar_t>(); }
MON_TEST(wbytes) { wmem(); }
#endif
#if MON_PART(2)
MON_TEST(utf16) { exh<char16_t>(); rnd<char16_t>(); }
MON_TEST(utf32) { exh<char32_t>(); rnd<char32_t>(); }
#endif
