// C28: uuid text, fields, generators, comparison against an independent RFC 4122 implementation.
#include <mon.hpp>
#include <digest.hpp>
#include <sstream>
#include <iomanip>
#include <random>
#include <sprout/uuid.hpp>
#include <sprout/string.hpp>
#include <sprout/random.hpp>
using namespace mon; typedef sprout::uuids::uuid U;
inline U mku(B const& b) { U u; for (std::size_t i = 0; i < 16; ++i) u.elems[i] = b[i]; return u; }
inline B raw(U const& u) { return B(u.elems, u.elems + 16); }
inline B rb() { B b(16); int k = (int)rng().range(0, 6); for (auto& x : b) x = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (unsigned char)(rng()() & 0x11) : (unsigned char)rng()(); if (k < 2 && rng().coin(2, 3)) b[(std::size_t)rng().range(0, 15)] = (unsigned char)rng()(); return b; }
inline std::string txt(B const& b, int style = 0) { std::string s; char const* d = style & 1 ? "0123456789ABCDEF" : "0123456789abcdef"; for (int i = 0; i < 16; ++i) { if ((i == 4 || i == 6 || i == 8 || i == 10) && !(style & 2)) s += '-'; s += d[b[(std::size_t)i] >> 4]; s += d[b[(std::size_t)i] & 15]; } return style & 4 ? "{" + s + "}" : s; }
template<class Ch> std::basic_string<Ch> wd(std::string const& s) { std::basic_string<Ch> r; for (char x : s) r.push_back((Ch)(unsigned char)x); return r; }
template<class Ch> U mkz(std::basic_string<Ch> const& s) { Buf<Ch> z(std::vector<Ch>(s.c_str(), s.c_str() + s.size() + 1)); return sprout::uuids::make_uuid(static_cast<Ch const*>(z.p)); }
template<class Ch> U mki(std::basic_string<Ch> const& s) { Buf<Ch> z(s); return sprout::uuids::make_uuid(static_cast<Ch const*>(z.p), static_cast<Ch const*>(z.p) + s.size()); }
// reference acceptance: optional braces (matched), 32 hex digits, dashes all or none at the RFC places
inline bool refparse(std::string s, B& out) { out.clear(); if (!s.empty() && s[0] == '{') { if (s.size() < 2 || s.back() != '}') return false; s = s.substr(1, s.size() - 2); } bool dash = s.size() == 36; if (s.size() != 36 && s.size() != 32) return false; std::string h; for (std::size_t i = 0; i < s.size(); ++i) { if (dash && (i == 8 || i == 13 || i == 18 || i == 23)) { if (s[i] != '-') return false; continue; } h += s[i]; } for (std::size_t i = 0; i < 32; i += 2) { int v = 0; for (std::size_t j = i; j < i + 2; ++j) { char x = h[j]; int d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; if (d < 0) return false; v = v * 16 + d; } out.push_back((unsigned char)v); } return true; }
template<class F> bool thr(F f) { try { f(); } catch (std::runtime_error const&) { return true; } return false; }
template<class Ch> void parse1(std::string const& s, char const* kind) { MON_CASE(c, std::string("make_uuid ") + kind + (sizeof(Ch) == 1 ? "<char>" : sizeof(Ch) == 2 ? "<char16_t>" : "<32-bit>"), s); B w; bool good = refparse(s, w); std::basic_string<Ch> z = wd<Ch>(s); if (good) { c.eq(raw(mkz(z)), w, "C string"); c.eq(raw(mki(z)), w, "iterators"); sprout::basic_string<Ch, 50> ss(z.begin(), z.end()); c.eq(raw(sprout::uuids::make_uuid(ss)), w, "string"); c.eq(raw(sprout::uuids::string_generator()(ss)), w, "generator"); } else { c.ok(thr([&] { mkz(z); }), "C string accepted"); c.ok(thr([&] { mki(z); }), "iterators accepted"); sprout::basic_string<Ch, 50> ss(z.begin(), z.end()); c.ok(thr([&] { sprout::uuids::make_uuid(ss); }), "string accepted"); } }
inline void parse(std::string const& s, char const* k) { parse1<char>(s, k); if (rng().coin(1, 3)) { parse1<wchar_t>(s, k); parse1<char16_t>(s, k); parse1<char32_t>(s, k); } }
void parses() { for (std::uint64_t i = 0; i < reps(250); ++i) { B b = rb(); int st = (int)rng().range(0, 7); std::string s = txt(b, st); if (rng().coin(1, 3)) for (char& x : s) if (x >= 'a' && x <= 'f' && rng().coin()) x = (char)(x - 32); parse(s, "good"); std::string m = s; std::size_t p = (std::size_t)rng().range(0, (long)m.size() - 1);
		switch (rng().range(0, 7)) { case 0: m.erase(p, 1); break; case 1: m[p] = "gG/:@`-{}. \x80\xff"[rng().range(0, 12)]; break; case 2: m.insert(p, 1, "0aF-{}"[rng().range(0, 5)]); break; case 3: m = m.substr(0, p); break; case 4: m += "0-} x{"[rng().range(0, 5)]; break; case 5: { std::size_t q = (std::size_t)rng().range(0, (long)m.size() - 1); std::swap(m[p], m[q]); break; } case 6: m = "{" + m; break; default: m = m.substr(p); } parse(m, "mutated"); }
	for (char const* s : { "", "{", "}", "{}", "-", "0", "00000000-0000-0000-0000-000000000000", "00000000000000000000000000000000" }) parse(s, "fixed"); std::string base = txt(rb()); for (std::size_t n = 0; n < base.size(); ++n) parse(base.substr(0, n), "prefix"); for (int x = 1; x < 256; ++x) { std::string m = base; m[(std::size_t)(x * 7 % 36)] = (char)x; parse1<char>(m, "byte"); } }
void text() { for (std::uint64_t i = 0; i < reps(400); ++i) { B b = rb(); U u = mku(b); std::string w = txt(b); MON_CASE(c, "uuid text", w); auto s = sprout::uuids::to_string(u); c.eq(std::string(s.begin(), s.end()), w); auto ws = sprout::uuids::to_wstring(u); c.ok(std::wstring(ws.begin(), ws.end()) == wd<wchar_t>(w), "wstring"); auto s16 = sprout::uuids::to_u16string(u); c.ok(std::u16string(s16.begin(), s16.end()) == wd<char16_t>(w), "u16"); auto s32 = sprout::uuids::to_u32string(u); c.ok(std::u32string(s32.begin(), s32.end()) == wd<char32_t>(w), "u32"); c.eq(s.size(), (std::size_t)36); c.eq(raw(sprout::uuids::make_uuid(s)), b, "round trip");
		std::ostringstream o; int width = (int)rng().range(0, 50), al = (int)rng().range(0, 2); char f = rng().coin() ? '*' : ' '; o << std::setw(width) << std::setfill(f) << (al == 0 ? std::left : al == 1 ? std::right : std::internal); if (rng().coin()) o << std::showbase; bool up = rng().coin(1, 4); (void)up; o << u; std::string e = w; bool sb = (o.flags() & std::ios_base::showbase) != 0; (void)sb; { std::string pad(width > 36 ? (std::size_t)(width - 36) : 0, f); e = al == 0 ? w + pad : pad + w; c.eq(o.str(), e, "<<"); } c.eq((int)o.width(), 0); c.eq(o.fill(), f); c.ok((o.flags() & std::ios_base::basefield) == std::ios_base::dec, "flags restored"); o.str(""); o << 31; c.ok(o.str() == "31", "stream state");
		std::istringstream in("  " + txt(b, rng().coin() ? 1 : 0) + "tail"); U v = mku(B(16, 7)); in >> v; c.eq(raw(v), b, ">>"); std::string t; in >> t; c.eq(t, std::string("tail")); std::wistringstream wi(wd<wchar_t>(w)); wi >> v; c.eq(raw(v), b, "wide >>"); std::wostringstream wo; wo << u; c.ok(wo.str() == wd<wchar_t>(w), "wide <<");
		std::string bad = w; std::size_t p = (std::size_t)rng().range(0, 35); if (rng().coin()) bad[p] = 'g'; else bad = bad.substr(0, p); std::istringstream bi(bad); U k = mku(B(16, 9)); bi >> k; c.ok(bi.fail(), "malformed text must fail"); c.eq(raw(k), B(16, 9), "unchanged on failure"); } }
void fields() { for (int x = 0; x < 256; ++x) for (int y = 0; y < 2; ++y) { B b = rb(); b[y ? 6 : 8] = (unsigned char)x; U u = mku(b); MON_CASE(c, "fields", b); int v8 = b[8], v = b[6] >> 4; c.eq((int)u.variant(), (int)(v8 < 0x80 ? U::variant_ncs : v8 < 0xc0 ? U::variant_rfc_4122 : v8 < 0xe0 ? U::variant_microsoft : U::variant_future)); c.eq((int)u.version(), v >= 1 && v <= 5 ? v : -1); c.eq(u.is_nil(), b == B(16, 0)); }
	for (std::size_t i = 0; i < 16; ++i) for (int bit = 0; bit < 8; ++bit) { B b(16, 0); b[i] = (unsigned char)(1 << bit); MON_CASE(c, "one bit", b); U u = mku(b), z = mku(B(16, 0)); c.ok(!u.is_nil() && z.is_nil(), "nil"); c.ok(u != z && !(u == z) && z < u && u > z && z <= u && u >= z && !(u < z) && !(z > u), "order"); } { MON_CASE(c, "nil generators", 0); c.eq(raw(sprout::uuids::nil_uuid()), B(16, 0)); c.eq(raw(sprout::uuids::nil_generator()()), B(16, 0)); } }
void cmp() { for (std::uint64_t i = 0; i < reps(1000); ++i) { B x = rb(), y = rng().coin() ? x : rb(); if (rng().coin()) y[(std::size_t)rng().range(0, 15)] ^= (unsigned char)(1 << rng().range(0, 7)); U a = mku(x), b = mku(y); MON_CASE(c, "compare", x, y); c.eq(a == b, x == y); c.eq(a != b, x != y); c.eq(a < b, x < y); c.eq(a > b, x > y); c.eq(a <= b, x <= y); c.eq(a >= b, x >= y); if (x == y) { c.ok(std::hash<U>()(a) == std::hash<U>()(b) && sprout::hash<U>()(a) == sprout::hash<U>()(b), "hash"); } else c.ok(std::hash<U>()(a) != std::hash<U>()(b), "hash of different uuids (fixed seeds)");
		U p = a, q = b; p.swap(q); c.ok(raw(p) == y && raw(q) == x, "member swap"); swap(p, q); c.ok(raw(p) == x && raw(q) == y, "swap"); p.swap(p); c.eq(raw(p), x, "self swap"); c.eq(B(a.begin(), a.end()), x); c.eq(B(a.cbegin(), a.cend()), x); B r(x.rbegin(), x.rend()); U const ca = a; c.eq(B(a.rbegin(), a.rend()), r); c.eq(B(ca.rbegin(), ca.rend()), r); c.eq(B(ca.crbegin(), ca.crend()), r); c.eq(B(ca.begin(), ca.end()), x); c.ok(a.size() == 16 && a.max_size() == 16 && !a.empty(), "size"); for (std::size_t k = 0; k < 16; ++k) { c.ok(a[k] == x[k] && ca[k] == x[k] && a.at(k) == x[k] && ca.at(k) == x[k] && ca.data()[k] == x[k] && a.c_array()[k] == x[k], "element"); } c.ok(a.front() == x[0] && ca.back() == x[15] && a.back() == x[15] && ca.front() == x[0], "front/back"); p.fill(x[3]); c.eq(raw(p), B(16, x[3])); p.assign(x[4]); c.eq(raw(p), B(16, x[4]));
		int t = 0; try { (void)ca.at(16 + (std::size_t)rng().range(0, 3)); } catch (std::out_of_range const&) { ++t; } try { (void)a.at(16); } catch (std::out_of_range const&) { ++t; } try { ca.rangecheck(16); } catch (std::out_of_range const&) { ++t; } c.eq(t, 3); ca.rangecheck(15); c.ok(sprout::tuples::get<0>(ca) == x[0] && sprout::tuples::get<15>(ca) == x[15] && sprout::tuples::get<7>(p) == x[4], "get"); } }
inline B named(B const& ns, B const& name, int v) { Bits m; for (unsigned char x : ns) m.byte(x); for (unsigned char x : name) m.byte(x); B d = v == 3 ? md5ref(m) : sha1ref(m); d.resize(16); d[6] = (unsigned char)((d[6] & 0x0f) | (v << 4)); d[8] = (unsigned char)((d[8] & 0x3f) | 0x80); return d; }
inline B nsb(int k) { B b { 0x6b, 0xa7, 0xb8, (unsigned char)(0x10 + k), 0x9d, 0xad, 0x11, 0xd1, 0x80, 0xb4, 0x00, 0xc0, 0x4f, 0xd4, 0x30, 0xc8 }; return b; }
template<class Ch> B bytes(std::basic_string<Ch> const& s) { B b; for (Ch x : s) for (std::size_t i = sizeof(Ch); i-- > 0; ) b.push_back((unsigned char)((std::uint32_t)x >> (8 * i))); return b; }
template<> inline B bytes<char>(std::string const& s) { return B(s.begin(), s.end()); }
template<class Ch> void names(std::uint64_t n) { using namespace sprout::uuids; for (std::uint64_t i = 0; i < n; ++i) { B ns = rb(); std::basic_string<Ch> s; std::size_t len = (std::size_t)(rng().coin() ? rng().range(0, 12) : rng().range(0, 60)); for (std::size_t j = 0; j < len; ++j) s.push_back((Ch)rng().range(1, sizeof(Ch) == 1 ? 255 : 65535)); B nb = bytes<Ch>(s); U u = mku(ns); Buf<Ch> z(std::vector<Ch>(s.c_str(), s.c_str() + s.size() + 1)); Ch const* p = z.p; sprout::basic_string<Ch, 64> ss(s.begin(), s.end()); MON_CASE(c, std::string("name based ") + (sizeof(Ch) == 1 ? "char" : sizeof(Ch) == 2 ? "char16_t" : "32-bit"), ns, nb);
		B w3 = named(ns, nb, 3), w5 = named(ns, nb, 5), z3 = named(B(16, 0), nb, 3), z5 = named(B(16, 0), nb, 5); c.eq(raw(make_uuid3(u, p)), w3, "v3"); c.eq(raw(make_uuid5(u, p)), w5, "v5"); c.eq(raw(make_uuid3(u, ss)), w3, "v3 string"); c.eq(raw(make_uuid5(u, ss)), w5, "v5 string"); c.eq(raw(make_uuid3(p)), z3, "v3 nil ns"); c.eq(raw(make_uuid5(p)), z5, "v5 nil ns"); c.eq(raw(make_uuid3(ss)), z3); c.eq(raw(make_uuid5(ss)), z5); c.eq(raw(make_uuid3()(p)), z3); c.eq(raw(make_uuid5()(p)), z5); md5_name_generator g3(u); sha1_name_generator g5(u); c.eq(raw(g3(p)), w3); c.eq(raw(g5(p)), w5); c.eq(raw(g3(ss)), w3, "generator reusable"); c.eq(raw(make_uuid5(u)(ss)), w5); c.eq(raw(make_uuid3(u)(ss)), w3); U r3 = g3(p); c.ok(r3.version() == U::version_name_based_md5 && r3.variant() == U::variant_rfc_4122, "fields");
		c.eq(raw(make_uuid3_dns()(p)), named(nsb(0), nb, 3), "dns"); c.eq(raw(make_uuid3_url()(p)), named(nsb(1), nb, 3), "url"); c.eq(raw(make_uuid3_oid()(p)), named(nsb(2), nb, 3), "oid"); c.eq(raw(make_uuid3_x500()(p)), named(nsb(4), nb, 3), "x500"); c.eq(raw(make_uuid5_dns()(p)), named(nsb(0), nb, 5), "dns5"); c.eq(raw(make_uuid5_url()(p)), named(nsb(1), nb, 5), "url5"); c.eq(raw(make_uuid5_oid()(p)), named(nsb(2), nb, 5), "oid5"); c.eq(raw(make_uuid5_x500()(p)), named(nsb(4), nb, 5), "x5005"); } }
// engine that records / scripts a full 32-bit stream (reference for "every other bit from the engine")
struct Eng { typedef std::uint32_t result_type; std::uint32_t const* p; std::size_t i; constexpr Eng(std::uint32_t const* q, std::size_t k = 0) : p(q), i(k) {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } constexpr sprout::random::random_result<Eng> operator()() const { return sprout::random::random_result<Eng>(p[i], Eng(p, i + 1)); } };
void rnd4() { using namespace sprout::uuids; for (std::uint64_t i = 0; i < reps(300); ++i) { std::vector<std::uint32_t> v(8); for (auto& x : v) x = rng().coin(1, 4) ? (rng().coin() ? 0u : 0xffffffffu) : (std::uint32_t)rng()(); std::vector<std::uint32_t> w(v.begin(), v.begin() + 4); MON_CASE(c, "random based (scripted engine)", w); U u = make_uuid4(Eng(v.data())); B e; for (int k = 0; k < 4; ++k) for (int s = 24; s >= 0; s -= 8) e.push_back((unsigned char)(v[(std::size_t)k] >> s)); B g = raw(u); c.ok(u.version() == U::version_random_number_based && u.variant() == U::variant_rfc_4122, "fields"); e[6] = (unsigned char)((e[6] & 0x0f) | 0x40); e[8] = (unsigned char)((e[8] & 0x3f) | 0x80); c.eq(g, e, "bits"); basic_random_generator<Eng> gen; c.eq(raw(gen(Eng(v.data()))), e, "generator"); }
	B orr(16, 0), an(16, 0xff); for (std::uint64_t i = 0; i < reps(500); ++i) { std::uint32_t seed = (std::uint32_t)rng()(); MON_CASE(c, "random based (seeded)", seed); U u = make_uuid4(seed); c.ok(u.version() == U::version_random_number_based && u.variant() == U::variant_rfc_4122, "fields"); sprout::random::default_random_engine e(seed); c.ok(make_uuid4(e) == u && random_generator()(seed) == u && random_generator()(e) == u, "deterministic"); std::mt19937 m(seed); c.ok(basic_random_generator<sprout::mt19937>()(sprout::mt19937(seed)).version() == U::version_random_number_based, "mt"); B m4; for (int k = 0; k < 4; ++k) { std::uint32_t x = (std::uint32_t)m(); for (int s = 24; s >= 0; s -= 8) m4.push_back((unsigned char)(x >> s)); } m4[6] = (unsigned char)((m4[6] & 15) | 0x40); m4[8] = (unsigned char)((m4[8] & 0x3f) | 0x80); c.eq(raw(make_uuid4(sprout::mt19937(seed))), m4, "mt19937 stream"); for (std::size_t k = 0; k < 16; ++k) { orr[k] |= u[k]; an[k] &= u[k]; } }
	MON_CASE(c, "every free bit takes both values", 0); B wo(16, 0xff), wa(16, 0); wo[6] = 0x4f; wa[6] = 0x40; wo[8] = 0xbf; wa[8] = 0x80; c.eq(orr, wo); c.eq(an, wa); }
void lits() { using namespace sprout::literals::uuids; B w { 0x01, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0xfe, 0xdc, 0xba, 0x98, 0x76, 0x54, 0x32, 0x10 }; MON_CASE(c, "literals", 0); constexpr U a = "{01234567-89ab-cdef-fedc-ba9876543210}"_uuid; c.eq(raw(a), w); c.eq(raw(L"0123456789ABCDEFfedcba9876543210"_uuid), w); c.eq(raw(u"01234567-89ab-cdef-fedc-ba9876543210"_uuid), w); c.eq(raw(U"{0123456789abcdeffedcba9876543210}"_uuid), w); B n { 'n', 'a' }; c.eq(raw("dns"_uuid3("na")), named(nsb(0), n, 3)); c.eq(raw("URL"_uuid3("na")), named(nsb(1), n, 3)); c.eq(raw(L"Oid"_uuid5("na")), named(nsb(2), n, 5)); c.eq(raw(u"x500"_uuid5("na")), named(nsb(4), n, 5)); c.eq(raw("01234567-89ab-cdef-fedc-ba9876543210"_uuid5("na")), named(w, n, 5)); c.eq(raw(U"01234567-89ab-cdef-fedc-ba9876543210"_uuid3("na")), named(w, n, 3)); c.ok(thr([] { "dn"_uuid3; }), "unknown namespace"); c.ok(thr([] { "dnsx"_uuid5; }), "unknown namespace"); c.ok(thr([] { "01234567-89ab-cdef-fedc-ba987654321"_uuid; }), "short"); constexpr U d = sprout::uuids::make_uuid3_dns()("na"); c.eq(raw(d), named(nsb(0), n, 3)); constexpr U r = sprout::uuids::make_uuid4(5); c.ok(r == sprout::uuids::make_uuid4((int)rng().range(5, 5)), "constexpr v4"); constexpr U s5 = sprout::uuids::make_uuid5_url()("na"); c.eq(raw(s5), named(nsb(1), n, 5)); }
#if MON_PART(0)
MON_TEST(parses) { parses(); } MON_TEST(text) { text(); }
#endif
#if MON_PART(1)
MON_TEST(fields) { fields(); } MON_TEST(cmp) { cmp(); } MON_TEST(rnd4) { rnd4(); }
#endif
#if MON_PART(2)
MON_TEST(names_c) { names<char>(reps(100)); } MON_TEST(lits) { lits(); }
#endif
#if MON_PART(3)
MON_TEST(names_w) { names<wchar_t>(reps(30)); } MON_TEST(names_16) { names<char16_t>(reps(30)); } MON_TEST(names_32) { names<char32_t>(reps(30)); }
#endif
