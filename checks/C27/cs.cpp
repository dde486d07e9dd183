// C27: md5/sha1/sum/xor against independent implementations over lengths, splits and both call styles.
#include <mon.hpp>
#include <cstring>
#include <sprout/checksum.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
using namespace mon; typedef std::vector<unsigned char> B;
// --- references, from RFC 1321 / RFC 3174, bit-granular padding
struct Bits { B b; std::uint64_t n; Bits() : n(0) {} void bit(bool x) { if (n % 8 == 0) b.push_back(0); if (x) b[n / 8] |= (unsigned char)(0x80 >> (n % 8)); ++n; } void byte(unsigned v) { for (int i = 7; i >= 0; --i) bit((v >> i) & 1); } };
inline std::uint32_t rl(std::uint32_t x, unsigned s) { return (x << s) | (x >> (32 - s)); }
inline B padded(Bits m, bool le) { std::uint64_t n = m.n; m.bit(true); while (m.n % 512 != 448) m.bit(false); for (int i = 0; i < 8; ++i) m.byte((unsigned)(n >> (le ? 8 * i : 56 - 8 * i)) & 255); return m.b; }
inline B md5ref(Bits const& m) { static std::uint32_t K[64]; if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = (std::uint32_t)std::floor(std::fabs(std::sin((long double)(i + 1))) * 4294967296.0L);
	static int const S[16] = { 7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21 }; B p = padded(m, true); std::uint32_t h[4] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u };
	for (std::size_t o = 0; o < p.size(); o += 64) { std::uint32_t w[16], a = h[0], b = h[1], c = h[2], d = h[3]; for (int i = 0; i < 16; ++i) w[i] = (std::uint32_t)p[o + 4 * i] | (std::uint32_t)p[o + 4 * i + 1] << 8 | (std::uint32_t)p[o + 4 * i + 2] << 16 | (std::uint32_t)p[o + 4 * i + 3] << 24;
		for (int i = 0; i < 64; ++i) { std::uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; } f += a + K[i] + w[g]; a = d; d = c; c = b; b += rl(f, (unsigned)S[i / 16 * 4 + i % 4]); }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; } B r; for (int i = 0; i < 16; ++i) r.push_back((unsigned char)(h[i / 4] >> (i % 4 * 8))); return r; }
inline B sha1ref(Bits const& m) { B p = padded(m, false); std::uint32_t h[5] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u };
	for (std::size_t o = 0; o < p.size(); o += 64) { std::uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 16; ++i) w[i] = (std::uint32_t)p[o + 4 * i] << 24 | (std::uint32_t)p[o + 4 * i + 1] << 16 | (std::uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		for (int i = 0; i < 80; ++i) { std::uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999u; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1u; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdcu; } else { f = b ^ c ^ d; k = 0xca62c1d6u; } std::uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; } B r; for (int i = 0; i < 20; ++i) r.push_back((unsigned char)(h[i / 4] >> (24 - i % 4 * 8))); return r; }
inline Bits bits(B const& m) { Bits b; for (unsigned char x : m) b.byte(x); return b; }
struct Md5 { typedef sprout::md5 type; typedef B res; static char const* n() { return "md5"; } static B ref(B const& m) { return md5ref(bits(m)); } static B val(type::value_type const& v) { return B(v.begin(), v.end()); } };
struct Sha1 { typedef sprout::sha1 type; typedef B res; static char const* n() { return "sha1"; } static B ref(B const& m) { return sha1ref(bits(m)); } static B val(type::value_type const& v) { return B(v.begin(), v.end()); } };
template<int W> struct Sum { typedef sprout::sum_basic<W> type; typedef std::uint64_t res; static char const* n() { return W == 8 ? "sum8" : W == 16 ? "sum16" : "sum32"; } static res ref(B const& m) { res r = 0; for (unsigned char x : m) r += x; return r & ((1ull << W) - 1); } template<class V> static res val(V v) { static_assert(sizeof(V) * 8 == W, ""); return v; } };
struct Xor { typedef sprout::xor8 type; typedef std::uint64_t res; static char const* n() { return "xor8"; } static res ref(B const& m) { unsigned r = 0; for (unsigned char x : m) r ^= x; return r; } static res val(std::uint8_t v) { return v; } };
inline B rndb(std::size_t n) { B b(n); int k = (int)rng().range(0, 5); for (auto& x : b) x = k == 0 ? 0xff : k == 1 ? 0 : k == 2 ? (unsigned char)(0x80 | rng()()) : (unsigned char)rng()(); return b; }
template<std::size_t N> sprout::array<unsigned char, N> ar(unsigned char const* p) { sprout::array<unsigned char, N> a = {{}}; for (std::size_t i = 0; i < N; ++i) a[i] = p[i]; return a; }
// one message, one random split, in both styles
template<class A> void msg(B const& m, bool bulk) { typedef typename A::type G; MON_CASE(c, std::string(A::n()), m); typename A::res w = A::ref(m); Buf<unsigned char> buf(m); unsigned char const* p = buf.p; std::size_t n = m.size();
	G const g0 = G(); G mut;
	{ G const g = g0.c_process_bytes(p, n); c.eq(A::val(g()), w, "c_process_bytes"); c.eq(A::val(g.checksum()), w, "checksum"); c.eq(A::val(g()), w, "checksum again (not consumed)"); } { mut.process_bytes(p, n); c.eq(A::val(mut()), w, "process_bytes (mutating)"); }
	if (bulk) { c.eq(A::val(g0.process_block(p, p + n)()), w, "process_block const"); G h; h.process_block(p, p + n); c.eq(A::val(h()), w, "process_block mutating"); c.eq(A::val(g0.process_range(m)()), w, "process_range const"); h.reset(); h.process_range(m); c.eq(A::val(h()), w, "reset, process_range mutating"); }
	// split; pieces go to the const and the mutating object, intermediate digests observed
	G a = G(); G b; std::size_t i = 0; int guard = 0; while (i < n && ++guard < 400) { std::size_t k = (std::size_t)rng().range(0, rng().coin(1, 3) ? 70 : 6); if (k > n - i) k = n - i; G const& ca = a;
		int op = (int)rng().range(0, 4); if (op == 0) k = 1; if (op == 4) k = n - i >= 8 ? 8 : n - i >= 3 ? 3 : 0; unsigned char const* q = p + i;
		switch (op) { case 0: { G t(ca.process_byte(*q)); a.~G(); new (&a) G(t); b.process_byte(*q); break; } case 1: { G t(ca.process_bytes(q, k)); a.~G(); new (&a) G(t); b.process_bytes(q, k); break; } case 2: { G t(ca.c_process_block(q, q + k)); a.~G(); new (&a) G(t); b.process_block(q, q + k); break; } case 3: { G t(ca.process_block(q, q + k)); a.~G(); new (&a) G(t); for (std::size_t j = 0; j < k; ++j) b.process_byte(q[j]); break; }
			default: if (k == 8) { G t(ca.process_range(ar<8>(q))); a.~G(); new (&a) G(t); b.process_range(ar<8>(q)); } else if (k == 3) { G t(ca.c_process_range(ar<3>(q))); a.~G(); new (&a) G(t); b.process_range(ar<3>(q)); } }
		i += k; if (rng().coin(1, 8)) { typename A::res x = A::ref(B(m.begin(), m.begin() + (long)i)); c.eq(A::val(a()), x, "prefix digest, const style"); c.eq(A::val(b()), x, "prefix digest, mutating style"); } if (rng().coin(1, 10)) { G t(b); std::swap(t, b); } }
	if (i < n) { G const& ca = a; G t(ca.process_bytes(p + i, n - i)); a.~G(); new (&a) G(t); b.process_bytes(p + i, n - i); }
	c.eq(A::val(a()), w, "split, const style"); c.eq(A::val(b()), w, "split, mutating style"); b.reset(); c.eq(A::val(b()), A::ref(B()), "reset"); b.process_bytes(p, n); c.eq(A::val(b()), w, "after reset"); }
template<class A> void all(std::size_t mx, std::uint64_t r) { for (std::size_t n = 0; n <= mx; ++n) msg<A>(rndb(n), n % 4 == 0 || (n % 64 > 50) || n % 64 < 4); for (std::uint64_t i = 0; i < r; ++i) msg<A>(rndb((std::size_t)rng().range(0, (long)mx)), rng().coin(1, 4)); if (thorough()) for (std::size_t n : { 1000, 2047, 2048, 4000 }) { msg<A>(rndb(n), true); } }
// bit-granular md5
void md5bits() { for (std::uint64_t i = 0; i < reps(400); ++i) { Bits r; sprout::md5 a, b; int ops = (int)rng().range(1, 80); std::vector<unsigned> log; for (int s = 0; s < ops; ++s) { unsigned v = (unsigned)rng().range(0, 255); sprout::md5 const& ca = a; switch (rng().range(0, 3)) { case 0: { bool x = v & 1; r.bit(x); sprout::md5 t(ca.process_bit(x)); a = t; b.process_bit(x); log.push_back(1000 + x); break; } case 1: { std::size_t k = (std::size_t)rng().range(0, 8); for (std::size_t j = k; j-- > 0; ) r.bit((v >> j) & 1); sprout::md5 t(ca.process_bits((std::uint8_t)v, k)); a = t; b.process_bits((std::uint8_t)v, k); log.push_back(2000 + (unsigned)k); break; } case 2: { r.byte(v); sprout::md5 t(ca.process_byte((std::uint8_t)v)); a = t; b.process_byte((std::uint8_t)v); log.push_back(v); break; } default: { B m = rndb((std::size_t)rng().range(0, 9)); for (unsigned char x : m) r.byte(x); sprout::md5 t(ca.process_bytes(m.data(), m.size())); a = t; b.process_bytes(m.data(), m.size()); log.push_back(3000 + (unsigned)m.size()); } } }
	MON_CASE(c, "md5 bits", log); B w = md5ref(r); c.eq(Md5::val(a()), w, "const style"); c.eq(Md5::val(b()), w, "mutating style"); } }
// make_* and literals; characters above 127; embedded and terminating zeros
#define MAKES(F) F(md5, Md5) F(sha1, Sha1) F(sum8, Sum<8>) F(sum16, Sum<16>) F(sum32, Sum<32>) F(xor8, Xor)
template<class Ch> B wide(std::basic_string<Ch> const& s) { B b; for (Ch x : s) { unsigned char const* q = reinterpret_cast<unsigned char const*>(&x); for (std::size_t i = 0; i < sizeof(Ch); ++i) b.push_back(q[sizeof(Ch) - 1 - i]); } return b; }
template<class Ch> void mk(std::basic_string<Ch> const& s) { B b = wide<Ch>(s); Buf<Ch> z(std::vector<Ch>(s.c_str(), s.c_str() + s.size() + 1)); sprout::basic_string<Ch, 40> ss(s.begin(), s.end()); sprout::array<Ch, 6> six = {{}}; for (std::size_t i = 0; i < 6 && i < s.size(); ++i) six[i] = s[i];
#define F(fn, A) { MON_CASE(c, std::string("make_" #fn "<") + (sizeof(Ch) == 1 ? "char" : sizeof(Ch) == 2 ? "char16" : "32bit") + ">", s); A::res w = A::ref(b); c.eq(A::val(sprout::make_##fn(z.p, z.p + s.size())), w, "iterators"); c.eq(A::val(sprout::make_##fn(ss)), w, "string"); c.eq(A::val(sprout::make_##fn(static_cast<Ch const*>(z.p))), w, "C string"); { sprout::fn g; g.process_range(ss); c.eq(A::val(g()), w, "mutating process_range"); } }
	MAKES(F)
#undef F
}
template<class Ch> void mks(std::uint32_t hi) { mk<Ch>(std::basic_string<Ch>()); for (std::uint64_t i = 0; i < reps(60); ++i) { std::basic_string<Ch> s; std::size_t n = (std::size_t)rng().range(0, 40); for (std::size_t j = 0; j < n; ++j) s.push_back((Ch)rng().range(1, (long)hi)); mk<Ch>(s); } }
#define LIT(fn, A, L, str) { MON_CASE(c, "literal _" #fn, #L); typedef std::decay<decltype(str[0])>::type Ch; c.eq(A::val(L##_##fn), A::ref(wide<Ch>(std::basic_string<Ch>(str, sizeof(str) / sizeof(Ch) - 1)))); }
#if MON_PART(0)
MON_TEST(md5) { all<Md5>(thorough() ? 300 : 200, reps(60)); } MON_TEST(md5_bits) { md5bits(); } MON_TEST(sums) { all<Sum<8>>(140, reps(100)); all<Sum<16>>(300, reps(50)); all<Sum<32>>(140, reps(50)); all<Xor>(140, reps(100)); }
MON_TEST(sum_init) { for (std::uint64_t s : { 0ull, 1ull, 255ull, 256ull, 65535ull, 0xffffffffull, ~0ull }) { B m = rndb(20); MON_CASE(c, "initial sum", s, m); sprout::sum16 a((std::size_t)s); a.process_range(m); std::uint64_t t = s; unsigned x = (unsigned)s & 255; for (unsigned char v : m) { t += v; x ^= v; } c.eq(a(), (std::uint16_t)t); sprout::sum32 b; b.process_range(m); b.reset((std::size_t)s); b.process_range(m); c.eq(b(), (std::uint32_t)t); sprout::xor8 d((std::size_t)s); d.process_range(m); c.eq(d(), (std::uint8_t)x); d.reset(7); c.eq(d(), (std::uint8_t)7); } }
#endif
#if MON_PART(1)
MON_TEST(sha1) { all<Sha1>(thorough() ? 300 : 200, reps(60)); }
#endif
#if MON_PART(2)
MON_TEST(vectors) { MON_CASE(c, "reference self check", 0); auto hex = [](B const& b) { std::string s; for (unsigned char x : b) { s += "0123456789abcdef"[x >> 4]; s += "0123456789abcdef"[x & 15]; } return s; }; B abc { 'a', 'b', 'c' }; c.eq(hex(Md5::ref(B())), std::string("d41d8cd98f00b204e9800998ecf8427e")); c.eq(hex(Md5::ref(abc)), std::string("900150983cd24fb0d6963f7d28e17f72")); c.eq(hex(Sha1::ref(abc)), std::string("a9993e364706816aba3e25717850c26c9cd0d89d")); c.eq(hex(Sha1::ref(B())), std::string("da39a3ee5e6b4b0d3255bfef95601890afd80709")); }
MON_TEST(make_char) { mks<char>(255); }
#endif
#if MON_PART(3)
MON_TEST(make_wchar) { mks<wchar_t>(0x7fffffff); }
#endif
#if MON_PART(4)
MON_TEST(make_c16) { mks<char16_t>(0xffff); } MON_TEST(make_c32) { mks<char32_t>(0xffffffff); }
#endif
#if MON_PART(5)
MON_TEST(literals) { using namespace sprout::literals::checksum;
#define F(fn, A) LIT(fn, A, "", "") LIT(fn, A, "a\0b\xff", "a\0b\xff") LIT(fn, A, "0123456789012345678901234567890123456789012345678901234567890123456789", "0123456789012345678901234567890123456789012345678901234567890123456789") LIT(fn, A, L"ab\0\x1234", L"ab\0\x1234") LIT(fn, A, u"ab\0\x1234", u"ab\0\x1234") LIT(fn, A, U"ab\0\x12345678", U"ab\0\x12345678")
	MAKES(F) }
MON_TEST(ce) { using namespace sprout::literals::checksum; constexpr auto m = "constant expression"_md5; constexpr auto s = sprout::sha1().c_process_byte(0x80).c_process_byte(7)(); constexpr auto u = sprout::sum16(65535).c_process_byte(2)(); MON_CASE(c, "constexpr", 0); std::string t = "constant expression"; c.eq(Md5::val(m), Md5::ref(B(t.begin(), t.end()))); c.eq(Sha1::val(s), Sha1::ref(B{ 0x80, 7 })); c.eq(u, (std::uint16_t)1); }
#endif
