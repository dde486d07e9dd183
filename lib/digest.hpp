// Independent bit-granular MD5 (RFC 1321) and SHA-1 (RFC 3174).
#ifndef DIGEST_HPP
#define DIGEST_HPP
#include <vector>
#include <cmath>
#include <cstdint>
namespace mon { typedef std::vector<unsigned char> B;
// --- references, from RFC 1321 / RFC 3174, bit-granular padding
struct Bits { B b; std::uint64_t n; Bits() : n(0) {} void bit(bool x) { if (n % 8 == 0) b.push_back(0); if (x) b[n / 8] |= (unsigned char)(0x80 >> (n % 8)); ++n; } void byte(unsigned v) { for (int i = 7; i >= 0; --i) bit((v >> i) & 1); } };
inline std::uint32_t rl(std::uint32_t x, unsigned s) { return (x << s) | (x >> (32 - s)); }
inline B padded(Bits m, bool le) { std::uint64_t n = m.n; m.bit(true); while (m.n % 512 != 448) m.bit(false); for (int i = 0; i < 8; ++i) m.byte((unsigned)(n >> (le ? 8 * i : 56 - 8 * i)) & 255); return m.b; }
inline B md5ref(Bits const& m) { static std::uint32_t K[64]; if (!K[0]) for (int i = 0; i < 64; ++i) K[i] = (std::uint32_t)std::floor(std::fabs(std::sin((long double)(i + 1))) * 4294967296.0L);
	static int const S[16] = { 7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21 }; B p = padded(m, true); std::uint32_t h[4] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u };
	for (std::size_t o = 0; o < p.size(); o += 64) { std::uint32_t w[16], a = h[0], b = h[1], c = h[2], d = h[3]; for (int i = 0; i < 16; ++i) w[i] = (std::uint32_t)p[o + 4 * i] | (std::uint32_t)p[o + 4 * i + 1] << 8 | (std::uint32_t)p[o + 4 * i + 2] << 16 | (std::uint32_t)p[o + 4 * i + 3] << 24;
		for (int i = 0; i < 64; ++i) { std::uint32_t f; int g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = (7 * i) % 16; } f += a + K[i] + w[g]; a = d; d = c; c = b; b += rl(f, (unsigned)S[i / 16 * 4 + i % 4]); }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; } B r; for (int i = 0; i < 16; ++i) r.push_back((unsigned char)(h[i / 4] >> (i % 4 * 8))); return r; }
inline B sha1ref(Bits const& m) { B p = padded(m, false); std::uint32_t h[5] = { 0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u };
	for (std::size_t o = 0; o < p.size(); o += 64) { std::uint32_t w[80], a = h[0], b = h[1], c = h[2], d = h[3], e = h[4]; for (int i = 0; i < 16; ++i) w[i] = (std::uint32_t)p[o + 4 * i] << 24 | (std::uint32_t)p[o + 4 * i + 1] << 16 | (std::uint32_t)p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rl(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
		for (int i = 0; i < 80; ++i) { std::uint32_t f, k; if (i < 20) { f = (b & c) | (~b & d); k = 0x5a827999u; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1u; } else if (i < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8f1bbcdcu; } else { f = b ^ c ^ d; k = 0xca62c1d6u; } std::uint32_t t = rl(a, 5) + f + e + k + w[i]; e = d; d = c; c = rl(b, 30); b = a; a = t; }
		h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; } B r; for (int i = 0; i < 20; ++i) r.push_back((unsigned char)(h[i / 4] >> (24 - i % 4 * 8))); return r; }
inline Bits bits(B const& m) { Bits b; for (unsigned char x : m) b.byte(x); return b; }
}
#endif
