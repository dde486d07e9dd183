// C29: every engine against the std/Boost engine of the same parameters, through const and mutating calls.
#include <mon.hpp>
#include <sstream>
#include <random>
#include <boost/random.hpp>
#include <boost/random/seed_seq.hpp>
#include <sprout/random.hpp>
#include <sprout/random/seed_array.hpp>
#include <sprout/pit.hpp>
using namespace mon;
namespace sr = sprout::random;
typedef unsigned long long ull;
// reference seed sequences usable with sprout (const and mutating generate)
template<class It> std::string dump(It a, It b) { std::string s; for (; a != b; ++a) { s += std::to_string(*a); s += ' '; } return s; }
template<class R> ull nxt(R& r) { return (ull)r(); }
// one engine pair, both call styles, with copies, comparison and stream save/restore along the way
template<class C, class E, class R> void drive(C& c, E e, R r, int n, bool save = true) {
	typedef typename E::result_type T; c.eq((ull)e.min(), (ull)(r.min)(), "min"); c.eq((ull)e.max(), (ull)(r.max)(), "max");
	int at = (int)rng().range(0, n - 1), at2 = (int)rng().range(0, n - 1); E keep(e); E f(e); R r0(r);
	for (int i = 0; i < n; ++i) { T w = (T)nxt(r); E const& ce = f; auto q = ce(); T v = q.result(); c.eq((ull)v, (ull)w, "const call, value " + std::to_string(i)); c.ok((ull)sr::result(q) == (ull)v && q.generated_value() == v && *q == v && (T)q == v, "result accessors"); c.ok(v >= e.min() && v <= e.max(), "range");
		E g(ce); c.ok(g == ce && !(g != ce), "copy equal"); T m = (T)g(); c.eq((ull)m, (ull)w, "mutating call, value " + std::to_string(i)); c.ok(g == q.next() && q.next() == g && !(g != sr::next(q)) && q.next_generator() == g, "both styles give the same state");
		if (i == at && save) { std::ostringstream o; o << g; std::istringstream in(o.str() + " 77"); E h; h(); in >> h; c.ok((bool)in, "state text not readable: " + o.str()); c.ok(h == g, "restored state"); int k = 0; in >> k; c.eq(k, 77, "text after the state"); std::ostringstream o2; o2 << h; c.eq(o2.str(), o.str(), "restored text"); if (rng().coin()) g = h; }
		if (i == at2) keep = g; f = g; }
	// continue a saved state: same future as the reference replayed to that point
	for (int i = 0; i <= at2; ++i) nxt(r0); E g2(keep); for (int i = 0; i < 8; ++i) { c.eq((ull)(T)nxt(r0), (ull)g2(), "resumed copy"); } }
template<class C, class E, class T> auto reseed(C& c, E const& e, T s, int) -> decltype(std::declval<E&>().seed(s), void()) { E z; z(); z.seed(s); c.ok(z == e, "seed(value)"); z.seed(); c.ok(z == E(), "seed()"); }
template<class C, class E, class T> void reseed(C&, E const&, T, long) {}
template<class T> std::vector<T> seeds(ull m, std::uint64_t n) { std::vector<ull> v { 0, 1, 2, 3, 341, 5489, 1000, m - 1, m, m + 1, 2 * m, 2 * m + 1, 0x7ffffffeu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu, ~0ull, ~0ull - 1, 1ull << 32, 1ull << 63, 0xffff, 0x10000 }; while (v.size() < 23 + n) v.push_back(rng().coin() ? rng()() : rng()() >> rng().range(0, 63)); std::vector<T> r; for (ull x : v) r.push_back((T)x); return r; }
template<class E, class R> void run(char const* nm, ull m, int n, std::uint64_t k, bool save = true) { typedef typename E::result_type T; { MON_CASE(c, std::string(nm) + " default", 0); drive(c, E(), R(), n, save); } for (T s : seeds<T>(m, k)) { if (sizeof(typename R::result_type) < sizeof(T)) s = (T)(typename R::result_type)s; MON_CASE(c, nm, s); E e(s); R r((typename R::result_type)s); drive(c, e, r, n, save);
#if __cplusplus >= 201402L
		reseed(c, e, s, 0);
#endif
		} }
// independent linear congruential reference (also for m = 0 and signed types)
template<class T, T a, T b, T m> struct Lcg { typedef ull result_type; unsigned __int128 x, M; Lcg(ull s = 1) { M = m == 0 ? (unsigned __int128)1 << (8 * sizeof(T)) : (unsigned __int128)(ull)m; long long ss = (long long)(T)s; if (std::is_signed<T>::value && m != 0) { long long t = ss % (long long)m;  x = (unsigned __int128)(t < 0 ? t + (long long)m : t); } else x = (unsigned __int128)(ull)(T)s % M; if (b == 0 && x == 0) x = 1; } ull operator()() { x = ((unsigned __int128)(ull)a * x + (ull)b) % M; return (ull)x; } ull min() const { return b == 0; } ull max() const { return (ull)(M - 1); } };
template<class T, T a, T b, T m> void lcg(char const* nm, int n, std::uint64_t k) { typedef sr::linear_congruential_engine<T, a, b, m> E; typedef Lcg<T, a, b, m> R; run<E, R>(nm, (ull)m, n, k); for (std::uint64_t i = 0; i < k + 20; ++i) { ull z = i < 20 ? i : rng().coin(1, 3) ? (ull)rng().range(0, 3000) : rng()() >> rng().range(0, 50); T s = (T)rng()(); if (std::is_signed<T>::value && s < 0) s = (T)~s; MON_CASE(c, std::string(nm) + " discard", s, z); E e(s); R r((ull)s); unsigned __int128 A = 1, B = 0, pa = (ull)a, pb = (ull)b; for (ull q = z; q; q >>= 1) { if (q & 1) { A = pa * A % r.M; B = (pa * B + pb) % r.M; } pb = (pa * pb % r.M + pb) % r.M; pa = pa * pa % r.M; } r.x = (A * r.x % r.M + B) % r.M; E const ce(e); E d = ce.discard(z); for (int j = 0; j < 3; ++j) { ull w = r(); c.eq((ull)d(), w, "const discard"); }
#if __cplusplus >= 201402L
		E g(e); g.discard(z); c.ok(g == ce.discard(z), "mutating discard"); if (z < 100) { E h(e); for (ull j = 0; j < z; ++j) h(); c.ok(h == g, "discard = repeated calls"); }
#endif
		std::ostringstream o; o << e; c.eq(o.str(), std::to_string((ull)R((ull)s).x), "state text"); std::istringstream bad(std::to_string((ull)e.max() + 1)); E keep(e); if ((ull)e.max() < (ull)sprout::numeric_limits<T>::max()) { bad >> keep; c.ok(bad.fail() && keep == e, "out-of-range state text must fail"); } } }
template<class T, T a, T b, T p> struct Icg { typedef ull result_type; ull x; Icg(ull s = 1) { T v = (T)s; if (v < 1 && v != 0) { long long t = (long long)v % (long long)p; x = (ull)(t < 0 ? t + (long long)p : t); } else x = (ull)v % (ull)p; if (b == 0 && x == 0) x = 1; } static ull pw(unsigned __int128 v, ull e) { unsigned __int128 r = 1; for (; e; e >>= 1) { if (e & 1) r = r * v % (ull)p; v = v * v % (ull)p; } return (ull)r; } ull operator()() { x = (ull)(((unsigned __int128)(ull)a * (x ? pw(x, (ull)p - 2) : 0) + (ull)b) % (ull)p); return x; } ull min() const { return b == 0; } ull max() const { return (ull)p - 1; } };
template<class T, T a, T b, T p> void icg(char const* nm, int n, std::uint64_t k) { run<sr::inversive_congruential_engine<T, a, b, p>, Icg<T, a, b, p>>(nm, (ull)p, n, k); }
// Tausworthe generator, bit by bit
template<class T, int w, int k, int q, int s> struct Lfs { typedef T result_type; T x; static T mask() { return (T)((T)(~T(0)) >> (8 * (int)sizeof(T) - w)); } Lfs(T v = 341) { x = v & mask(); T lim = (T)(T(1) << (w - k)); if (x < lim) x = (T)(x + lim); } T operator()() { T hi = (T)(x & (T)((mask() << (w - k)) & mask())); T b = (T)((T)(((T)(x << q)) ^ x) & mask()); b = (T)(b >> (k - s)); x = (T)(((T)(hi << s) & mask()) ^ b); return x; } T min() const { return 0; } T max() const { return mask(); } };
template<class A, int s1, class B, int s2> struct Xor { typedef typename A::result_type result_type; A a; B b; Xor() {} Xor(result_type v) : a(v), b((typename B::result_type)v) {} result_type operator()() { result_type x = (result_type)(a() << s1); return (result_type)(x ^ (result_type)((result_type)b() << s2)); } result_type min() const { return 0; } result_type max() const { return (result_type)((a.max() << s1) | (b.max() << s2)); } };
template<class E, std::size_t k> struct Shuf { typedef ull result_type; E e; std::vector<ull> v; ull y; explicit Shuf(E x = E()) : e(x) { for (std::size_t i = 0; i < k; ++i) v.push_back((ull)e()); y = (ull)e(); } template<class S> explicit Shuf(S s, typename std::enable_if<std::is_integral<S>::value>::type* = 0) : Shuf(E((typename E::result_type)s)) {} ull min() const { return (e.min)(); } ull max() const { return (e.max)(); } ull operator()() { std::size_t j = (std::size_t)((unsigned __int128)k * (y - min()) / ((unsigned __int128)(max() - min()) + 1)); y = v[j]; v[j] = (ull)e(); return y; } };
void lcgs() { std::uint64_t k = reps(20); int n = 60;
	run<sr::minstd_rand0, std::minstd_rand0>("minstd_rand0", 2147483647, n, k); run<sr::minstd_rand, std::minstd_rand>("minstd_rand", 2147483647, n, k); run<sr::minstd_rand, boost::minstd_rand>("minstd_rand (Boost)", 2147483647, n, 0); run<sr::rand48, boost::rand48>("rand48", 1ull << 31, n, k); }
void lcgs2() { std::uint64_t k = reps(20); int n = 40; lcg<std::uint32_t, 1664525, 1013904223, 0>("lcg 2^32", n, k); lcg<ull, 6364136223846793005ull, 1442695040888963407ull, 0>("lcg 2^64", n, k); lcg<std::uint32_t, 1103515245, 12345, 0x80000000u>("lcg 2^31", n, k); lcg<std::uint32_t, 16807, 0, 2147483647>("lcg u32 minstd", n, k); lcg<std::int32_t, 16807, 0, 2147483647>("lcg i32 minstd", n, k); lcg<std::int32_t, 48271, 0, 2147483647>("lcg i32 minstd1", n, k); }
void lcgs3() { std::uint64_t k = reps(20); int n = 40; lcg<std::int32_t, 40014, 0, 2147483563>("lcg i32 ecuyer", n, k); lcg<std::uint32_t, 1366, 150889, 714025>("lcg 714025", n, k); lcg<std::uint32_t, 3877, 29573, 139968>("lcg 139968", n, k); lcg<std::uint16_t, 75, 74, 65521>("lcg u16", n, k); lcg<std::uint32_t, 5, 3, 16>("lcg 16", n, k); lcg<std::uint32_t, 3, 0, 7>("lcg 7", n, k); lcg<std::uint32_t, 6, 1, 25>("lcg 25", n, k); lcg<ull, 25214903917ull, 11, 1ull << 48>("lcg 2^48", n, k); lcg<std::int64_t, 3, 2, 1000003>("lcg i64", n, k); lcg<std::uint32_t, 4294967290u, 4294967289u, 4294967291u>("lcg large modulus", n, k); }
void icgs() { std::uint64_t k = reps(15); int n = 30; run<sr::hellekalek1995, boost::hellekalek1995>("hellekalek1995 (Boost)", 2147483647, n, 5); icg<std::uint32_t, 9102, 2147483647 - 36884165, 2147483647>("icg u32", n, k); icg<std::int32_t, 9102, 2147483647 - 36884165, 2147483647>("icg i32", n, k); icg<std::uint32_t, 5, 3, 101>("icg 101", n, k); icg<std::uint32_t, 3, 1, 7>("icg 7", n, k); icg<ull, 1234567, 7654321, 2147483647>("icg u64", n, k); icg<std::uint32_t, 2, 0, 11>("icg b=0", n, k); }
void lfss() { std::uint64_t k = reps(20); int n = 60; run<sr::taus88, boost::taus88>("taus88", 1ull << 32, n, k);
#define L(T, w, kk, q, s) run<sr::linear_feedback_shift_engine<T, w, kk, q, s>, Lfs<T, w, kk, q, s>>("lfs " #T " " #w " " #kk " " #q " " #s, 1ull << (w - 1), n, k)
	L(std::uint32_t, 32, 31, 13, 12); L(std::uint32_t, 32, 29, 2, 4); L(std::uint32_t, 32, 28, 3, 17); L(ull, 64, 63, 5, 24); L(ull, 64, 55, 24, 5); L(ull, 64, 20, 3, 8); L(std::uint32_t, 31, 29, 2, 4); L(std::uint16_t, 16, 15, 1, 5); L(std::uint32_t, 17, 9, 4, 3); }
void xors() { std::uint64_t k = reps(15); int n = 50; typedef std::uint32_t U; typedef sr::linear_feedback_shift_engine<U, 32, 31, 13, 12> A; typedef sr::linear_feedback_shift_engine<U, 32, 29, 2, 4> B; typedef Lfs<U, 32, 31, 13, 12> RA; typedef Lfs<U, 32, 29, 2, 4> RB; typedef sr::linear_feedback_shift_engine<U, 16, 15, 1, 5> C; typedef Lfs<U, 16, 15, 1, 5> RC; run<sr::xor_combine_engine<A, 0, B, 0>, Xor<RA, 0, RB, 0>>("xor 0 0", 1, n, k); run<sr::xor_combine_engine<C, 16, C, 0>, Xor<RC, 16, RC, 0>>("xor 16 0", 1, n, k); run<sr::xor_combine_engine<C, 0, C, 7>, Xor<RC, 0, RC, 7>>("xor 0 7", 1, n, k);
	for (std::uint64_t i = 0; i < k; ++i) { U a = (U)rng()(), b = (U)rng()(); MON_CASE(c, "xor_combine bases", a, b); typedef sr::xor_combine_engine<A, 0, B, 0> E; E e(a, b), f { A(a), B(b) }; c.ok(e == f && e.base1() == A(a) && e.base2() == B(b), "bases"); RA ra(a); RB rb(b); for (int j = 0; j < 10; ++j) { U w = ra() ^ rb(); c.eq(e(), w); c.ok(e != f || j > 100, "state moved"); } c.ok(!(E(a, b) == E(a, b ^ 0x10000)) && E(a, b) != E(a ^ 0x10000, b), "states compare both bases");
#if __cplusplus >= 201402L
		e.seed(a, b); c.ok(e == f, "seed two");
#endif
		}
	run<sr::ecuyer1988, boost::ecuyer1988>("ecuyer1988", 2147483563, n, k); for (std::uint64_t i = 0; i < k; ++i) { std::uint_fast32_t a = (U)rng()(), b = (U)rng()(); MON_CASE(c, "ecuyer1988 two seeds", a, b); sr::ecuyer1988 e(a, b); boost::ecuyer1988 r((U)a, (U)b); drive(c, e, r, 30); sr::ecuyer1988 f { sr::ecuyer1988::base1_type(a), sr::ecuyer1988::base2_type(b) }; c.ok(f == e && e.base1() == f.base1() && e.base2() == f.base2(), "bases"); } }
void shuf() { std::uint64_t k = reps(4); run<sr::knuth_b, std::knuth_b>("knuth_b", 2147483647, 330, k); }
void shuf2() { std::uint64_t k = reps(6); run<sr::kreutzer1986, boost::kreutzer1986>("kreutzer1986", 714025, 150, k); typedef sr::linear_congruential_engine<std::uint32_t, 16807, 0, 2147483647> M; typedef Lcg<std::uint32_t, 16807, 0, 2147483647> RM; run<sr::shuffle_order_engine<M, 1>, Shuf<RM, 1>>("shuffle 1", 2147483647, 20, k); run<sr::shuffle_order_engine<M, 2>, Shuf<RM, 2>>("shuffle 2", 2147483647, 30, k); run<sr::shuffle_order_engine<M, 7>, Shuf<RM, 7>>("shuffle 7", 2147483647, 40, k); typedef sr::linear_congruential_engine<std::int32_t, 16807, 0, 2147483647> MI; run<sr::shuffle_order_engine<MI, 10>, Shuf<Lcg<std::int32_t, 16807, 0, 2147483647>, 10>>("shuffle signed", 2147483647, 40, k); run<sr::shuffle_order_engine<sr::taus88, 16>, Shuf<boost::taus88, 16>>("shuffle full range", 1, 40, k);
	typedef sr::shuffle_order_engine<M, 7> E; for (int i = 0; i < 10; ++i) { MON_CASE(c, "shuffle base", i); M b((std::uint32_t)i + 5); E e(b); M z(b); for (int j = 0; j < 8; ++j) z(); c.ok(e.base() == z, "base position"); drive(c, e, Shuf<RM, 7>((std::uint32_t)i + 5), 20); } }
template<class E, class R> void mt(char const* nm, int n, std::uint64_t k) { typedef typename E::result_type T; for (std::uint64_t i = 0; i < k; ++i) { T s = (T)(i == 0 ? 5489 : i == 1 ? 0 : i == 2 ? ~0ull : rng()()); MON_CASE(c, nm, s); E e = i == 0 && rng().coin() ? E() : E(s); R r((typename R::result_type)s); c.eq((ull)e.min(), (ull)(r.min)(), "min"); c.eq((ull)e.max(), (ull)(r.max)(), "max"); std::vector<ull> w; for (int j = 0; j < n; ++j) w.push_back((ull)r());
#if __cplusplus >= 201402L
		E m(e); for (int j = 0; j < n; ++j) c.eq((ull)m(), w[(std::size_t)j], "mutating " + std::to_string(j));
#endif
		E f(e); int at = (int)rng().range(1, n - 10); for (int j = 0; j < n; ++j) { E const& cf = f; auto q = cf(); c.eq((ull)q.result(), w[(std::size_t)j], "const " + std::to_string(j)); if (j == at) { std::ostringstream o; o << q.next(); std::istringstream in(o.str()); E h; in >> h; c.ok(!in.fail() && h == q.next(), "restored"); c.ok(!(h == cf) && h != cf, "successive states differ"); c.eq((ull)h(), w[(std::size_t)j + 1], "resumed"); } f = q.next(); }
		E g(s); E h(f); (void)h; c.ok(!(g == f), "advanced state differs from the seed state"); } }
void mts() { int n = 1500; std::uint64_t k = reps(4); mt<sr::mt19937, std::mt19937>("mt19937", n, k); }
void mts2() { mt<sr::mt11213b, boost::mt11213b>("mt11213b", 900, reps(4)); mt<sr::mt19937_64, std::mt19937_64>("mt19937_64", 900, reps(3)); }
// mt equality: the same position reached through different internal layouts
void mteq() { for (int i = 0; i < 6; ++i) { int n = i < 2 ? 624 * (i + 1) : (int)rng().range(1, 1300); std::uint32_t s = (std::uint32_t)rng()(); MON_CASE(c, "mt equality", s, n); sr::mt19937 a(s), b(s); 
#if __cplusplus >= 201402L
		for (int j = 0; j < n; ++j) a();
		for (int j = 0; j < n; ++j) { sr::mt19937 const& q = b; b = q().next(); } c.ok(a == b && b == a && !(a != b), "equal position"); a(); c.ok(a != b && b != a, "different position"); b(); c.ok(a == b, "equal again");
#else
		for (int j = 0; j < n; ++j) b(); (void)a; c.ok(b == b && b != a, "compare");
#endif
	} }
struct Words { typedef std::uint32_t result_type; std::vector<std::uint32_t> v; template<class It> void generate(It a, It b) const { std::size_t i = 0; for (; a != b; ++a, ++i) *a = v[i % v.size()]; } };
template<std::size_t N> void seq1() { for (std::uint64_t i = 0; i < reps(15); ++i) { std::vector<std::uint32_t> w(N); for (auto& x : w) x = rng().coin(1, 4) ? (std::uint32_t)rng().range(0, 3) : (std::uint32_t)rng()(); MON_CASE(c, "seed_array " + std::to_string(N), w); Buf<std::uint32_t> b(w); sprout::random::seed_array<N> s(b.p, b.p + N); c.eq(s.size(), N); std::vector<std::uint32_t> back(N); s.param(back.begin()); c.ok(back == w, "param"); std::seed_seq q(w.begin(), w.end());
#define G(M) { std::vector<std::uint32_t> e(M); q.generate(e.begin(), e.end()); auto r = s.generate(sprout::pit<sprout::array<std::uint_least32_t, M>>()); c.eq(dump(r.begin(), r.end()), dump(e.begin(), e.end()), "const generate " #M); sprout::array<std::uint_least32_t, M> m{{}}; s.generate(m.begin(), m.end()); c.eq(dump(m.begin(), m.end()), dump(e.begin(), e.end()), "generate " #M); }
	G(4) G(5) G(1) G(9) G(40) } }
void seqs() { seq1<1>(); seq1<2>(); seq1<4>(); seq1<9>(); }
template<class E, class R, bool KV = true> void sq(char const* nm) { for (std::uint64_t i = 0; i < reps(10); ++i) { std::vector<std::uint32_t> w(4); for (auto& x : w) x = (std::uint32_t)rng()(); if (i == 0) w = { 0, 0, 0, 0 }; if (i == 1) w = { ~0u, ~0u, ~0u, ~0u }; MON_CASE(c, std::string("seed sequence ") + nm, w); sprout::random::seed_array<4> const cs(w.begin(), w.end()); sprout::random::seed_array<4> s(cs); std::seed_seq q(w.begin(), w.end()); boost::random::seed_seq bq(w.begin(), w.end()); R r(bq); { E e(cs); c.eq((ull)e(), (ull)R(r)(), "const seq"); } 
#if __cplusplus >= 201402L
		{ E e(s); R r2(r); for (int j = 0; j < 5; ++j) c.eq((ull)e(), (ull)r2(), "seq"); E z; z.seed(s); c.ok(z == E(s), "seed(seq)"); E y; y.seed(cs); c.ok(y == z, "seed(const seq)"); }
#endif
		auto bf = w.begin(); if (KV) { R rr(bf, w.end()); E e(w.begin(), w.end()); for (int j = 0; j < 5; ++j) c.eq((ull)e(), (ull)rr(), "iterators");
			bool t = false; try { E e2(w.begin(), w.begin()); } catch (std::invalid_argument const&) { t = true; } c.ok(t, "too few words"); } } }
void sqs() { typedef std::uint32_t U; sq<sr::linear_congruential_engine<U, 48271, 0, 2147483647>, boost::minstd_rand>("minstd"); sq<sr::linear_congruential_engine<std::uint64_t, 25214903917ull, 11, 1ull << 48>, boost::random::linear_congruential_engine<std::uint64_t, 25214903917ull, 11, 1ull << 48>>("2^48"); sq<sr::inversive_congruential_engine<U, 9102, 2147483647 - 36884165, 2147483647>, boost::hellekalek1995>("icg"); sq<sr::linear_feedback_shift_engine<U, 32, 31, 13, 12>, boost::random::linear_feedback_shift_engine<U, 32, 31, 13, 12>>("lfs"); sq<sr::shuffle_order_engine<sr::linear_congruential_engine<U, 1366, 150889, 714025>, 7>, boost::random::shuffle_order_engine<boost::random::linear_congruential_engine<U, 1366, 150889, 714025>, 7>>("shuffle"); sq<sr::taus88, boost::taus88, false>("taus88"); sq<sr::ecuyer1988, boost::ecuyer1988, false>("ecuyer1988"); }
#if MON_PART(0)
MON_TEST(C29_lcg) { lcgs(); }
MON_TEST(C29_lcg2) { lcgs2(); }
MON_TEST(C29_mt) { mts(); }
#endif
#if MON_PART(1)
MON_TEST(C29_lcg3) { lcgs3(); }
MON_TEST(C29_icg) { icgs(); }
MON_TEST(C29_mteq) { mteq(); }
MON_TEST(C29_lfs) { lfss(); }
#endif
#if MON_PART(2)
MON_TEST(C29_xor) { xors(); }
MON_TEST(C29_shuf) { shuf(); }
MON_TEST(C29_mt2) { mts2(); }
#endif
#if MON_PART(3)
MON_TEST(C29_shuf2) { shuf2(); }
MON_TEST(C29_seed_array) { seqs(); }
MON_TEST(C29_seed_seq) { sqs(); }
#endif
