// C24: bit operations against bit-loop definitions, exhaustive for 8/16-bit types.
#include <mon.hpp>
#include <sprout/bit/operation.hpp>
#if defined(SPROUT_CONFIG_DISABLE_BUILTIN_BIT_OPERATION) && SPROUT_USE_BUILTIN_BIT_OPERATION
#	error "builtins still enabled"
#endif
using namespace mon; typedef std::uint64_t u64;
template<class T> struct W { enum { n = sizeof(T) * 8 }; static u64 mask() { return n == 64 ? ~0ull : (1ull << n) - 1; } static u64 u(T x) { return (u64)(typename std::make_unsigned<T>::type)x; } };
inline u64 bit(int b) { return 1ull << b; }
template<class T> u64 build(u64 (*f)(u64, int, int), T x, int a) { u64 r = 0; for (int i = 0; i < W<T>::n; ++i) r |= f(W<T>::u(x), i, a) << i; return r; }
template<class T> struct Ref { typedef W<T> w; u64 v; explicit Ref(T x) : v(w::u(x)) {}
	bool b(int i) const { return i >= 0 && i < w::n && (v >> i & 1); }
	int pop() const { int c = 0; for (int i = 0; i < w::n; ++i) c += b(i); return c; }
	int lead(bool k) const { int c = 0; for (int i = w::n - 1; i >= 0 && b(i) == k; --i) ++c; return c; }
	int trail(bool k) const { int c = 0; for (int i = 0; i < w::n && b(i) == k; ++i) ++c; return c; }
	template<class F> u64 map(F f) const { u64 r = 0; for (int i = 0; i < w::n; ++i) if (f(i)) r |= bit(i); return r; } };
template<class T> struct Ops {
	typedef W<T> w; template<class C> static void is(C& c, T got, u64 want, char const* n) { if (w::u(got) != (want & w::mask())) { std::ostringstream o; o << n << " got="; show(o, got); o << " want=" << (want & w::mask()); c.failed(o.str()); } }
	template<class C, class R> static void num(C& c, R got, long long want, char const* n) { if ((long long)got != want) { std::ostringstream o; o << n << " got=" << (long long)got << " want=" << want; c.failed(o.str()); } }
	template<class C> static void unary(C& c, T x) { Ref<T> r(x); int n = w::n, t0 = r.trail(0), t1 = r.trail(1); using namespace sprout;
		num(c, sprout::popcount(x), r.pop(), "popcount"); num(c, sprout::parity(x), r.pop() % 2, "parity"); num(c, sprout::clz(x), r.lead(0), "clz"); num(c, sprout::ctz(x), t0, "ctz"); num(c, sprout::clrsb(x), r.lead(r.b(n - 1)) - 1, "clrsb");
		num(c, sprout::cntl0(x), r.lead(0), "cntl0"); num(c, sprout::cntl1(x), r.lead(1), "cntl1"); num(c, sprout::cntt0(x), t0, "cntt0"); num(c, sprout::cntt1(x), t1, "cntt1");
		num(c, sprout::bit_length(x), n - r.lead(0), "bit_length"); is(c, sprout::bit_reverse(x), r.map([&](int i) { return r.b(n - 1 - i); }), "bit_reverse");
		is(c, sprout::rstls1b(x), r.map([&](int i) { return r.b(i) && i != t0; }), "rstls1b"); is(c, sprout::setls0b(x), r.map([&](int i) { return r.b(i) || i == t1; }), "setls0b");
		is(c, sprout::isols1b(x), r.map([&](int i) { return i == t0; }), "isols1b"); is(c, sprout::isols0b(x), r.map([&](int i) { return i == t1; }), "isols0b");
		is(c, sprout::rstt1(x), r.map([&](int i) { return r.b(i) && i >= t1; }), "rstt1"); is(c, sprout::sett0(x), r.map([&](int i) { return r.b(i) || i < t0; }), "sett0");
		is(c, sprout::maskt0(x), r.map([&](int i) { return i < t0; }), "maskt0"); is(c, sprout::maskt1(x), r.map([&](int i) { return i < t1; }), "maskt1");
		is(c, sprout::maskt0ls1b(x), r.map([&](int i) { return i <= t0; }), "maskt0ls1b"); is(c, sprout::maskt1ls0b(x), r.map([&](int i) { return i <= t1; }), "maskt1ls0b");
		c.ok(std::is_same<decltype(sprout::bit_reverse(x)), T>::value && std::is_same<decltype(sprout::rstls1b(x)), T>::value && std::is_same<decltype(sprout::rotl(x, 1)), T>::value && std::is_same<decltype(sprout::popcount(x)), int>::value, "result types"); }
	template<class C> static void at(C& c, T x, int s) { Ref<T> r(x); int n = w::n; bool neg = r.b(n - 1);
		is(c, sprout::shll(x, s), r.map([&](int i) { return r.b(i - s); }), "shll"); is(c, sprout::shal(x, s), r.map([&](int i) { return r.b(i - s); }), "shal"); is(c, sprout::shlr(x, s), r.map([&](int i) { return r.b(i + s); }), "shlr"); is(c, sprout::shar(x, s), r.map([&](int i) { return i + s < n ? r.b(i + s) : neg; }), "shar");
		is(c, sprout::rotl(x, s), r.map([&](int i) { return r.b((i - s + n) % n); }), "rotl"); is(c, sprout::rotr(x, s), r.map([&](int i) { return r.b((i + s) % n); }), "rotr");
		is(c, sprout::setbit(x, s), r.map([&](int i) { return r.b(i) || i == s; }), "setbit"); is(c, sprout::rstbit(x, s), r.map([&](int i) { return r.b(i) && i != s; }), "rstbit"); is(c, sprout::flipbit(x, s), r.map([&](int i) { return r.b(i) != (i == s); }), "flipbit"); num(c, sprout::testbit(x, s), r.b(s), "testbit");
		is(c, sprout::setbitsge(x, s), r.map([&](int i) { return r.b(i) || i >= s; }), "setbitsge"); is(c, sprout::setbitsle(x, s), r.map([&](int i) { return r.b(i) || i <= s; }), "setbitsle"); is(c, sprout::rstbitsge(x, s), r.map([&](int i) { return r.b(i) && i < s; }), "rstbitsge"); is(c, sprout::rstbitsle(x, s), r.map([&](int i) { return r.b(i) && i > s; }), "rstbitsle"); is(c, sprout::flipbitsge(x, s), r.map([&](int i) { return r.b(i) != (i >= s); }), "flipbitsge"); is(c, sprout::flipbitsle(x, s), r.map([&](int i) { return r.b(i) != (i <= s); }), "flipbitsle");
		is(c, sprout::bit_reverse_in(x, s), r.map([&](int i) { return i < s && r.b(s - 1 - i); }), "bit_reverse_in"); if (s == n - 1) is(c, sprout::bit_reverse_in(x, n), r.map([&](int i) { return r.b(n - 1 - i); }), "bit_reverse_in full"); } };
template<class T> void all(char const* name) { typedef W<T> w; 
	auto un = [&](T x) { MON_CASE(c, std::string("unary<") + name + ">", (long long)x); Ops<T>::unary(c, x); };
	auto sh = [&](T x, int s) { MON_CASE(c, std::string("positional<") + name + ">", (long long)x, s); Ops<T>::at(c, x, s); };
	if (w::n <= 16) { u64 step = w::n == 8 ? 1 : thorough() ? 1 : 7; for (u64 v = 0; v <= w::mask(); ++v) un((T)v); for (u64 v = 0; v <= w::mask(); v += step) { if (w::n == 8 || thorough()) for (int s = 0; s < w::n; ++s) sh((T)v, s); else sh((T)v, (int)((v / step) % w::n)); } }
	std::vector<T> v; for (int i = 0; i < w::n; ++i) { v.push_back((T)bit(i)); v.push_back((T)(bit(i) - 1)); v.push_back((T)~bit(i)); v.push_back((T)~(bit(i) - 1)); } v.push_back((T)~0ull); v.push_back((T)0xAAAAAAAAAAAAAAAAull); v.push_back((T)0x5555555555555555ull); v.push_back((T)0x0123456789ABCDEFull); v.push_back((T)0xFEDCBA9876543210ull); v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::min());
	for (T x : v) { un(x); for (int s = 0; s < w::n; ++s) sh(x, s); }
	if (w::n > 16) for (u64 i = 0; i < reps(15000); ++i) { u64 a = rng()(); if (rng().coin()) a &= rng()(); if (rng().coin(1, 4)) a <<= rng().range(0, w::n - 1); if (rng().coin(1, 4)) a = (a & w::mask()) >> rng().range(0, w::n - 1); un((T)a); sh((T)a, (int)rng().range(0, w::n - 1)); } }
#if MON_PART(0)
MON_TEST(schar) { all<signed char>("signed char"); } MON_TEST(uchar) { all<unsigned char>("unsigned char"); } MON_TEST(chr) { all<char>("char"); } MON_TEST(sshort) { all<short>("short"); } MON_TEST(ushort_) { all<unsigned short>("unsigned short"); }
#endif
#if MON_PART(1)
MON_TEST(sint) { all<int>("int"); } MON_TEST(uint_) { all<unsigned>("unsigned"); } MON_TEST(slong) { all<long>("long"); } MON_TEST(ulong_) { all<unsigned long>("unsigned long"); } MON_TEST(sll) { all<long long>("long long"); } MON_TEST(ull) { all<unsigned long long>("unsigned long long"); }
MON_TEST(ce) { constexpr int a = sprout::popcount(0xF0F0u) + sprout::clz(1u) + sprout::ctz(8) + sprout::clrsb(0); constexpr unsigned b = sprout::rotl(0x80000001u, 1) ^ sprout::bit_reverse(1u); MON_CASE(c, "constexpr", 0); c.eq(a, 8 + 31 + 3 + 31); c.eq(b, 3u ^ 0x80000000u); }
#endif
