// C46: chained comparisons (sprout::comp), against the conjunction of the pairwise comparisons.
#include <mon.hpp>
#include <string>
#include <tuple>
#include <sprout/utility/comparison.hpp>
using namespace mon;
struct Tr { long v; static long ops; }; long Tr::ops = 0;	// only the operators a chain may need
inline bool operator<(Tr const& a, Tr const& b) { ++Tr::ops; return a.v < b.v; } inline bool operator<=(Tr const& a, Tr const& b) { ++Tr::ops; return a.v <= b.v; }
inline std::ostream& operator<<(std::ostream& o, Tr const& t) { return o << t.v; }
struct Mod { long m; long* calls; template<class A, class B> bool operator()(A const& a, B const& b) const { ++*calls; return V(a) % m < V(b) % m; } static long V(long x) { return x; } static long V(Tr const& t) { return t.v; } static long V(std::string const& s) { return (long)s.size(); } };
template<class T> T mk(long v); template<> int mk<int>(long v) { return (int)v; } template<> long mk<long>(long v) { return v; } template<> double mk<double>(long v) { return v * .5 + v / 2; } template<> std::string mk<std::string>(long v) { return std::string((std::size_t)(v % 7), 'q') + std::to_string(v); } template<> Tr mk<Tr>(long v) { return Tr{v}; } template<> char mk<char>(long v) { return (char)('a' + v); } template<> unsigned mk<unsigned>(long v) { return (unsigned)v; }
// one step: op 0: strict, 1: weak
template<class C> long pairs_ok(bool const* ok, std::size_t n) { (void)sizeof(C); for (std::size_t i = 0; i < n; ++i) if (!ok[i]) return (long)i; return (long)n; }
#define LESS0(x) < x
#define LESS1(x) <= x
#define GRT0(x) > x
#define GRT1(x) >= x
#define EQ0(x) == x
#define CHECK(what, H, e, strictness) { Tr::ops = 0; bool r = static_cast<bool>(e); long used = Tr::ops; (void)used; bool nr = !(e); c.ok(r == want, std::string(what) + " " + strictness); c.ok(nr == !want, std::string("! ") + what + " " + strictness); }
template<class A, class B, class D, class E> void chain(long r0, long r1, long r2, long r3) { A a = mk<A>(r0); B b = mk<B>(r1); D d = mk<D>(r2); E e = mk<E>(r3); MON_CASE(c, "chains", r0, r1, r2, r3);
	count("chains", 1); bool l01 = a < b, l12 = b < d, l23 = d < e, g01 = b < a, g12 = d < b, g23 = e < d; bool want;
#define FAM(DIR, P0, P1, S0a, S1a, S2a, S0b, S1b, S2b) \
	want = S0a && S1a; CHECK(DIR, 0, sprout::comp % a P0(b) P0(d), "00"); CHECK(DIR, 0, sprout::comp P0(a) P0(b) P0(d), "^00"); CHECK(DIR, 0, sprout::comp P1(a) P0(b) P0(d), "v00"); \
	want = S0b && S1a; CHECK(DIR, 0, sprout::comp % a P1(b) P0(d), "10"); CHECK(DIR, 0, sprout::comp P0(a) P1(b) P0(d), "^10"); \
	want = S0a && S1b; CHECK(DIR, 0, sprout::comp % a P0(b) P1(d), "01"); CHECK(DIR, 0, sprout::comp P1(a) P0(b) P1(d), "v01"); \
	want = S0b && S1b; CHECK(DIR, 0, sprout::comp % a P1(b) P1(d), "11"); CHECK(DIR, 0, sprout::comp P1(a) P1(b) P1(d), "v11"); \
	want = S0a; CHECK(DIR, 0, sprout::comp % a P0(b), "0"); CHECK(DIR, 0, sprout::comp P0(a) P0(b), "^0"); want = S0b; CHECK(DIR, 0, sprout::comp % a P1(b), "1"); CHECK(DIR, 0, sprout::comp P1(a) P1(b), "v1"); \
	want = S0a && S1a && S2a; CHECK(DIR, 0, sprout::comp % a P0(b) P0(d) P0(e), "000"); CHECK(DIR, 0, sprout::comp P0(a) P0(b) P0(d) P0(e), "^000"); \
	want = S0b && S1a && S2b; CHECK(DIR, 0, sprout::comp % a P1(b) P0(d) P1(e), "101"); CHECK(DIR, 0, sprout::comp P1(a) P1(b) P0(d) P1(e), "v101"); \
	want = S0a && S1b && S2a; CHECK(DIR, 0, sprout::comp P1(a) P0(b) P1(d) P0(e), "v010"); want = S0b && S1b && S2b; CHECK(DIR, 0, sprout::comp % a P1(b) P1(d) P1(e), "111"); \
	want = S0b && S1a && S2a; CHECK(DIR, 0, sprout::comp % a P1(b) P0(d) P0(e), "100"); want = S0a && S1a && S2b; CHECK(DIR, 0, sprout::comp P0(a) P0(b) P0(d) P1(e), "^001");
	FAM("<", LESS0, LESS1, l01, l12, l23, !g01, !g12, !g23)
	FAM(">", GRT0, GRT1, g01, g12, g23, !l01, !l12, !l23)
	bool e01 = !l01 && !g01, e12 = !l12 && !g12, e23 = !l23 && !g23; FAM("==", EQ0, EQ0, e01, e12, e23, e01, e12, e23)
	want = true; CHECK("<", 0, sprout::comp < a, "one"); CHECK("<=", 0, sprout::comp <= a, "one"); CHECK(">", 0, sprout::comp > a, "one"); CHECK(">=", 0, sprout::comp >= a, "one"); CHECK("==", 0, sprout::comp == a, "one"); }
template<class A, class B, class D, class E> void custom(long r0, long r1, long r2, long r3) { A a = mk<A>(r0); B b = mk<B>(r1); D d = mk<D>(r2); E e = mk<E>(r3); long m = 1 + (long)rng().below(9), calls = 0; Mod const f{m, &calls}; MON_CASE(c, "chains with a comparator", r0, r1, r2, r3, m);
	count("chains with a comparator", 1); bool l01 = f(a, b), l12 = f(b, d), l23 = f(d, e), g01 = f(b, a), g12 = f(d, b), g23 = f(e, d); bool want; auto const F = [&]() -> Mod const& { return f; };
#define comp comp->*F()
	FAM("<", LESS0, LESS1, l01, l12, l23, !g01, !g12, !g23)
	FAM(">", GRT0, GRT1, g01, g12, g23, !l01, !l12, !l23)
	bool e01 = !l01 && !g01, e12 = !l12 && !g12, e23 = !l23 && !g23; FAM("==", EQ0, EQ0, e01, e12, e23, e01, e12, e23)
	want = true; CHECK("<", 0, sprout::comp < a, "one"); CHECK("<=", 0, sprout::comp <= a, "one"); CHECK(">", 0, sprout::comp > a, "one"); CHECK(">=", 0, sprout::comp >= a, "one"); CHECK("==", 0, sprout::comp == a, "one");
	// a chain that failed compares nothing further
	calls = 0; bool r = static_cast<bool>(sprout::comp % a < b < d <= e); long exp = !l01 ? 1 : !l12 ? 2 : 3; c.ok(r == (l01 && l12 && !g23), "chain"); c.ok(calls == exp, "comparisons made by a chain"); calls = 0; r = static_cast<bool>(sprout::comp >= a > b >= d > e); exp = !g01 ? 1 : l12 ? 2 : 3; c.ok(r == (g01 && !l12 && g23), "descending chain"); c.ok(calls == exp, "comparisons made by a descending chain");
#undef comp
}
template<class A, class B, class D, class E> void both(long span) { for (std::uint64_t i = 0; i < reps(120); ++i) { long r[4]; for (auto& x : r) x = (long)rng().below((std::uint64_t)span); unsigned w = (unsigned)rng().below(4); if (w == 0) std::sort(r, r + 4); else if (w == 1) std::sort(r, r + 4, std::greater<long>()); else if (w == 2) r[1] = r[2] = r[rng().below(4)]; chain<A, B, D, E>(r[0], r[1], r[2], r[3]); } }
template<class A, class B, class D, class E> void cust(long span) { for (std::uint64_t i = 0; i < reps(120); ++i) { long r[4]; for (auto& x : r) x = (long)rng().below((std::uint64_t)span); unsigned w = (unsigned)rng().below(4); if (w == 0) std::sort(r, r + 4); else if (w == 1) std::sort(r, r + 4, std::greater<long>()); else if (w == 2) r[1] = r[2] = r[rng().below(4)]; custom<A, B, D, E>(r[0], r[1], r[2], r[3]); } }
#if MON_PART(0)
MON_TEST(small) { for (long i = 0; i < 256; ++i) chain<int, int, int, int>(i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6 & 3); }
MON_TEST(ints) { both<int, int, int, int>(6); both<int, long, double, int>(9); both<char, int, char, long>(20); }
MON_TEST(objects) { both<std::string, std::string, std::string, std::string>(12); both<Tr, Tr, Tr, Tr>(5); }
#endif
#if MON_PART(1)
MON_TEST(comparators) { for (long i = 0; i < 256; ++i) custom<long, long, long, long>(i & 3, i >> 2 & 3, i >> 4 & 3, i >> 6 & 3); cust<long, long, long, long>(40); cust<int, long, Tr, int>(40); cust<Tr, std::string, Tr, int>(30); cust<std::string, std::string, std::string, std::string>(30); }
#endif
