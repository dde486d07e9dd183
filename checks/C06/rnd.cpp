#include <src.hpp>
#include <spr.hpp>
#include <random>
#include <sprout/algorithm.hpp>
#include <sprout/random.hpp>
#include <sprout/functional.hpp>
#include <sprout/sub_array.hpp>
using namespace mon;
typedef std::vector<std::pair<int, int> > P; typedef std::vector<Tag> T;
template<class C> P dump(C const& c) { P p; for (auto i = sprout::begin(c); i != sprout::end(c); ++i) p.push_back(std::make_pair(i->key, i->id)); return p; }
P sorted_ids(P p) { std::sort(p.begin(), p.end(), [](std::pair<int, int> const& a, std::pair<int, int> const& b) { return a.second < b.second; }); return p; }
P mk(int n, int hi) { P p; for (int i = 0; i < n; ++i) p.push_back(std::make_pair((int)rng().range(0, hi), i)); return p; }
int ndiff(P const& a, P const& b) { int d = 0; for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) d += a[i] != b[i]; return d; }
bool ord(P const& p, bool desc) { for (std::size_t i = 1; i < p.size(); ++i) if (desc ? p[i - 1].first < p[i].first : p[i].first < p[i - 1].first) return false; return true; }
struct TDesc { int pad; explicit constexpr TDesc(int) : pad(0) {} constexpr bool operator()(Tag const& a, Tag const& b) const { return b.key < a.key; } };
template<std::size_t N> struct CArr { typedef sprout::array<Tag, N> type; static std::string name() { return "array<" + std::to_string(N) + ">"; } static type make(P const& p) { type r = type(); std::size_t i = 0; for (auto& x : r) { x = Tag(p[i].first, p[i].second); ++i; } return r; } enum { n = N }; static P inner(type const& t) { return dump(t); } };
template<std::size_t N, std::size_t O> struct CSub { typedef sprout::sub_array<sprout::array<Tag, N + 4> > type; static std::string name() { return "sub_array<" + std::to_string(N) + "@" + std::to_string(O) + ">"; } static type make(P const& p) { sprout::array<Tag, N + 4> a; for (std::size_t i = 0; i < N + 4; ++i) a[i] = Tag(-7, 700 + (int)i); for (std::size_t i = 0; i < N; ++i) a[O + i] = Tag(p[i].first, p[i].second); return type(a, O, O + N); } enum { n = N }; static P inner(type const& t) { return dump(sprout::get_internal(t)); } };
// every element outside the window is the original one
template<class K> P outer(typename K::type const& src, P const& window) { P p = K::inner(src); std::size_t off = sprout::internal_begin_offset(src); std::copy(window.begin(), window.end(), p.begin() + off); return p; }
#define CHKPERM(r) { P got_ = dump(r); c.eq(sorted_ids(got_), p, "multiset of elements"); c.eq(K::inner(r), outer<K>(a, got_), "internal container"); c.eq(K::inner(a), before, "argument unchanged"); }
#define CHKFIT(r, f) { c.eq(dump(r), dump(f), "fit view vs fixed result"); c.eq(dump(sprout::get_internal(r)), K::inner(f), "internal container of the fit view"); }
template<class K, class E> void fixed_(char const* en) {
	for (std::uint64_t it = 0; it < reps(60); ++it) {
		P p = mk(K::n, (int)rng().range(0, 5)); auto const a = K::make(p); P before = K::inner(a); unsigned s = (unsigned)(rng()() % 2000000000u) + 1; E const g(s); std::string tag = "<" + K::name() + "," + en + ">";
		{ MON_CASE(c, "fixed::shuffle" + tag, p, s); auto r = sprout::fixed::shuffle(a, g); CHKPERM(r) c.eq(dump(sprout::shuffle(a, g)), dump(r), "same state, same result"); CHKFIT(sprout::fit::shuffle(a, g), r)
			auto q = sprout::fixed::shuffle_result(a, g); c.eq(dump(sprout::first(q)), dump(r), "shuffle_result agrees"); E const g2 = sprout::second(q); if (K::n > 1) c.ok(!(g2 == g), "shuffle_result advances the generator"); else c.ok(g2 == g, "nothing drawn for less than two elements");
			auto q2 = sprout::fixed::shuffle_result(a, g); c.ok(sprout::second(q2) == g2, "same state, same final state"); auto f = sprout::fit::shuffle_result(a, g); CHKFIT(sprout::first(f), r) c.ok(sprout::second(f) == g2, "fit final state");
			auto r3 = sprout::fixed::shuffle(sprout::first(q), g2); CHKPERM(r3) }
		{ MON_CASE(c, "fixed::random_swap" + tag, p, s); auto r = sprout::fixed::random_swap(a, g); CHKPERM(r) int d = ndiff(dump(r), p); c.ok(d == 0 || d == 2, "exactly one transposition or none"); c.eq(dump(sprout::random_swap(a, g)), dump(r), "same state, same result"); CHKFIT(sprout::fit::random_swap(a, g), r)
			auto q = sprout::fixed::random_swap_result(a, g); c.eq(dump(sprout::first(q)), dump(r), "random_swap_result agrees"); E const g2 = sprout::second(q); if (K::n > 1) c.ok(!(g2 == g), "random_swap_result advances the generator"); auto f = sprout::fit::random_swap_result(a, g); CHKFIT(sprout::first(f), r) c.ok(sprout::second(f) == g2, "fit final state"); }
		if (K::n <= 4) {
			{ MON_CASE(c, "fixed::bogo_sort" + tag, p, s); auto r = sprout::fixed::bogo_sort(a, g); CHKPERM(r) c.ok(ord(dump(r), false), "sorted"); if (ord(p, false)) c.eq(dump(r), p, "sorted input is kept"); auto q = sprout::fixed::bogo_sort_result(a, g); c.eq(dump(sprout::first(q)), dump(r), "bogo_sort_result agrees"); if (ord(p, false)) c.ok(sprout::second(q) == g, "nothing drawn for sorted input"); CHKFIT(sprout::fit::bogo_sort(a, g), r) auto f = sprout::fit::bogo_sort_result(a, g); CHKFIT(sprout::first(f), r) c.ok(sprout::second(f) == sprout::second(q), "fit final state"); }
			{ MON_CASE(c, "fixed::bogo_sort comp" + tag, p, s); auto r = sprout::fixed::bogo_sort(a, g, TDesc(1)); CHKPERM(r) c.ok(ord(dump(r), true), "sorted"); CHKFIT(sprout::fit::bogo_sort(a, g, TDesc(1)), r) auto f = sprout::fit::bogo_sort_result(a, g, TDesc(1)); CHKFIT(sprout::first(f), r) }
			{ MON_CASE(c, "fixed::bozo_sort" + tag, p, s); auto r = sprout::fixed::bozo_sort(a, g); CHKPERM(r) c.ok(ord(dump(r), false), "sorted"); if (ord(p, false)) c.eq(dump(r), p, "sorted input is kept"); auto q = sprout::fixed::bozo_sort_result(a, g); c.eq(dump(sprout::first(q)), dump(r), "bozo_sort_result agrees"); CHKFIT(sprout::fit::bozo_sort(a, g), r) auto f = sprout::fit::bozo_sort_result(a, g); CHKFIT(sprout::first(f), r) c.ok(sprout::second(f) == sprout::second(q), "fit final state"); }
			{ MON_CASE(c, "fixed::bozo_sort comp" + tag, p, s); auto r = sprout::fixed::bozo_sort(a, g, TDesc(1)); CHKPERM(r) c.ok(ord(dump(r), true), "sorted"); CHKFIT(sprout::fit::bozo_sort(a, g, TDesc(1)), r) auto f = sprout::fit::bozo_sort_result(a, g, TDesc(1)); CHKFIT(sprout::first(f), r) }
		}
	}
	// reachability of every outcome (array<4>-sized containers): each outcome has probability > 1/200 here, 6000 draws miss one with probability < 1e-11
	if (K::n == 4) {
		P p = mk(4, 0); auto const a = K::make(p); std::map<P, int> perms, swaps; std::string tag = "<" + K::name() + "," + en + ">"; MON_CASE(c, "reachability" + tag, p);
		for (int i = 0; i < 6000; ++i) { E const g((unsigned)(rng()() % 2000000000u) + 1); ++perms[dump(sprout::fixed::shuffle(a, g))]; ++swaps[dump(sprout::fixed::random_swap(a, g))]; }
		c.eq((int)perms.size(), 24, "permutations reached by shuffle"); c.eq((int)swaps.size(), 7, "outcomes of random_swap"); count("permutations reached", perms.size()); count("transpositions reached", swaps.size());
	}
}
template<class E> void fixed_all(char const* en) { fixed_<CArr<0>, E>(en); fixed_<CArr<1>, E>(en); fixed_<CArr<2>, E>(en); fixed_<CArr<4>, E>(en); fixed_<CArr<7>, E>(en); fixed_<CSub<4, 1>, E>(en); fixed_<CSub<5, 4>, E>(en); fixed_<CSub<3, 0>, E>(en); fixed_<CSub<0, 2>, E>(en); fixed_<CSub<1, 1>, E>(en); }
#if !defined(UNIT_X14) && MON_PART(0)
MON_TEST(f_minstd) { fixed_all<sprout::random::minstd_rand>("minstd_rand"); }
#endif
#if !defined(UNIT_X14) && MON_PART(1)
MON_TEST(f_taus) { fixed_all<sprout::random::taus88>("taus88"); }
#endif
#if !defined(UNIT_X14) && MON_PART(2)
MON_TEST(f_rand48) { fixed_all<sprout::random::rand48>("rand48"); }
#endif
#if !defined(UNIT_X14) && MON_PART(3) && __cplusplus < 201402L
MON_TEST(f_ecuyer) { fixed_all<sprout::random::ecuyer1988>("ecuyer1988"); }
#endif
#if !defined(UNIT_X14) && MON_PART(3) && __cplusplus >= 201402L
MON_TEST(f_hellekalek) { fixed_all<sprout::random::hellekalek1995>("hellekalek1995"); }
#endif

#ifdef UNIT_X14
struct Tiny { typedef unsigned result_type; mon::Rng r; explicit Tiny(unsigned s = 1) : r(s) {} static constexpr result_type min() { return 3; } static constexpr result_type max() { return 6; } result_type operator()() { return 3 + (unsigned)r.below(4); } };
template<class E, class I> struct X14 { static void go(std::string const& tag0) {
	for (std::uint64_t it = 0; it < reps(1500); ++it) {
		std::size_t n = rng().below(10); P p = mk((int)n, (int)rng().range(0, 5)); T t; for (auto& x : p) t.push_back(Tag(x.first, x.second)); unsigned s = (unsigned)(rng()() % 2000000000u) + 1;
		{ MON_CASE(c, "shuffle" + tag0, p, s); I b(t), b2(t); E g(s), g2(s); sprout::shuffle(b.mb(), b.me(), g); P got = ids(b.buf.vec()); c.eq(sorted_ids(got), p, "multiset of elements"); sprout::shuffle(b2.mb(), b2.me(), g2); c.eq(ids(b2.buf.vec()), got, "same state, same result"); c.ok(g() == g2(), "same final state"); }
		{ MON_CASE(c, "random_swap" + tag0, p, s); I b(t), b2(t); E g(s), g2(s); sprout::random_swap(b.mb(), b.me(), g); P got = ids(b.buf.vec()); c.eq(sorted_ids(got), p, "multiset of elements"); int d = ndiff(got, p); c.ok(d == 0 || d == 2, "exactly one transposition or none"); sprout::random_swap(b2.mb(), b2.me(), g2); c.eq(ids(b2.buf.vec()), got, "same state, same result"); }
		if (n <= 4) { MON_CASE(c, "bogo_sort" + tag0, p, s); I b(t), b2(t), b3(t), b4(t); E g(s); sprout::bogo_sort(b.mb(), b.me(), g); P got = ids(b.buf.vec()); c.eq(sorted_ids(got), p, "multiset"); c.ok(ord(got, false), "sorted"); sprout::bogo_sort(b2.mb(), b2.me(), g, TDesc(1)); got = ids(b2.buf.vec()); c.eq(sorted_ids(got), p, "multiset"); c.ok(ord(got, true), "sorted descending");
			sprout::bozo_sort(b3.mb(), b3.me(), g); got = ids(b3.buf.vec()); c.eq(sorted_ids(got), p, "bozo multiset"); c.ok(ord(got, false), "bozo sorted"); sprout::bozo_sort(b4.mb(), b4.me(), g, TDesc(1)); got = ids(b4.buf.vec()); c.eq(sorted_ids(got), p, "bozo multiset"); c.ok(ord(got, true), "bozo sorted descending"); }
		{ MON_CASE(c, "random_shuffle" + tag0, p, s); I b(t); E g(s); bool in = true; std::ptrdiff_t calls = 0; auto rnd = [&](std::ptrdiff_t m) -> std::ptrdiff_t { ++calls; if (m < 1 || m > (std::ptrdiff_t)n) { in = false; return 0; } return (std::ptrdiff_t)((g() - g.min()) % (unsigned long long)m); }; sprout::random_shuffle(b.mb(), b.me(), rnd); c.eq(sorted_ids(ids(b.buf.vec())), p, "multiset of elements"); c.ok(in, "random numbers are asked for in [1, size]"); c.eq((long)calls, n ? (long)n - 1 : 0L, "numbers drawn"); }
	}
} };
template<class E, class S> void samp(std::string const& tag) { for (std::uint64_t it = 0; it < reps(1500); ++it) {
	std::size_t n = rng().below(10); long k = (long)rng().below(12); P p = mk((int)n, 3); T t; for (auto& x : p) t.push_back(Tag(x.first, x.second)); unsigned s = (unsigned)(rng()() % 2000000000u) + 1; S src(t); std::size_t m = std::min<std::size_t>(n, k);
	{ MON_CASE(c, "sample into random access" + tag, p, k, s); Buf<Tag> out(m, Tag(-1, -1)); E g(s), g2(s); Tag* e = sprout::sample(src.cb(), src.ce(), out.begin(), k, g); c.eq((long)(e - out.begin()), (long)m, "number sampled"); P got = ids(out.vec()); P u = sorted_ids(got); bool okk = std::adjacent_find(u.begin(), u.end()) == u.end(); for (auto& x : u) okk = okk && x.second >= 0 && x.second < (int)n && p[x.second] == x; c.ok(okk, "distinct elements of the population"); if (m == n) c.eq(u, p, "whole population");
		Buf<Tag> out2(m, Tag(-1, -1)); sprout::sample(src.cb(), src.ce(), out2.begin(), k, g2); c.eq(ids(out2.vec()), got, "same state, same result"); } } }
template<class E, class S> void samp_fwd(std::string const& tag) { for (std::uint64_t it = 0; it < reps(1500); ++it) {
	std::size_t n = rng().below(10); long k = (long)rng().below(12); P p = mk((int)n, 3); T t; for (auto& x : p) t.push_back(Tag(x.first, x.second)); unsigned s = (unsigned)(rng()() % 2000000000u) + 1; S src(t); std::size_t m = std::min<std::size_t>(n, k);
	MON_CASE(c, "sample into output iterator" + tag, p, k, s); T out; E g(s); sprout::sample(src.cb(), src.ce(), std::back_inserter(out), k, g); P u = ids(out); c.eq((long)u.size(), (long)m, "number sampled"); bool okk = true; for (std::size_t i = 0; i < u.size(); ++i) okk = okk && u[i].second >= 0 && u[i].second < (int)n && p[u[i].second] == u[i] && (!i || u[i - 1].second < u[i].second); c.ok(okk, "distinct elements in population order"); } }
template<class E> void reach14(std::string const& tag) { P p = mk(4, 0); T t; for (auto& x : p) t.push_back(Tag(x.first, x.second)); std::map<P, int> perms, swaps, s1, s2, rs; MON_CASE(c, "reachability" + tag, p);
	for (int i = 0; i < 6000; ++i) { E g((unsigned)(rng()() % 2000000000u) + 1); T a(t), b(t), r(t); sprout::shuffle(a.begin(), a.end(), g); ++perms[ids(a)]; sprout::random_swap(b.begin(), b.end(), g); ++swaps[ids(b)]; T o(2), o2; sprout::sample(t.begin(), t.end(), o.begin(), 2, g); ++s1[sorted_ids(ids(o))]; sprout::sample(t.begin(), t.end(), std::back_inserter(o2), 2, g); ++s2[ids(o2)]; mon::Rng rr(rng()()); sprout::random_shuffle(r.begin(), r.end(), [&](std::ptrdiff_t m) { return (std::ptrdiff_t)rr.below((std::uint64_t)m); }); ++rs[ids(r)]; }
	c.eq((int)perms.size(), 24, "permutations reached by shuffle"); c.eq((int)swaps.size(), 7, "outcomes of random_swap"); c.eq((int)s1.size(), 6, "subsets reached by reservoir sampling"); c.eq((int)s2.size(), 6, "subsets reached by selection sampling"); c.eq((int)rs.size(), 24, "permutations reached by random_shuffle");
	// equiprobable outcomes: 6000/24 = 250 expected, standard deviation < 16; 8.5 deviations are never seen by chance
	for (auto& x : perms) c.ok(x.second > 118 && x.second < 382, "shuffle outcome frequency within 8.5 sigma"); for (auto& x : s1) c.ok(x.second > 750 && x.second < 1250, "sample frequency"); for (auto& x : s2) c.ok(x.second > 750 && x.second < 1250, "sample frequency"); }
template<class E> void x14(std::string const& en) { X14<E, Rg<Ra, Tag> >::go("<ra," + en + ">"); samp<E, Rg<In, Tag> >("<in," + en + ">"); samp<E, Rg<Ra, Tag> >("<ra," + en + ">"); samp_fwd<E, Rg<Fw, Tag> >("<fw," + en + ">"); samp_fwd<E, Rg<Ra, Tag> >("<ra," + en + ">"); reach14<E>("<" + en + ">"); }
MON_TEST(x_minstd) { x14<sprout::random::minstd_rand>("minstd_rand"); }
MON_TEST(x_mt) { x14<sprout::random::mt19937>("mt19937"); }
MON_TEST(x_taus) { x14<sprout::random::taus88>("taus88"); }
MON_TEST(x_kreutzer) { x14<sprout::random::kreutzer1986>("kreutzer1986"); }
MON_TEST(x_std) { x14<std::mt19937>("std::mt19937"); }
MON_TEST(x_std64) { x14<std::mt19937_64>("std::mt19937_64"); }
MON_TEST(x_tiny) { x14<Tiny>("tiny range"); }
#endif
