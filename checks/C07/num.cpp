#include <kinds.hpp>
#include <numeric>
#include <sprout/numeric.hpp>
#include <sprout/range/numeric.hpp>
#include <sprout/functional.hpp>
using namespace mon;
typedef unsigned E; typedef std::vector<unsigned> T;
// order-revealing (neither commutative nor associative) and stateful operations
struct Op { unsigned k; unsigned operator()(unsigned a, unsigned b) const { return a * 31u + b * 7u + k; } };
struct Op2 { unsigned k; unsigned operator()(unsigned a, unsigned b) const { return a * 5u - b * 3u + k; } };
struct Un { unsigned k; unsigned operator()(unsigned a) const { return a * 11u + k; } };
// models
template<class A, class F> A fold(T const& v, A init, F f) { for (auto x : v) init = f(init, x); return init; }
template<class F> T psum(T const& v, F f) { T r; for (auto x : v) r.push_back(r.empty() ? x : f(r.back(), x)); return r; }
template<class F> T adiff(T const& v, F f) { T r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(i ? f(v[i], v[i - 1]) : v[i]); return r; }
template<class F> T exscan(T const& v, unsigned init, F f) { T r; for (auto x : v) { r.push_back(init); init = f(init, x); } return r; }
template<class F> T incscan(T const& v, unsigned init, F f) { T r(1, init); for (auto x : v) r.push_back(init = f(init, x)); return r; } // Sprout's convention: the initial value comes first
template<class F> T map(T v, F f) { for (auto& x : v) x = f(x); return v; }
T randv(std::size_t n) { T v(n); unsigned m = rng().coin() ? 10u : 0xFFFFFFFFu; for (auto& x : v) x = (unsigned)rng()() % (m ? m : 1u); return v; }
template<class F> void inputs(F f) { for (int n = 0; n <= 20; ++n) for (int i = 0; i < 4; ++i) f(randv(n)); for (std::uint64_t i = 0; i < reps(150); ++i) f(randv(rand_len(70))); }
template<class F> void small(F f) { for (int n = 0; n <= 9; ++n) for (std::uint64_t i = 0; i < reps(8); ++i) f(randv(n)); }

#if MON_PART(0)
template<class S> void folds() { std::string tag = "<" + S::name() + ">"; typedef unsigned long long ull;
	inputs([&](T const& v) {
		S s(v); Op op = {(unsigned)rng().below(5)}; Op2 op2 = {(unsigned)rng().below(9)}; Un un = {(unsigned)rng().below(5)}; unsigned init = (unsigned)rng().below(1000); T u = randv(v.size()); S s2(u); T prod; for (std::size_t i = 0; i < v.size(); ++i) prod.push_back(op2(v[i], u[i]));
		auto plus = [](ull a, ull b) { return a + b; };
		{ MON_CASE(c, OPN("accumulate"), v, init); c.eq(sprout::accumulate(s.cb(), s.ce(), init), fold(v, init, std::plus<unsigned>())); c.eq(sprout::accumulate(s.cb(), s.ce(), (ull)init), fold(v, (ull)init, plus), "accumulates in the wider type of init"); }
		{ MON_CASE(c, OPN("accumulate op"), v, init, op.k); c.eq(sprout::accumulate(s.cb(), s.ce(), init, op), fold(v, init, op)); }
		{ MON_CASE(c, OPN("reduce"), v, init); c.eq(sprout::reduce(s.cb(), s.ce()), fold(v, 0u, std::plus<unsigned>()), "reduce()"); c.eq(sprout::reduce(s.cb(), s.ce(), (ull)init), fold(v, (ull)init, plus), "reduce(init)"); c.eq(sprout::reduce(s.cb(), s.ce(), init, [](unsigned a, unsigned b) { return a ^ b; }), fold(v, init, [](unsigned a, unsigned b) { return a ^ b; }), "reduce(init, op)"); }
		{ MON_CASE(c, OPN("inner_product"), v, u, init); ull w = init; unsigned w1 = init; for (std::size_t i = 0; i < v.size(); ++i) { w1 += v[i] * u[i]; w += (unsigned)(v[i] * u[i]); } c.eq(sprout::inner_product(s.cb(), s.ce(), s2.cb(), init), w1); c.eq(sprout::inner_product(s.cb(), s.ce(), s2.cb(), (ull)init), w, "accumulates in the wider type of init"); }
		{ MON_CASE(c, OPN("inner_product op"), v, u, init, op.k, op2.k); c.eq(sprout::inner_product(s.cb(), s.ce(), s2.cb(), init, op, op2), fold(prod, init, op)); }
		{ MON_CASE(c, OPN("transform_reduce binary"), v, u, init); unsigned w1 = init; for (std::size_t i = 0; i < v.size(); ++i) w1 += v[i] * u[i]; c.eq(sprout::transform_reduce(s.cb(), s.ce(), s2.cb(), init), w1); c.eq(sprout::transform_reduce(s.cb(), s.ce(), s2.cb(), init, std::plus<unsigned>(), op2), fold(prod, init, std::plus<unsigned>())); }
		{ MON_CASE(c, OPN("transform_reduce unary"), v, init, un.k); c.eq(sprout::transform_reduce(s.cb(), s.ce(), init, std::plus<unsigned>(), un), fold(map(v, un), init, std::plus<unsigned>())); }
	}); }
MON_SRC_TESTS(folds, unsigned)
#endif
#if MON_PART(1)
template<std::size_t N> struct RangeForms { static void go() { typedef unsigned long long ull; std::string tag = "<array<" + std::to_string(N) + ">>"; for (std::uint64_t it = 0; it < reps(60); ++it) {
	T v = randv(N), u = randv(N); auto a = arr<unsigned, N>(v); auto b = arr<unsigned, N>(u); Op op = {(unsigned)rng().below(5)}; Op2 op2 = {(unsigned)rng().below(9)}; Un un = {(unsigned)rng().below(5)}; unsigned init = (unsigned)rng().below(1000); T prod; for (std::size_t i = 0; i < N; ++i) prod.push_back(op2(v[i], u[i]));
	std::size_t o = rng().below(N + 1), l = rng().below(N - o + 1); T vs(v.begin() + o, v.begin() + o + l); auto sub = sprout::sub(a, (std::ptrdiff_t)o, (std::ptrdiff_t)(o + l));
	{ MON_CASE(c, OPN("iterator folds over array iterators"), v, u, init, op.k); c.eq(sprout::accumulate(a.begin(), a.end(), init, op), fold(v, init, op)); c.eq(sprout::accumulate(sub.begin(), sub.end(), init, op), fold(vs, init, op), "sub"); c.eq(sprout::inner_product(a.begin(), a.end(), b.begin(), init, op, op2), fold(prod, init, op), "inner_product"); c.eq(sprout::transform_reduce(a.begin(), a.end(), b.begin(), init, op, op2), fold(prod, init, op), "transform_reduce"); c.eq(sprout::transform_reduce(a.begin(), a.end(), init, op, un), fold(map(v, un), init, op), "transform_reduce unary"); c.eq(sprout::reduce(a.begin(), a.end(), init, op), fold(v, init, op), "reduce"); }
	{ MON_CASE(c, OPN("range::accumulate"), v, init, op.k); c.eq(sprout::range::accumulate(a, init), fold(v, init, std::plus<unsigned>())); c.eq(sprout::range::accumulate(a, init, op), fold(v, init, op)); c.eq(sprout::range::accumulate(sub, init, op), fold(vs, init, op)); }
	{ MON_CASE(c, OPN("range::reduce"), v, init); c.eq(sprout::range::reduce(a), fold(v, 0u, std::plus<unsigned>())); c.eq(sprout::range::reduce(a, init), fold(v, init, std::plus<unsigned>())); c.eq(sprout::range::reduce(a, init, [](unsigned x, unsigned y) { return x ^ y; }), fold(v, init, [](unsigned x, unsigned y) { return x ^ y; })); }
	{ MON_CASE(c, OPN("range::inner_product"), v, u, init, op.k); unsigned w1 = init; for (std::size_t i = 0; i < v.size(); ++i) w1 += v[i] * u[i]; c.eq(sprout::range::inner_product(a, b, init), w1); c.eq(sprout::range::inner_product(a, b, init, op, op2), fold(prod, init, op)); }
	{ MON_CASE(c, OPN("range::transform_reduce"), v, u, init, op.k); unsigned w1 = init; for (std::size_t i = 0; i < v.size(); ++i) w1 += v[i] * u[i]; c.eq(sprout::range::transform_reduce(a, b, init), w1); c.eq(sprout::range::transform_reduce(a, b, init, std::plus<unsigned>(), op2), fold(prod, init, std::plus<unsigned>())); c.eq(sprout::range::transform_reduce(a, init, std::plus<unsigned>(), un), fold(map(v, un), init, std::plus<unsigned>())); }
} } };
MON_TEST(range_forms) { RangeForms<1>::go(); RangeForms<2>::go(); RangeForms<3>::go(); RangeForms<5>::go(); RangeForms<8>::go(); RangeForms<13>::go(); RangeForms<31>::go(); }
#endif
#if MON_PART(2) || MON_PART(3) || MON_PART(4) || MON_PART(7)
#if MON_PART(7)  // single-pass sources: the fit forms require a forward iterator
#undef ALG2
#define ALG2 ALG
#endif
#define NWANT0 typedef typename K::elem E; typedef typename K::R R; std::string tag = "<" + S::name() + "->" + K::name() + ">"; int a2 = 0;
template<class S, class K> struct Sc { static void go() { NWANT0
	small([&](T const& v) { S s(v); auto b = s.cb(), e = s.ce(); K k; int a1 = (int)rng().below(5); Op op = {(unsigned)a1}; Un un = {(unsigned)a1 + 3}; unsigned init = (unsigned)rng().below(1000); std::plus<unsigned> pl; std::minus<unsigned> mi; (void)pl; (void)mi; T w;
#if MON_PART(2) || MON_PART(7)
		w = psum(v, pl); ALG2(partial_sum, "partial_sum", w, (b, e), (), false)
		w = psum(v, op); ALG2(partial_sum, "partial_sum op", w, (b, e), (, op), false)
		w = adiff(v, mi); ALG2(adjacent_difference, "adjacent_difference", w, (b, e), (), false)
		w = adiff(v, op); ALG2(adjacent_difference, "adjacent_difference op", w, (b, e), (, op), false)
#endif
#if MON_PART(3) || MON_PART(7)
		w = exscan(v, init, pl); ALG2(exclusive_scan, "exclusive_scan", w, (b, e), (, init), false)
		w = exscan(v, init, op); ALG2(exclusive_scan, "exclusive_scan op", w, (b, e), (, init, op), false)
		w = exscan(map(v, un), init, op); ALG2(transform_exclusive_scan, "transform_exclusive_scan", w, (b, e), (, init, op, un), false)
		w = psum(map(v, un), op); ALG2(transform_inclusive_scan, "transform_inclusive_scan", w, (b, e), (, op, un), false)
#endif
#if MON_PART(4) || MON_PART(7)
		w = psum(v, pl); ALG2(inclusive_scan, "inclusive_scan", w, (b, e), (), false)
		w = psum(v, op); ALG2(inclusive_scan, "inclusive_scan op", w, (b, e), (, op), false)
		w = incscan(v, init, op); ALG2(inclusive_scan, "inclusive_scan init", w, (b, e), (, op, init), false)
		w = incscan(map(v, un), init, op); ALG2(transform_inclusive_scan, "transform_inclusive_scan init", w, (b, e), (, op, un, init), false)
#endif
	}); } };
typedef KArr<unsigned, 5> Ka; typedef KArr<unsigned, 1> K1; typedef KArr<unsigned, 0> K0; typedef KArr<unsigned, 2> K2; typedef KSub<unsigned, 6> Ks; typedef KStd<unsigned, 4> Kd;
#if MON_PART(7)
MON_TEST(s_in_arr) { Sc<Src<In, unsigned, NonLit>, Ka>::go(); } MON_TEST(s_in_sub) { Sc<Src<In, unsigned>, Ks>::go(); }
#else
MON_TEST(s_fw_sub) { Sc<Src<Fw, unsigned>, Ks>::go(); } MON_TEST(s_ptr_one) { Sc<Ptr<unsigned>, K1>::go(); } MON_TEST(s_ptr_two) { Sc<Ptr<unsigned>, K2>::go(); } MON_TEST(s_ra_std) { Sc<Src<Ra, unsigned>, Kd>::go(); } MON_TEST(s_ptr_sub) { Sc<Ptr<unsigned>, Ks>::go(); }
#endif
#endif
#if MON_PART(5)
#define IOTA(K) { std::string tag = "<" + K::name() + ">"; for (std::uint64_t it = 0; it < reps(200); ++it) { K k; unsigned x = rng().coin() ? (unsigned)rng().below(100) : ~0u - (unsigned)rng().below(4); T w; for (std::size_t i = 0; i < k.len; ++i) w.push_back(x + (unsigned)i); \
	{ MON_CASE(c, OPN("fixed::iota"), dump(k.full), (int)k.off, (int)k.len, x); chk(c, k, sprout::fixed::iota(k.r, x), w); chk(c, k, sprout::iota(k.r, x), w); T wp; for (std::size_t i = 0; i < K::cap; ++i) wp.push_back(x + (unsigned)i); chkpit<decltype(c), K>(c, sprout::fixed::iota<K::R>(x), wp); } { MON_CASE(c, OPN("fit::iota"), dump(k.full), (int)k.off, (int)k.len, x); chkfit(c, k, sprout::fit::iota(k.r, x), w); } } }
typedef KArr<unsigned, 5> Ka; typedef KArr<unsigned, 1> K1; typedef KSub<unsigned, 6> Ks; typedef KStd<unsigned, 4> Kd;
MON_TEST(iota_) { IOTA(Ka) IOTA(K1) IOTA(Ks) IOTA(Kd) }
// range overloads with container results
template<class K> void rng_forms() { std::string tag = "<" + K::name() + ">"; for (std::uint64_t it = 0; it < reps(150); ++it) { T v = randv(5); auto a = arr<unsigned, 5>(v); std::size_t o = rng().below(6), l = rng().below(6 - o); auto src = sprout::sub(a, (std::ptrdiff_t)o, (std::ptrdiff_t)(o + l)); v = T(v.begin() + o, v.begin() + o + l);
	K k; Op op = {(unsigned)rng().below(5)}; Un un = {(unsigned)rng().below(7)}; unsigned init = (unsigned)rng().below(1000); std::plus<unsigned> pl; std::minus<unsigned> mi;
#define RF(NAME, LABEL, WANT, POST) { T w_ = WANT; { MON_CASE(c, OPN("range::fixed::" LABEL), v, dump(k.full), (int)k.off, (int)k.len); chk(c, k, sprout::range::fixed::NAME(src, k.r UNP(POST)), w_); chk(c, k, sprout::range::NAME(src, k.r UNP(POST)), w_); chkpit<decltype(c), K>(c, sprout::range::fixed::NAME<typename K::R>(src UNP(POST)), w_); } { MON_CASE(c, OPN("range::fit::" LABEL), v, dump(k.full), (int)k.off, (int)k.len); chkfit(c, k, sprout::range::fit::NAME(src, k.r UNP(POST)), w_); } }
	RF(partial_sum, "partial_sum", psum(v, pl), ()) RF(partial_sum, "partial_sum op", psum(v, op), (, op)) RF(adjacent_difference, "adjacent_difference", adiff(v, mi), ()) RF(adjacent_difference, "adjacent_difference op", adiff(v, op), (, op))
	RF(exclusive_scan, "exclusive_scan", exscan(v, init, pl), (, init)) RF(exclusive_scan, "exclusive_scan op", exscan(v, init, op), (, init, op)) RF(inclusive_scan, "inclusive_scan", psum(v, pl), ()) RF(inclusive_scan, "inclusive_scan op", psum(v, op), (, op)) RF(inclusive_scan, "inclusive_scan init", incscan(v, init, op), (, op, init))
	RF(transform_exclusive_scan, "transform_exclusive_scan", exscan(map(v, un), init, op), (, init, op, un)) RF(transform_inclusive_scan, "transform_inclusive_scan", psum(map(v, un), op), (, op, un)) RF(transform_inclusive_scan, "transform_inclusive_scan init", incscan(map(v, un), init, op), (, op, un, init)) } }
MON_TEST(rf_arr) { rng_forms<Ka>(); } MON_TEST(rf_sub) { rng_forms<Ks>(); }
#endif
#if MON_PART(6) && __cplusplus >= 201402L
template<class S, class D> struct I14 { static void go() { std::string tag = "<" + S::name() + "->" + D::name() + ">";
	inputs([&](T const& v) { S s(v); auto b = s.cb(), e = s.ce(); Op op = {(unsigned)rng().below(5)}; Un un = {(unsigned)rng().below(5)}; unsigned init = (unsigned)rng().below(1000); std::plus<unsigned> pl; std::minus<unsigned> mi;
#define IT(LABEL, WANT, CALL) { T w_ = WANT; MON_CASE(c, OPN(LABEL), v, op.k, un.k, init); D o(T(w_.size(), 77u)); auto out = o.mb(); auto r = CALL; c.eq((long)o.off(r), (long)w_.size(), "returned iterator"); c.eq(o.buf.vec(), w_, "written elements"); }
		IT("partial_sum", psum(v, pl), sprout::partial_sum(b, e, out)) IT("partial_sum op", psum(v, op), sprout::partial_sum(b, e, out, op)) IT("adjacent_difference", adiff(v, mi), sprout::adjacent_difference(b, e, out)) IT("adjacent_difference op", adiff(v, op), sprout::adjacent_difference(b, e, out, op))
		IT("exclusive_scan", exscan(v, init, pl), sprout::exclusive_scan(b, e, out, init)) IT("exclusive_scan op", exscan(v, init, op), sprout::exclusive_scan(b, e, out, init, op)) IT("inclusive_scan", psum(v, pl), sprout::inclusive_scan(b, e, out)) IT("inclusive_scan op", psum(v, op), sprout::inclusive_scan(b, e, out, op)) IT("inclusive_scan init", incscan(v, init, op), sprout::inclusive_scan(b, e, out, op, init))
		IT("transform_exclusive_scan", exscan(map(v, un), init, op), sprout::transform_exclusive_scan(b, e, out, init, op, un)) IT("transform_inclusive_scan", psum(map(v, un), op), sprout::transform_inclusive_scan(b, e, out, op, un)) IT("transform_inclusive_scan init", incscan(map(v, un), init, op), sprout::transform_inclusive_scan(b, e, out, op, un, init))
		{ T w; for (std::size_t i = 0; i < v.size(); ++i) w.push_back(init + (unsigned)i); MON_CASE(c, OPN("iota"), (int)v.size(), init); D o(v); sprout::iota(o.mb(), o.me(), init); c.eq(o.buf.vec(), w); }
		{ MON_CASE(c, OPN("scans in the type of init"), v, init); std::vector<unsigned long long> w, o(v.size()); unsigned long long q = init; for (auto x : v) { w.push_back(q); q += x; } sprout::exclusive_scan(b, e, o.begin(), (unsigned long long)init); c.eq(o, w, "exclusive_scan"); auto lop = [](unsigned long long a, unsigned long long x) { return a + x; }; sprout::exclusive_scan(b, e, o.begin(), (unsigned long long)init, lop); c.eq(o, w, "exclusive_scan op"); sprout::transform_exclusive_scan(b, e, o.begin(), (unsigned long long)init, lop, [](unsigned x) { return x; }); c.eq(o, w, "transform_exclusive_scan"); w.push_back(q); o.resize(w.size()); sprout::inclusive_scan(b, e, o.begin(), lop, (unsigned long long)init); c.eq(o, w, "inclusive_scan"); sprout::transform_inclusive_scan(b, e, o.begin(), lop, [](unsigned x) { return x; }, (unsigned long long)init); c.eq(o, w, "transform_inclusive_scan"); }
	}); } };
MON_TEST(i_in_fw) { I14<Src<In, unsigned>, Src<Fw, unsigned> >::go(); } MON_TEST(i_fw_ra) { I14<Src<Fw, unsigned>, Src<Ra, unsigned> >::go(); } MON_TEST(i_ptr) { I14<Ptr<unsigned>, Ptr<unsigned> >::go(); } MON_TEST(i_ra_bi) { I14<Src<Ra, unsigned>, Src<Bi, unsigned> >::go(); }
// in place: the output may be the input
MON_TEST(i_inplace) { std::string tag = " in place"; inputs([&](T const& v) { Op op = {3}; MON_CASE(c, OPN("scans"), v); { Ptr<unsigned> p(v); sprout::partial_sum(p.mb(), p.me(), p.mb(), op); c.eq(p.buf.vec(), psum(v, op), "partial_sum"); } { Ptr<unsigned> p(v); sprout::adjacent_difference(p.mb(), p.me(), p.mb(), op); c.eq(p.buf.vec(), adiff(v, op), "adjacent_difference"); } { Ptr<unsigned> p(v); sprout::exclusive_scan(p.mb(), p.me(), p.mb(), 5u, op); c.eq(p.buf.vec(), exscan(v, 5u, op), "exclusive_scan"); } }); }
MON_TEST(i_range) { std::string tag = ""; for (std::uint64_t it = 0; it < reps(150); ++it) { T v = randv(7); auto a = arr<unsigned, 7>(v); Op op = {(unsigned)rng().below(5)}; Un un = {(unsigned)rng().below(5)}; unsigned init = (unsigned)rng().below(1000); std::plus<unsigned> pl; std::minus<unsigned> mi; typedef Ptr<unsigned> D;
	IT("range partial_sum", psum(v, pl), sprout::range::partial_sum(a, out)) IT("range partial_sum op", psum(v, op), sprout::range::partial_sum(a, out, op)) IT("range adjacent_difference", adiff(v, mi), sprout::range::adjacent_difference(a, out)) IT("range adjacent_difference op", adiff(v, op), sprout::range::adjacent_difference(a, out, op))
	IT("range exclusive_scan", exscan(v, init, pl), sprout::range::exclusive_scan(a, out, init)) IT("range exclusive_scan op", exscan(v, init, op), sprout::range::exclusive_scan(a, out, init, op)) IT("range inclusive_scan", psum(v, pl), sprout::range::inclusive_scan(a, out)) IT("range inclusive_scan op", psum(v, op), sprout::range::inclusive_scan(a, out, op)) IT("range inclusive_scan init", incscan(v, init, op), sprout::range::inclusive_scan(a, out, op, init))
	IT("range transform_exclusive_scan", exscan(map(v, un), init, op), sprout::range::transform_exclusive_scan(a, out, init, op, un)) IT("range transform_inclusive_scan", psum(map(v, un), op), sprout::range::transform_inclusive_scan(a, out, op, un)) IT("range transform_inclusive_scan init", incscan(map(v, un), init, op), sprout::range::transform_inclusive_scan(a, out, op, un, init)) 
	{ MON_CASE(c, "range iota", init); sprout::range::iota(a, init); T w; for (unsigned i = 0; i < 7; ++i) w.push_back(init + i); c.eq(vec(a), w); } } }
#endif
