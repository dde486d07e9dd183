// cxx14 range algorithms: mutate through a range and through the iterator pair, from equal starting states: same final state and same result.
#include "rg.hpp"
#include <sprout/random/linear_congruential.hpp>
#include <sprout/iterator/back_insert_iterator.hpp>
namespace rg = sprout::range;
#define OPN(n) (n + tag)
#define B1 s.mb(), s.me()
template<class S, class I> std::ptrdiff_t of(S const& s, I const& i) { return (int const*)nm(i) - s.cb0(); }
template<class Base> struct M : Base { template<class C> explicit M(C const& c) : Base(c) {} int const* cb0() const { return this->buf.p; } V now() const { return V(this->buf.p, this->buf.p + this->buf.n); } };
template<class S, class X> std::string rs(S const& s, It<X, Fw> const& i) { return str(of(s, i)); }
template<class S, class X> std::string rs(S const& s, It<X, Bi> const& i) { return str(of(s, i)); }
template<class S, class X> std::string rs(S const& s, It<X, Ra> const& i) { return str(of(s, i)); }
template<class S> std::string rs(S const& s, int const* i) { return str(i - s.cb0()); } template<class S> std::string rs(S const& s, int* i) { return str(i - s.cb0()); }
template<class S> std::string rs(S const&, bool b) { return b ? "T" : "F"; }
template<class S, class A, class B> std::string rs(S const& s, sprout::pair<A, B> const& p) { return rs(s, p.first) + "," + rs(s, p.second); }
#define MV(NAME, RA, IA) { MON_CASE(c, OPN(#NAME), v, k, j); S s0(v), s1(v); { S& s = s0; auto r = mkr(B1); rg::NAME RA; } { S& s = s1; sprout::NAME IA; } c.eq(s0.now(), s1.now(), "final state"); }
#define MR(NAME, RA, IA) { MON_CASE(c, OPN(#NAME), v, k, j); S s0(v), s1(v); std::string x0, x1; { S& s = s0; auto r = mkr(B1); x0 = rs(s, rg::NAME RA); } { S& s = s1; x1 = rs(s, sprout::NAME IA); } c.eq(s0.now(), s1.now(), "final state"); c.eq(x0, x1, "result"); }
inline int* lo(int* p) { return p; } template<class A> int* lo(sprout::pair<A, int*> const& p) { return p.second; } inline void const* fi(int*) { return nullptr; } template<class A> void const* fi(sprout::pair<A, int*> const& p) { return nm(p.first); }
// copying ones: output into a fixed guarded buffer of exactly the size the iterator form used
#define OUTN 96
#define MO(NAME, RA, IA) { MON_CASE(c, OPN(#NAME), v, w, k, j); S s(v), t(w); auto r = mkr(s.cb(), s.ce()); auto q = mkr(t.cb(), t.ce()); (void)q; std::vector<int> p1(OUTN, -7), p2(OUTN, -7); int* o = p1.data(); auto e1 = rg::NAME RA; o = p2.data(); auto e2 = sprout::NAME IA; c.eq(p1, p2, "output"); c.eq((std::ptrdiff_t)(lo(e1) - p1.data()), (std::ptrdiff_t)(lo(e2) - p2.data()), "end"); c.ok(fi(e1) == fi(e2), "input end"); }
#define C1 s.cb(), s.ce()
#define C2 t.cb(), t.ce()
template<class F> void work(F f) { for (int n = 0; n <= 4; ++n) all_seqs(n, 3, [&](V const& v) { f(v, V{0, 1}, (int)v.size() / 2); }); for (std::uint64_t i = 0; i < reps(60); ++i) { int hi = (int)rng().pick(V{2, 5, 50}); V v = rand_seq(rand_len(30), 0, hi), w = rand_seq(rand_len(30), 0, hi); f(v, w, (int)rng().range(0, (int)v.size())); } }
template<class S> void fwd() { std::string tag = "<" + S::name() + ">"; work([&](V const& v, V const& w, int j) { int k = w.empty() ? 1 : w[0]; Geq ge(k); EqMod em(2); Desc ds(1);
#if MON_PART(0)
	MV(fill, (r, k), (B1, k)) { int g1 = 0, g2 = 0; MON_CASE(c, OPN("generate"), v); S s0(v), s1(v); auto r = mkr(s0.mb(), s0.me()); rg::generate(r, [&]() { return g1++ * 3; }); sprout::generate(s1.mb(), s1.me(), [&]() { return g2++ * 3; }); c.eq(s0.now(), s1.now()); c.eq(g1, (int)v.size(), "calls"); }
	{ MON_CASE(c, OPN("for_each"), v); S s0(v); auto r = mkr(s0.mb(), s0.me()); V seen; rg::for_each(r, [&](int& x) { seen.push_back(x); x += 2; }); c.eq(seen, v, "order"); V x(v); for (auto& y : x) y += 2; c.eq(s0.now(), x, "effects"); }
	{ MON_CASE(c, OPN("iota"), v); S s0(v); auto r = mkr(s0.mb(), s0.me()); rg::iota(r, 5); V x(v.size()); std::iota(x.begin(), x.end(), 5); c.eq(s0.now(), x); }
	MR(remove, (r, k), (B1, k)) MR(remove_if, (r, ge), (B1, ge)) MV(replace, (r, k, 9), (B1, k, 9)) MV(replace_if, (r, ge, 9), (B1, ge, 9)) MR(unique, (r), (B1)) MR(unique, (r, em), (B1, em)) MR(rotate, (r, s.mat(j)), (s.mb(), s.mat(j), s.me())) MR(partition, (r, ge), (B1, ge))
	MV(clamp_range, (r, s.mb(), 1, 2), (B1, s.mb(), 1, 2)) MV(clamp_range, (r, s.mb(), 2, 1, ds), (B1, s.mb(), 2, 1, ds))
	{ MON_CASE(c, OPN("swap_ranges"), v, w); V a(v), b(w); b.resize(a.size(), 4); S s(a), t(b); auto r = mkr(B1); auto q = mkr(t.mb(), t.me()); auto e = rg::swap_ranges(r, q); c.eq(s.now(), b, "first"); c.eq(t.now(), a, "second"); c.ok(of(t, e) == (std::ptrdiff_t)a.size(), "result"); }
	{ MON_CASE(c, OPN("remove/std"), v, k); S s(v); auto r = mkr(B1); auto e = rg::remove(r, k); V x(v); x.erase(std::remove(x.begin(), x.end(), k), x.end()); V g = s.now(); g.resize(of(s, e)); c.eq(g, x); }
#endif
#if MON_PART(1)
	MO(copy, (r, o), (C1, o)) MO(copy_if, (r, o, ge), (C1, o, ge)) MO(copy_until, (r, o, ge), (C1, o, ge)) MO(copy_while, (r, o, ge), (C1, o, ge)) MO(move, (r, o), (C1, o)) MO(remove_copy, (r, o, k), (C1, o, k)) MO(remove_copy_if, (r, o, ge), (C1, o, ge)) MO(replace_copy, (r, o, k, 9), (C1, o, k, 9)) MO(replace_copy_if, (r, o, ge, 9), (C1, o, ge, 9)) MO(rotate_copy, (r, s.cat(j), o), (s.cb(), s.cat(j), s.ce(), o)) MO(unique_copy, (r, o), (C1, o)) MO(unique_copy, (r, o, em), (C1, o, em))
	MO(transform, (r, o, [](int x) { return x * 3 + 1; }), (C1, o, [](int x) { return x * 3 + 1; })) MO(partial_sum, (r, o), (C1, o)) MO(partial_sum, (r, o, std::minus<int>()), (C1, o, std::minus<int>())) MO(adjacent_difference, (r, o), (C1, o)) MO(adjacent_difference, (r, o, std::plus<int>()), (C1, o, std::plus<int>()))
	MO(exclusive_scan, (r, o, 5), (C1, o, 5)) MO(exclusive_scan, (r, o, 5, std::minus<int>()), (C1, o, 5, std::minus<int>())) MO(inclusive_scan, (r, o), (C1, o)) MO(inclusive_scan, (r, o, std::plus<int>()), (C1, o, std::plus<int>())) MO(inclusive_scan, (r, o, std::plus<int>(), 5), (C1, o, std::plus<int>(), 5))
	auto un = [](int x) { return x * 2 + 1; }; MO(transform_exclusive_scan, (r, o, 5, std::plus<int>(), un), (C1, o, 5, std::plus<int>(), un)) MO(transform_inclusive_scan, (r, o, std::plus<int>(), un), (C1, o, std::plus<int>(), un)) MO(transform_inclusive_scan, (r, o, std::plus<int>(), un, 5), (C1, o, std::plus<int>(), un, 5))
	{ MON_CASE(c, OPN("partition_copy"), v); S s(v); auto r = mkr(C1); V p1(OUTN, -7), p2(OUTN, -7), q1(OUTN, -7), q2(OUTN, -7); auto e = rg::partition_copy(r, p1.data(), p2.data(), ge); auto e2 = sprout::partition_copy(C1, q1.data(), q2.data(), ge); c.eq(p1, q1); c.eq(p2, q2); c.ok(e.first - p1.data() == e2.first - q1.data() && e.second - p2.data() == e2.second - q2.data(), "ends"); }
	{ V& nv = const_cast<V&>(v); (void)nv; V x(v), y(w); y.resize(x.size(), 3); V const& v = x; V const& w = y; MO(transform, (r, q, o, std::minus<int>()), (C1, t.cb(), o, std::minus<int>())) }
	{ V x(v), y(w); std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); { V const& v = x; V const& w = y; MO(merge, (r, q, o), (C1, C2, o)) MO(set_difference, (r, q, o), (C1, C2, o)) MO(set_intersection, (r, q, o), (C1, C2, o)) MO(set_symmetric_difference, (r, q, o), (C1, C2, o)) MO(set_union, (r, q, o), (C1, C2, o)) } std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); { V const& v = x; V const& w = y; MO(merge, (r, q, o, ds), (C1, C2, o, ds)) MO(set_difference, (r, q, o, ds), (C1, C2, o, ds)) MO(set_intersection, (r, q, o, ds), (C1, C2, o, ds)) MO(set_symmetric_difference, (r, q, o, ds), (C1, C2, o, ds)) MO(set_union, (r, q, o, ds), (C1, C2, o, ds)) } }
#endif
}); }
template<class S> void bid() { std::string tag = "<" + S::name() + ">"; work([&](V const& v, V const& w, int j) { int k = w.empty() ? 1 : w[0]; Geq ge(k); Desc ds(1);
#if MON_PART(2)
	MV(reverse, (r), (B1)) MR(stable_partition, (r, ge), (B1, ge)) MR(next_permutation, (r), (B1)) MR(next_permutation, (r, ds), (B1, ds)) MR(prev_permutation, (r), (B1)) MR(prev_permutation, (r, ds), (B1, ds)) MR(gather, (r, s.mat(j), ge), (B1, s.mat(j), ge))
	{ V const v0(v); V x(v); std::sort(x.begin(), x.begin() + j); std::sort(x.begin() + j, x.end()); { V const& v = x; MV(inplace_merge, (r, s.mat(j)), (s.mb(), s.mat(j), s.me())) } std::sort(x.begin(), x.begin() + j, ds); std::sort(x.begin() + j, x.end(), ds); { V const& v = x; MV(inplace_merge, (r, s.mat(j), ds), (s.mb(), s.mat(j), s.me(), ds)) } }
	MO(reverse_copy, (r, o), (C1, o)) MO(copy_backward, (r, o + 60), (C1, o + 60)) MO(move_backward, (r, o + 60), (C1, o + 60))
	{ MON_CASE(c, OPN("next_permutation/std"), v); S s(v); auto r = mkr(B1); bool b = rg::next_permutation(r); V x(v); bool y = std::next_permutation(x.begin(), x.end()); c.eq(s.now(), x); c.eq(b, y, "result"); }
#endif
}); }
struct RandN { std::uint32_t x; explicit RandN(std::uint32_t s) : x(s) {} std::ptrdiff_t operator()(std::ptrdiff_t n) { x = x * 1664525u + 1013904223u; return n ? (std::ptrdiff_t)(x >> 8) % n : 0; } };
template<class S> void rac() { std::string tag = "<" + S::name() + ">"; work([&](V const& v, V const& w, int j) { int k = w.empty() ? 1 : w[0]; Desc ds(1);
#if MON_PART(3)
	MV(sort, (r), (B1)) MV(sort, (r, ds), (B1, ds)) MV(stable_sort, (r), (B1)) MV(stable_sort, (r, ds), (B1, ds)) MV(make_heap, (r), (B1)) MV(make_heap, (r, ds), (B1, ds)) MV(partial_sort, (r, s.mat(j)), (s.mb(), s.mat(j), s.me())) MV(partial_sort, (r, s.mat(j), ds), (s.mb(), s.mat(j), s.me(), ds))
	if ((std::size_t)j < v.size()) { MV(nth_element, (r, s.mat(j)), (s.mb(), s.mat(j), s.me())) MV(nth_element, (r, s.mat(j), ds), (s.mb(), s.mat(j), s.me(), ds)) }
	{ V x(v); std::make_heap(x.begin(), x.end()); V y(v); if (!y.empty()) std::make_heap(y.begin(), y.end() - 1); { V const& v = x; MV(sort_heap, (r), (B1)) if (x.size()) MV(pop_heap, (r), (B1)) } { V const& v = y; if (y.size()) MV(push_heap, (r), (B1)) } }
	{ V x(v); std::make_heap(x.begin(), x.end(), ds); V y(v); if (!y.empty()) std::make_heap(y.begin(), y.end() - 1, ds); { V const& v = x; MV(sort_heap, (r, ds), (B1, ds)) if (x.size()) MV(pop_heap, (r, ds), (B1, ds)) } { V const& v = y; if (y.size()) MV(push_heap, (r, ds), (B1, ds)) } }
	{ MON_CASE(c, OPN("sort/std"), v); S s(v); auto r = mkr(B1); rg::sort(r); V x(v); std::sort(x.begin(), x.end()); c.eq(s.now(), x); rg::stable_sort(r, ds); std::reverse(x.begin(), x.end()); c.eq(s.now(), x, "desc"); }
	{ MON_CASE(c, OPN("partial_sort_copy"), v, j); S s(v); V ob(j, -7), ob2(j, -7); S o1(ob); auto r = mkr(C1); auto q = mkr(o1.mb(), o1.me()); auto e = rg::partial_sort_copy(r, q); auto x = std::partial_sort_copy(v.begin(), v.end(), ob2.begin(), ob2.end()); c.eq(o1.now(), ob2); c.eq(of(o1, e), (std::ptrdiff_t)(x - ob2.begin()), "end"); auto e2 = rg::partial_sort_copy(r, q, ds); std::partial_sort_copy(v.begin(), v.end(), ob2.begin(), ob2.end(), ds); c.eq(o1.now(), ob2, "desc"); c.ok(of(o1, e2) == x - ob2.begin(), "end desc"); }
	{ std::uint32_t sd = 1 + (std::uint32_t)v.size() * 77; MV(shuffle, (r, sprout::minstd_rand0(sd)), (B1, sprout::minstd_rand0(sd))) MV(random_shuffle, (r, RandN(sd)), (B1, RandN(sd))) if (v.size()) MV(random_swap, (r, sprout::minstd_rand0(sd)), (B1, sprout::minstd_rand0(sd))) if (v.size() <= 3) { MV(bogo_sort, (r, sprout::minstd_rand0(sd)), (B1, sprout::minstd_rand0(sd))) MV(bozo_sort, (r, sprout::minstd_rand0(sd), ds), (B1, sprout::minstd_rand0(sd), ds)) }
	MO(sample, (r, o, j, sprout::minstd_rand0(sd)), (C1, o, j, sprout::minstd_rand0(sd))) }
	(void)k;
#endif
}); }
typedef M<SFw> MFw; typedef M<SBi> MBi; typedef M<SRa> MRa; typedef M<SPt> MPt;
#if MON_PART(0) || MON_PART(1)
MON_TEST(fw_fw) { fwd<MFw>(); } MON_TEST(fw_bi) { fwd<MBi>(); } MON_TEST(fw_ra) { fwd<MRa>(); } MON_TEST(fw_pt) { fwd<MPt>(); }
#endif
#if MON_PART(2)
MON_TEST(bi_bi) { bid<MBi>(); } MON_TEST(bi_ra) { bid<MRa>(); } MON_TEST(bi_pt) { bid<MPt>(); }
#endif
#if MON_PART(3)
MON_TEST(ra_ra) { rac<MRa>(); } MON_TEST(ra_pt) { rac<MPt>(); }
#endif
