#include <src.hpp>
#include <sprout/algorithm/non_modifying.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/algorithm/searching.hpp>
#include <sprout/array.hpp>
#include <sprout/functional.hpp>
#include <list>
using namespace mon;
typedef std::vector<int> V;
#define OPN(n) (n + tag)

#if MON_PART(0)
template<class S> void unary() {
	std::string tag = "<" + S::name() + ">";
	workload(5, 3, reps(600), 300, [&](V const& v) {
		S s(v); auto b = s.cb(), e = s.ce(); V const& w = v; int k = (int)rng().range(0, 2); if (rng().coin(1, 6) && !v.empty()) k = rng().pick(v);
		Geq p(k); Is q(k);
		{ MON_CASE(c, OPN("all_of"), v, k); c.eq(sprout::all_of(b, e, p), std::all_of(w.begin(), w.end(), p)); }
		{ MON_CASE(c, OPN("any_of"), v, k); c.eq(sprout::any_of(b, e, p), std::any_of(w.begin(), w.end(), p)); }
		{ MON_CASE(c, OPN("none_of"), v, k); c.eq(sprout::none_of(b, e, p), std::none_of(w.begin(), w.end(), p)); }
		{ MON_CASE(c, OPN("one_of"), v, k); c.eq(sprout::one_of(b, e, p), std::count_if(w.begin(), w.end(), p) == 1); c.eq(sprout::one_of(b, e, q), std::count(w.begin(), w.end(), k) == 1); }
		{ MON_CASE(c, OPN("all_of_equal"), v, k); c.eq(sprout::all_of_equal(b, e, k), std::all_of(w.begin(), w.end(), q)); }
		{ MON_CASE(c, OPN("any_of_equal"), v, k); c.eq(sprout::any_of_equal(b, e, k), std::any_of(w.begin(), w.end(), q)); }
		{ MON_CASE(c, OPN("none_of_equal"), v, k); c.eq(sprout::none_of_equal(b, e, k), std::none_of(w.begin(), w.end(), q)); }
		{ MON_CASE(c, OPN("one_of_equal"), v, k); c.eq(sprout::one_of_equal(b, e, k), std::count(w.begin(), w.end(), k) == 1); }
		{ MON_CASE(c, OPN("find"), v, k); c.eq(s.off(sprout::find(b, e, k)), std::find(w.begin(), w.end(), k) - w.begin()); }
		{ MON_CASE(c, OPN("find_if"), v, k); c.eq(s.off(sprout::find_if(b, e, p)), std::find_if(w.begin(), w.end(), p) - w.begin()); }
		{ MON_CASE(c, OPN("find_if_not"), v, k); c.eq(s.off(sprout::find_if_not(b, e, p)), std::find_if_not(w.begin(), w.end(), p) - w.begin()); }
		{ MON_CASE(c, OPN("count"), v, k); c.eq(sprout::count(b, e, k), std::count(w.begin(), w.end(), k)); }
		{ MON_CASE(c, OPN("count_if"), v, k); c.eq(sprout::count_if(b, e, p), std::count_if(w.begin(), w.end(), p)); }
		{ MON_CASE(c, OPN("is_partitioned"), v, k); c.eq(sprout::is_partitioned(b, e, p), std::is_partitioned(w.begin(), w.end(), p)); 
		  V x(v); std::partition(x.begin(), x.end(), p); S sx(x); c.eq(sprout::is_partitioned(sx.cb(), sx.ce(), p), true, "partitioned copy"); }
		// sub-range: nothing outside may influence the result
		if (v.size() >= 2) { std::size_t i = rng().below(v.size()), j = i + rng().below(v.size() - i + 1); 
			MON_CASE(c, OPN("subrange"), v, i, j, k); c.eq(s.off(sprout::find(s.cat(i), s.cat(j), k)), std::find(w.begin() + i, w.begin() + j, k) - w.begin(), "find");
			c.eq(sprout::count(s.cat(i), s.cat(j), k), std::count(w.begin() + i, w.begin() + j, k), "count"); c.eq(sprout::all_of(s.cat(i), s.cat(j), p), std::all_of(w.begin() + i, w.begin() + j, p), "all_of");
			c.eq(sprout::one_of(s.cat(i), s.cat(j), p), std::count_if(w.begin() + i, w.begin() + j, p) == 1, "one_of"); }
	});
}
MON_SRC_TESTS(unary, int)

#endif
#if MON_PART(1)
template<class S> void ordered() {
	std::string tag = "<" + S::name() + ">";
	auto body = [&](V const& v) {
		S s(v); auto b = s.cb(), e = s.ce(); V const& w = v; Desc d(1); ByMod m((int)rng().range(2, 3)); EqMod eqm(2);
		{ MON_CASE(c, OPN("adjacent_find"), v); c.eq(s.off(sprout::adjacent_find(b, e)), std::adjacent_find(w.begin(), w.end()) - w.begin()); c.eq(s.off(sprout::adjacent_find(b, e, d)), std::adjacent_find(w.begin(), w.end(), d) - w.begin(), "pred"); c.eq(s.off(sprout::adjacent_find(b, e, eqm)), std::adjacent_find(w.begin(), w.end(), eqm) - w.begin(), "pred mod 2"); }
		{ MON_CASE(c, OPN("is_sorted"), v); c.eq(sprout::is_sorted(b, e), std::is_sorted(w.begin(), w.end())); c.eq(sprout::is_sorted(b, e, d), std::is_sorted(w.begin(), w.end(), d), "desc"); c.eq(sprout::is_sorted(b, e, m), std::is_sorted(w.begin(), w.end(), m), "mod"); }
		{ MON_CASE(c, OPN("is_sorted_until"), v); c.eq(s.off(sprout::is_sorted_until(b, e)), std::is_sorted_until(w.begin(), w.end()) - w.begin()); c.eq(s.off(sprout::is_sorted_until(b, e, d)), std::is_sorted_until(w.begin(), w.end(), d) - w.begin(), "desc"); c.eq(s.off(sprout::is_sorted_until(b, e, m)), std::is_sorted_until(w.begin(), w.end(), m) - w.begin(), "mod"); }
		{ MON_CASE(c, OPN("is_increasing"), v); c.eq(sprout::is_increasing(b, e), std::is_sorted(w.begin(), w.end())); }
		{ MON_CASE(c, OPN("is_decreasing"), v); c.eq(sprout::is_decreasing(b, e), std::is_sorted(w.begin(), w.end(), d)); }
		{ MON_CASE(c, OPN("is_strictly_increasing"), v); c.eq(sprout::is_strictly_increasing(b, e), std::adjacent_find(w.begin(), w.end(), [](int x, int y) { return !(x < y); }) == w.end()); }
		{ MON_CASE(c, OPN("is_strictly_decreasing"), v); c.eq(sprout::is_strictly_decreasing(b, e), std::adjacent_find(w.begin(), w.end(), [](int x, int y) { return !(y < x); }) == w.end()); }
		{ MON_CASE(c, OPN("max_element"), v); c.eq(s.off(sprout::max_element(b, e)), std::max_element(w.begin(), w.end()) - w.begin()); c.eq(s.off(sprout::max_element(b, e, d)), std::max_element(w.begin(), w.end(), d) - w.begin(), "desc"); c.eq(s.off(sprout::max_element(b, e, m)), std::max_element(w.begin(), w.end(), m) - w.begin(), "mod"); }
		{ MON_CASE(c, OPN("min_element"), v); c.eq(s.off(sprout::min_element(b, e)), std::min_element(w.begin(), w.end()) - w.begin()); c.eq(s.off(sprout::min_element(b, e, d)), std::min_element(w.begin(), w.end(), d) - w.begin(), "desc"); c.eq(s.off(sprout::min_element(b, e, m)), std::min_element(w.begin(), w.end(), m) - w.begin(), "mod"); }
		{ MON_CASE(c, OPN("minmax_element"), v); auto r = sprout::minmax_element(b, e); auto x = std::minmax_element(w.begin(), w.end()); c.eq(s.off(r.first), x.first - w.begin(), "min"); c.eq(s.off(r.second), x.second - w.begin(), "max");
		  auto r2 = sprout::minmax_element(b, e, m); auto x2 = std::minmax_element(w.begin(), w.end(), m); c.eq(s.off(r2.first), x2.first - w.begin(), "min mod"); c.eq(s.off(r2.second), x2.second - w.begin(), "max mod"); }
	};
	workload(5, 3, reps(500), 300, body);
	for (std::uint64_t i = 0; i < reps(300); ++i) { // nearly sorted: one flaw at a random place
		V v = rand_seq(rand_len(300), 0, 400); std::sort(v.begin(), v.end()); if (rng().coin()) std::reverse(v.begin(), v.end()); if (rng().coin(1, 3)) v.erase(std::unique(v.begin(), v.end()), v.end());
		if (v.size() > 1 && rng().coin(3, 4)) { std::size_t j = rng().below(v.size() - 1); if (rng().coin()) v[j + 1] = v[j]; else std::swap(v[j], v[j + 1]); }
		body(v);
	}
}
MON_SRC_TESTS_FW(ordered, int)

template<class S> void heapq() {
	std::string tag = "<" + S::name() + ">";
	auto body = [&](V const& v) {
		S s(v); auto b = s.cb(), e = s.ce(); V const& w = v; Desc d(1); ByMod m(3);
		{ MON_CASE(c, OPN("is_heap"), v); c.eq(sprout::is_heap(b, e), std::is_heap(w.begin(), w.end())); c.eq(sprout::is_heap(b, e, d), std::is_heap(w.begin(), w.end(), d), "desc"); c.eq(sprout::is_heap(b, e, m), std::is_heap(w.begin(), w.end(), m), "mod"); }
		{ MON_CASE(c, OPN("is_heap_until"), v); c.eq(s.off(sprout::is_heap_until(b, e)), std::is_heap_until(w.begin(), w.end()) - w.begin()); c.eq(s.off(sprout::is_heap_until(b, e, d)), std::is_heap_until(w.begin(), w.end(), d) - w.begin(), "desc"); c.eq(s.off(sprout::is_heap_until(b, e, m)), std::is_heap_until(w.begin(), w.end(), m) - w.begin(), "mod"); }
	};
	workload(6, 3, reps(300), 200, body);
	for (std::uint64_t i = 0; i < reps(400); ++i) { V v = rand_seq(rand_len(200), 0, (int)rng().range(1, 300)); std::make_heap(v.begin(), v.end()); if (!v.empty() && rng().coin(3, 4)) v[rng().below(v.size())] += (int)rng().range(0, 3); body(v); }
}
MON_SRC_TESTS_RA(heapq, int)

#endif
typedef Src<In, int> SI; typedef Src<In, int, NonLit> SIN; typedef Src<Fw, int> SF; typedef Src<Fw, int, NonLit> SFN; typedef Src<Ra, int> SR; typedef Src<Ra, int, NonLit> SRN; typedef Src<Bi, int> SB; typedef Ptr<int> SP;
#if MON_PART(2)
template<class S, class S2> void pairwise(bool) {
	std::string tag = "<" + S::name() + "," + S2::name() + ">";
	auto body = [&](V const& v, V const& u) {
		S s(v); S2 t(u); auto b1 = s.cb(), e1 = s.ce(); auto b2 = t.cb(), e2 = t.ce(); EqMod m(2); Desc d(1); ByMod bm(2);
		if (u.size() >= v.size()) {
			{ MON_CASE(c, OPN("equal3"), v, u); c.eq(sprout::equal(b1, e1, b2), std::equal(v.begin(), v.end(), u.begin())); c.eq(sprout::equal(b1, e1, b2, m), std::equal(v.begin(), v.end(), u.begin(), m), "pred"); }
			{ MON_CASE(c, OPN("mismatch3"), v, u); auto r = sprout::mismatch(b1, e1, b2); auto x = std::mismatch(v.begin(), v.end(), u.begin()); c.eq(s.off(r.first), x.first - v.begin(), "first"); c.eq(t.off(r.second), x.second - u.begin(), "second");
			  auto r2 = sprout::mismatch(b1, e1, b2, m); auto x2 = std::mismatch(v.begin(), v.end(), u.begin(), m); c.eq(s.off(r2.first), x2.first - v.begin(), "first pred"); c.eq(t.off(r2.second), x2.second - u.begin(), "second pred"); }
		}
		std::size_t n = std::min(u.size(), v.size()); auto mm = std::mismatch(v.begin(), v.begin() + n, u.begin()); auto mp = std::mismatch(v.begin(), v.begin() + n, u.begin(), m);
		{ MON_CASE(c, OPN("equal4"), v, u); c.eq(sprout::equal(b1, e1, b2, e2), u == v); c.eq(sprout::equal(b1, e1, b2, e2, m), u.size() == v.size() && mp.first == v.end(), "pred"); }
		{ MON_CASE(c, OPN("mismatch4"), v, u); auto r = sprout::mismatch(b1, e1, b2, e2); c.eq(s.off(r.first), mm.first - v.begin(), "first"); c.eq(t.off(r.second), mm.second - u.begin(), "second"); auto r2 = sprout::mismatch(b1, e1, b2, e2, m); c.eq(s.off(r2.first), mp.first - v.begin(), "first pred"); c.eq(t.off(r2.second), mp.second - u.begin(), "second pred"); }
		{ MON_CASE(c, OPN("lexicographical_compare"), v, u); c.eq(sprout::lexicographical_compare(b1, e1, b2, e2), v < u); c.eq(sprout::lexicographical_compare(b1, e1, b2, e2, d), std::lexicographical_compare(v.begin(), v.end(), u.begin(), u.end(), d), "desc"); c.eq(sprout::lexicographical_compare(b1, e1, b2, e2, bm), std::lexicographical_compare(v.begin(), v.end(), u.begin(), u.end(), bm), "mod"); }
		{ MON_CASE(c, OPN("tristate_lexicographical_compare"), v, u); c.eq(sprout::tristate_lexicographical_compare(b1, e1, b2, e2), v < u ? -1 : u < v ? 1 : 0);
		  c.eq(sprout::tristate_lexicographical_compare(b1, e1, b2, e2, bm), std::lexicographical_compare(v.begin(), v.end(), u.begin(), u.end(), bm) ? -1 : std::lexicographical_compare(u.begin(), u.end(), v.begin(), v.end(), bm) ? 1 : 0, "mod"); 
		  // delimited form: an element equal to the delimiter ends the sequence
		  V vd(v.begin(), std::find(v.begin(), v.end(), 2)), ud(u.begin(), std::find(u.begin(), u.end(), 1));
		  bool delimited = vd.size() < v.size() && ud.size() < u.size();
		  if (delimited) c.eq(sprout::tristate_lexicographical_compare(b1, e1, 2, b2, e2, 1), vd < ud ? -1 : ud < vd ? 1 : 0, "delimited"); }
	};
	std::vector<V> sm; for (int n = 0; n <= 3; ++n) all_seqs(n, 3, [&](V const& v) { sm.push_back(v); });
	for (auto& a : sm) for (auto& b : sm) body(a, b);
	for (std::uint64_t i = 0; i < reps(700); ++i) { V v = rand_seq(rand_len(200), 0, (int)rng().range(0, 4)), u(v); if (rng().coin()) u.resize(rand_len(200), 1); if (!u.empty() && rng().coin(3, 4)) u[rng().below(u.size())] = (int)rng().range(0, 4); body(v, u); }
}
#define PW(n, A, B) MON_TEST(pairwise_##n) { pairwise<A, B>(true); }
PW(in_in, SI, SI) PW(inn_fw, SIN, SF) PW(fw_ra, SF, SR) PW(ra_ra, SR, SR) PW(rn_rn, SRN, SRN) PW(ra_in, SR, SI) PW(bi_bi, SB, SB) PW(ptr_ptr, SP, SP)  PW(ptr_ra, SP, SR) PW(ra_ptr, SR, SP) PW(fn_fn, SFN, SFN)

#endif
#if MON_PART(3)
template<class S, class S2> void searches(bool) {
	std::string tag = "<" + S::name() + "," + S2::name() + ">";
	auto body = [&](V const& v, V const& u) {
		S s(v); S2 t(u); auto b1 = s.cb(), e1 = s.ce(); auto b2 = t.cb(), e2 = t.ce(); EqMod m(2); Less ls;
		{ MON_CASE(c, OPN("search"), v, u); c.eq(s.off(sprout::search(b1, e1, b2, e2)), std::search(v.begin(), v.end(), u.begin(), u.end()) - v.begin()); c.eq(s.off(sprout::search(b1, e1, b2, e2, m)), std::search(v.begin(), v.end(), u.begin(), u.end(), m) - v.begin(), "pred"); }
		{ MON_CASE(c, OPN("default_searcher"), v, u); sprout::default_searcher<decltype(b2)> sr(b2, e2); c.eq(s.off(sprout::search(b1, e1, sr)), std::search(v.begin(), v.end(), u.begin(), u.end()) - v.begin()); sprout::default_searcher<decltype(b2), EqMod> sm(b2, e2, m); c.eq(s.off(sprout::search(b1, e1, sm)), std::search(v.begin(), v.end(), u.begin(), u.end(), m) - v.begin(), "pred"); }
		{ MON_CASE(c, OPN("find_end"), v, u); c.eq(s.off(sprout::find_end(b1, e1, b2, e2)), std::find_end(v.begin(), v.end(), u.begin(), u.end()) - v.begin()); c.eq(s.off(sprout::find_end(b1, e1, b2, e2, m)), std::find_end(v.begin(), v.end(), u.begin(), u.end(), m) - v.begin(), "pred"); }
		{ MON_CASE(c, OPN("find_first_of"), v, u); c.eq(s.off(sprout::find_first_of(b1, e1, b2, e2)), std::find_first_of(v.begin(), v.end(), u.begin(), u.end()) - v.begin()); c.eq(s.off(sprout::find_first_of(b1, e1, b2, e2, ls)), std::find_first_of(v.begin(), v.end(), u.begin(), u.end(), ls) - v.begin(), "pred <"); }
		if (u.size() >= v.size()) { MON_CASE(c, OPN("is_permutation3"), v, u); c.eq(sprout::is_permutation(b1, e1, b2), std::is_permutation(v.begin(), v.end(), u.begin())); c.eq(sprout::is_permutation(b1, e1, b2, m), std::is_permutation(v.begin(), v.end(), u.begin(), m), "pred"); }
		{ MON_CASE(c, OPN("is_permutation4"), v, u); c.eq(sprout::is_permutation(b1, e1, b2, e2), v.size() == u.size() && std::is_permutation(v.begin(), v.end(), u.begin())); c.eq(sprout::is_permutation(b1, e1, b2, e2, m), v.size() == u.size() && std::is_permutation(v.begin(), v.end(), u.begin(), m), "pred"); }
	};
	std::vector<V> sm; for (int n = 0; n <= 4; ++n) all_seqs(n, 2, [&](V const& v) { sm.push_back(v); }); for (int n = 1; n <= 2; ++n) all_seqs(n, 3, [&](V const& v) { sm.push_back(v); });
	for (auto& a : sm) for (auto& b : sm) body(a, b);
	for (std::uint64_t i = 0; i < reps(300); ++i) { // a planted needle at a random place
		V v = rand_seq(rand_len(130), 0, (int)rng().range(1, 2)), u = rand_seq(1 + rng().below(9), 0, 2);
		if (rng().coin() && v.size() >= u.size()) std::copy(u.begin(), u.end(), v.begin() + rng().below(v.size() - u.size() + 1));
		if (rng().coin(1, 3)) { u = v; for (std::size_t k = u.size(); k > 1; --k) std::swap(u[k - 1], u[rng().below(k)]); if (!u.empty() && rng().coin(1, 3)) u[rng().below(u.size())] ^= 1; }
		body(v, u);
	}
}
#define SE(n, A, B) MON_TEST(searches_##n) { searches<A, B>(true); }
SE(fw_fw, SF, SF) SE(fn_fn, SFN, SFN) SE(ra_ra, SR, SR) SE(rn_rn, SRN, SRN) SE(bi_bi, SB, SB) SE(ptr_ptr, SP, SP) SE(ra_fw, SR, SF) SE(fw_ra, SF, SR)

#endif
#if MON_PART(0)
template<class S> void searchn() {
	std::string tag = "<" + S::name() + ">";
	auto body = [&](V const& v, int n, int k) { S s(v); EqMod m(2);
		MON_CASE(c, OPN("search_n"), v, n, k); c.eq(s.off(sprout::search_n(s.cb(), s.ce(), n, k)), std::search_n(v.begin(), v.end(), n, k) - v.begin()); c.eq(s.off(sprout::search_n(s.cb(), s.ce(), n, k, m)), std::search_n(v.begin(), v.end(), n, k, m) - v.begin(), "pred"); };
	for (int n = 0; n <= 7; ++n) all_seqs(n, 2, [&](V const& v) { for (int k = 0; k <= 5; ++k) body(v, k, 1); });
	for (std::uint64_t i = 0; i < reps(1000); ++i) { V v = rand_seq(rand_len(150), 0, 1); if (rng().coin()) for (auto& x : v) if (rng().coin(2, 3)) x = 1; body(v, (int)rng().range(0, 12), 1); }
}
MON_SRC_TESTS_FW(searchn, int)

MON_TEST(values) {
	for (int a = -3; a <= 3; ++a) for (int b = -3; b <= 3; ++b) {
		Tag x(a, 1), y(b, 2); MON_CASE(c, "min/max(a,b)", a, b); Desc d(1);
		c.eq(&sprout::min(x, y) == &std::min(x, y), true, "min identity"); c.eq(&sprout::max(x, y) == &std::max(x, y), true, "max identity");
		c.eq(&sprout::min(x, y, d) == &std::min(x, y, d), true, "min desc identity"); c.eq(&sprout::max(x, y, d) == &std::max(x, y, d), true, "max desc identity");
		auto r = sprout::minmax(x, y); auto s = std::minmax(x, y); c.eq(&r.first == &s.first && &r.second == &s.second, true, "minmax identity");
		auto r2 = sprout::minmax(x, y, d); auto s2 = std::minmax(x, y, d); c.eq(&r2.first == &s2.first && &r2.second == &s2.second, true, "minmax desc identity");
		c.eq(sprout::abs_diff(a, b), std::abs(a - b), "abs_diff"); c.eq(sprout::abs_diff((unsigned)(a + 3), (unsigned)(b + 3)), (unsigned)std::abs(a - b), "abs_diff unsigned");
		c.eq(sprout::abs_diff(a, b, d), -std::abs(a - b), "abs_diff comp"); c.eq(sprout::abs_diff(a, b, Less(), [](int p, int q) { return 10 * (p - q); }), 10 * std::abs(a - b), "abs_diff comp diff");
		for (int h = b; h <= 3; ++h) { Tag z(h, 3); MON_CASE(c2, "clamp", a, b, h); Tag const* w = a < b ? &y : h < a ? &z : &x; c2.eq(&sprout::clamp(x, y, z) == w, true); c2.eq(&sprout::clamp(x, z, y, d) == (b > a ? &y : a > h ? &z : &x), true, "comp"); c2.eq(sprout::clamp(a, b, h), std::min(std::max(a, b), h), "int"); c2.eq(sprout::clamp((double)a, b, h), (double)std::min(std::max(a, b), h), "double"); }
		for (int e = -3; e <= 3; ++e) for (int f = -2; f <= 2; ++f) { MON_CASE(c3, "min/max(init list)", a, b, e, f); std::initializer_list<Tag> il = {Tag(a, 1), Tag(b, 2), Tag(e, 3), Tag(f, 4)};
			c3.eq(sprout::min(il).id, std::min(il).id, "min"); c3.eq(sprout::max(il).id, std::max(il).id, "max"); c3.eq(sprout::min(il, d).id, std::min(il, d).id, "min desc"); c3.eq(sprout::max(il, d).id, std::max(il, d).id, "max desc");
			auto p = sprout::minmax(il); auto q = std::minmax(il); c3.eq(p.first.id, q.first.id, "minmax.first"); c3.eq(p.second.id, q.second.id, "minmax.second"); auto p2 = sprout::minmax(il, d); auto q2 = std::minmax(il, d); c3.eq(p2.first.id, q2.first.id, "minmax.first desc"); c3.eq(p2.second.id, q2.second.id, "minmax.second desc"); }
	}
	// initializer lists of every length
	for (std::uint64_t i = 0; i < reps(200); ++i) { int v[9]; for (auto& x : v) x = (int)rng().range(-100, 100);
		MON_CASE(c, "min/max(init list n)", V(v, v + 9)); std::initializer_list<int> l1 = {v[0]}, l2 = {v[0], v[1]}, l3 = {v[0], v[1], v[2]}, l5 = {v[0], v[1], v[2], v[3], v[4]}, l9 = {v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]};
		for (auto const& l : {l1, l2, l3, l5, l9}) { c.eq(sprout::min(l), std::min(l), "min"); c.eq(sprout::max(l), std::max(l), "max"); c.eq(sprout::minmax(l).first, std::minmax(l).first, "minmax"); c.eq(sprout::minmax(l).second, std::minmax(l).second, "minmax"); } }
}
// other element types
template<class T> void typed(char const* tn) {
	for (std::uint64_t i = 0; i < reps(300); ++i) {
		V iv = rand_seq(rand_len(100), 0, 3); std::vector<T> v(iv.begin(), iv.end()); Src<Ra, T> s(v); Ptr<T> p(v); Src<Fw, T> f(v); T k = (T)rng().range(0, 3);
		MON_CASE(c, std::string("typed ") + tn, iv, (int)k);
		auto want = std::find(v.begin(), v.end(), k) - v.begin(); c.eq(s.off(sprout::find(s.cb(), s.ce(), k)), want, "find ra"); c.eq(p.off(sprout::find(p.cb(), p.ce(), k)), want, "find ptr"); c.eq(f.off(sprout::find(f.cb(), f.ce(), k)), want, "find fw");
		c.eq(sprout::count(p.cb(), p.ce(), k), std::count(v.begin(), v.end(), k), "count"); c.eq(p.off(sprout::max_element(p.cb(), p.ce())), std::max_element(v.begin(), v.end()) - v.begin(), "max_element");
		c.eq(p.off(sprout::min_element(p.cb(), p.ce())), std::min_element(v.begin(), v.end()) - v.begin(), "min_element"); c.eq(sprout::is_sorted(p.cb(), p.ce()), std::is_sorted(v.begin(), v.end()), "is_sorted");
		c.eq(p.off(sprout::search_n(p.cb(), p.ce(), 2, k)), std::search_n(v.begin(), v.end(), 2, k) - v.begin(), "search_n");
	}
}
// ordering consults < only: keys whose == is finer than equivalence, and NaN
template<class T, class G> void ordered_(char const* nm, G g) { for (std::uint64_t r = 0; r < reps(400); ++r) { std::vector<T> a, b; for (int i = (int)rng().below(5); i > 0; --i) a.push_back(g()); for (int i = (int)rng().below(5); i > 0; --i) b.push_back(g()); MON_CASE(c, std::string("lexicographical_compare by less ") + nm, a, b); bool w = std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), v = std::lexicographical_compare(b.begin(), b.end(), a.begin(), a.end());
	c.eq(sprout::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), w); c.eq(sprout::lexicographical_compare(a.data(), a.data() + a.size(), b.data(), b.data() + b.size()), w, "pointers"); std::list<T> la(a.begin(), a.end()), lb(b.begin(), b.end()); c.eq(sprout::lexicographical_compare(la.begin(), la.end(), lb.begin(), lb.end()), w, "list"); c.eq(sprout::tristate_lexicographical_compare(la.begin(), la.end(), lb.begin(), lb.end()), w ? -1 : v ? 1 : 0, "tristate"); c.eq(sprout::tristate_lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()), w ? -1 : v ? 1 : 0, "tristate"); } }
MON_TEST(by_less) { ordered_<Fine>("fine", [] { return Fine((int)rng().below(2), (int)rng().below(3)); }); ordered_<double>("NaN", [] { return rng().below(3) == 0 ? std::numeric_limits<double>::quiet_NaN() : (double)rng().below(2); }); ordered_<OnlyLess>("less only", [] { return OnlyLess((int)rng().below(3)); }); }
MON_TEST(typed_all) { typed<unsigned char>("uchar"); typed<char>("char"); typed<short>("short"); typed<unsigned>("unsigned"); typed<long long>("llong"); typed<double>("double"); typed<float>("float"); }
#endif
