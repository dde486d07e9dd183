#include "rg.hpp"
namespace rg = sprout::range;
#define Q(NAME, RA, IA) { MON_CASE(c, OPN(#NAME), v, w, k); c.ok(nm(rg::NAME RA) == nm(sprout::NAME IA), "range form differs from the iterator form"); }
// the three spellings of "where": iterator, [found, end), [begin, found)
#define QF(NAME, RA, IA) { MON_CASE(c, OPN(#NAME), v, w, k); auto x = sprout::NAME IA; c.ok(nm(rg::NAME RA) == nm(x), "return_found"); auto fe = rg::NAME<rg::return_found_end> RA; c.ok(nm(fe.begin()) == nm(x) && nm(fe.end()) == nm(s.ce()), "return_found_end"); auto bf = rg::NAME<rg::return_begin_found> RA; c.ok(nm(bf.begin()) == nm(s.cb()) && nm(bf.end()) == nm(x), "return_begin_found"); }
#define OPN(n) (n + tag)
template<class F> void two(F f) { std::vector<V> sm; for (int n = 0; n <= 3; ++n) all_seqs(n, 2, [&](V const& v) { sm.push_back(v); }); sm.push_back(V{0, 1, 1, 2}); sm.push_back(V{1, 2, 3, 4, 5}); sm.push_back(V{2, 0, 1, 0, 1}); for (auto& a : sm) for (auto& b : sm) f(a, b); for (std::uint64_t i = 0; i < reps(60); ++i) { int hi = (int)rng().pick(V{1, 3, 20}); V a = rand_seq(rand_len(20), 0, hi), b = rand_seq(rand_len(rng().coin() ? 3 : 20), 0, hi); if (rng().coin()) std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end()); if (rng().coin(1, 4)) b = a; f(a, b); } }
template<class S> void one_all() { std::string tag = "<" + S::name() + ">"; two([&](V const& v, V const& w) { S s(v), t(w); auto r = mkr(A1); auto q = mkr(A2); auto const& cr = r; int k = w.empty() ? 1 : w[0]; EqMod em(3); Geq ge(k); ByMod bm(2); Desc ds(1); (void)q; (void)cr;
#if MON_PART(0)
	QF(adjacent_find, (r), (A1)) QF(adjacent_find, (r, em), (A1, em)) Q(all_of, (r, ge), (A1, ge)) Q(any_of, (r, ge), (A1, ge)) Q(none_of, (r, ge), (A1, ge)) Q(one_of, (r, ge), (A1, ge))
	Q(all_of_equal, (r, k), (A1, k)) Q(any_of_equal, (r, k), (A1, k)) Q(none_of_equal, (r, k), (A1, k)) Q(one_of_equal, (r, k), (A1, k)) Q(count, (r, k), (A1, k)) Q(count_if, (r, ge), (A1, ge))
	QF(find, (r, k), (A1, k)) QF(find_if, (r, ge), (A1, ge)) QF(find_if_not, (r, ge), (A1, ge)) QF(find, (cr, k), (A1, k))
	Q(is_sorted, (r), (A1)) Q(is_sorted, (r, ds), (A1, ds)) QF(is_sorted_until, (r), (A1)) QF(is_sorted_until, (r, ds), (A1, ds)) Q(is_increasing, (r), (A1)) Q(is_decreasing, (r), (A1)) Q(is_strictly_increasing, (r), (A1)) Q(is_strictly_decreasing, (r), (A1)) Q(is_partitioned, (r, ge), (A1, ge))
	QF(max_element, (r), (A1)) QF(max_element, (r, bm), (A1, bm)) QF(min_element, (r), (A1)) QF(min_element, (r, bm), (A1, bm))
	Q(minmax_element, (r), (A1)) Q(minmax_element, (r, bm), (A1, bm))
	{ MON_CASE(c, OPN("minmax_element"), v); auto x = sprout::minmax_element(A1); auto fe = rg::minmax_element<rg::return_found_end>(r); c.ok(nm(fe.first.begin()) == nm(x.first) && nm(fe.first.end()) == nm(s.ce()) && nm(fe.second.begin()) == nm(x.second), "found_end"); auto bf = rg::minmax_element<rg::return_begin_found>(r, ds); auto y = sprout::minmax_element(A1, ds); c.ok(nm(bf.first.end()) == nm(y.first) && nm(bf.second.begin()) == nm(s.cb()) && nm(bf.second.end()) == nm(y.second), "begin_found"); }
	for (int m : {0, 1, 2, 3}) { QF(search_n, (r, m, k), (A1, m, k)) QF(search_n, (r, m, k, em), (A1, m, k, em)) }
	{ V o(v); std::sort(o.begin(), o.end()); S s(o); auto r = mkr(A1); QF(lower_bound, (r, k), (A1, k)) QF(upper_bound, (r, k), (A1, k)) Q(equal_range, (r, k), (A1, k)) Q(binary_search, (r, k), (A1, k)) auto pt = [&](int a) { return a < k; }; Q(partition_point, (r, pt), (A1, pt)) std::reverse(o.begin(), o.end()); S d(o); { S& s = d; auto r = mkr(A1); QF(lower_bound, (r, k, ds), (A1, k, ds)) QF(upper_bound, (r, k, ds), (A1, k, ds)) Q(equal_range, (r, k, ds), (A1, k, ds)) Q(binary_search, (r, k, ds), (A1, k, ds)) } }
	{ MON_CASE(c, OPN("find/std"), v, k); c.ok(nm(rg::find(r, k)) == nm(s.cat(std::find(v.begin(), v.end(), k) - v.begin())), "std"); c.eq((long)rg::count(r, k), (long)std::count(v.begin(), v.end(), k), "count std"); }
	{ MON_CASE(c, OPN("accumulate"), v); c.eq(rg::accumulate(r, 3L), std::accumulate(v.begin(), v.end(), 3L)); auto op = [](long a, long b) { return (a * 7 + b) % 10007; }; c.eq(rg::accumulate(r, 3L, op), std::accumulate(v.begin(), v.end(), 3L, op), "op"); c.eq(rg::reduce(r), std::accumulate(v.begin(), v.end(), 0), "reduce"); c.eq(rg::reduce(r, 5L), std::accumulate(v.begin(), v.end(), 5L), "reduce init"); auto mx = [](long a, long b) { return a > b ? a : b; }; c.eq(rg::reduce(r, 1L, mx), std::accumulate(v.begin(), v.end(), 1L, mx), "reduce op"); c.eq(rg::transform_reduce(r, 1L, std::plus<long>(), [](int a) { return a * 2L; }), 1L + 2 * std::accumulate(v.begin(), v.end(), 0L), "transform_reduce 1"); }
#endif
#if MON_PART(1)
	QF(find_end, (r, q), (A1, A2)) QF(find_end, (r, q, em), (A1, A2, em)) QF(find_first_of, (r, q), (A1, A2)) QF(find_first_of, (r, q, em), (A1, A2, em)) QF(search, (r, q), (A1, A2)) QF(search, (r, q, em), (A1, A2, em))
	Q(equal, (r, q), (A1, A2)) Q(equal, (r, q, em), (A1, A2, em)) Q(is_permutation, (r, q), (A1, A2)) Q(is_permutation, (r, q, em), (A1, A2, em)) Q(mismatch, (r, q), (A1, A2)) Q(mismatch, (r, q, em), (A1, A2, em))
	Q(lexicographical_compare, (r, q), (A1, A2)) Q(lexicographical_compare, (r, q, ds), (A1, A2, ds)) Q(tristate_lexicographical_compare, (r, q), (A1, A2)) Q(tristate_lexicographical_compare, (r, q, ds), (A1, A2, ds)) Q(tristate_lexicographical_compare, (r, 1, q, 2), (A1, 1, A2, 2)) Q(tristate_lexicographical_compare, (r, 1, q, 2, ds), (A1, 1, A2, 2, ds))
	{ MON_CASE(c, OPN("equal/std"), v, w); c.eq((bool)rg::equal(r, q), v == w); c.eq((bool)rg::lexicographical_compare(r, q), v < w); if (v.size() == w.size()) c.eq((bool)rg::is_permutation(r, q), std::is_permutation(v.begin(), v.end(), w.begin())); c.ok(nm(rg::search(r, q)) == nm(s.cat(std::search(v.begin(), v.end(), w.begin(), w.end()) - v.begin())), "search std"); }
	{ V a(v), b(w); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); { S s(a), t(b); auto r = mkr(A1); auto q = mkr(A2); Q(includes, (r, q), (A1, A2)) Q(find_difference, (r, q), (A1, A2)) Q(find_intersection, (r, q), (A1, A2)) Q(find_symmetric_difference, (r, q), (A1, A2)) Q(next_difference, (r, q), (A1, A2)) Q(next_intersection, (r, q), (A1, A2)) Q(next_symmetric_difference, (r, q), (A1, A2)) if (a.size() + b.size()) Q(next_union, (r, q), (A1, A2)) }
	  std::reverse(a.begin(), a.end()); std::reverse(b.begin(), b.end()); { S s(a), t(b); auto r = mkr(A1); auto q = mkr(A2); Q(includes, (r, q, ds), (A1, A2, ds)) Q(find_difference, (r, q, ds), (A1, A2, ds)) Q(find_intersection, (r, q, ds), (A1, A2, ds)) Q(find_symmetric_difference, (r, q, ds), (A1, A2, ds)) Q(next_difference, (r, q, ds), (A1, A2, ds)) Q(next_intersection, (r, q, ds), (A1, A2, ds)) Q(next_symmetric_difference, (r, q, ds), (A1, A2, ds)) if (a.size() + b.size()) Q(next_union, (r, q, ds), (A1, A2, ds)) } }
	{ V b(v); for (auto& x : b) x = x * 2 + 1; S t(b); auto q = mkr(A2); MON_CASE(c, OPN("inner_product"), v); c.eq(rg::inner_product(r, q, 3L), std::inner_product(v.begin(), v.end(), b.begin(), 3L)); c.eq(rg::inner_product(r, q, 3L, std::minus<long>(), std::plus<long>()), std::inner_product(v.begin(), v.end(), b.begin(), 3L, std::minus<long>(), std::plus<long>()), "ops"); c.eq(rg::transform_reduce(r, q, 3L), std::inner_product(v.begin(), v.end(), b.begin(), 3L), "transform_reduce"); c.eq(rg::transform_reduce(r, q, 3L, std::plus<long>(), std::plus<long>()), std::inner_product(v.begin(), v.end(), b.begin(), 3L, std::plus<long>(), std::plus<long>()), "transform_reduce ops"); }
#endif
}); }
template<class S> void ra_all() {
#if MON_PART(2)
	std::string tag = "<" + S::name() + ">"; two([&](V const& v, V const& w) { S s(v); auto r = mkr(A1); int k = 0; Desc ds(1); Q(is_heap, (r), (A1)) Q(is_heap, (r, ds), (A1, ds)) QF(is_heap_until, (r), (A1)) QF(is_heap_until, (r, ds), (A1, ds)) });
#endif
}
// real containers, lvalue and const lvalue, C arrays, temporaries of views
#if MON_PART(2)
MON_TEST(containers) { std::string tag; two([&](V const& v0, V const& w) { V v(v0); v.resize(4, 1); int k = w.empty() ? 1 : w[0]; sprout::array<int, 4> a{{v[0], v[1], v[2], v[3]}}; int b[4] = {v[0], v[1], v[2], v[3]}; auto const& ca = a;
	MON_CASE(c, "containers", v, k); std::ptrdiff_t x = std::find(v.begin(), v.end(), k) - v.begin(); c.eq((std::ptrdiff_t)(rg::find(a, k) - a.begin()), x, "array"); c.eq((std::ptrdiff_t)(rg::find(ca, k) - ca.begin()), x, "const array"); c.eq((std::ptrdiff_t)(rg::find(b, k) - b), x, "C array"); c.eq((std::ptrdiff_t)(rg::find(v, k) - v.begin()), x, "std::vector");
	c.ok(std::is_same<decltype(rg::find(a, k)), sprout::array<int, 4>::iterator>::value && std::is_same<decltype(rg::find(ca, k)), sprout::array<int, 4>::const_iterator>::value, "iterator types");
	c.eq(rg::accumulate(a, 0), v[0] + v[1] + v[2] + v[3], "accumulate array"); c.eq(rg::accumulate(b, 0), v[0] + v[1] + v[2] + v[3], "accumulate C array"); c.ok(rg::equal(a, b) && rg::equal(b, v), "equal across containers"); c.ok(rg::is_permutation(a, b), "is_permutation across"); c.eq((long)rg::count(b, k), (long)std::count(v.begin(), v.end(), k), "count C array"); c.ok(!rg::lexicographical_compare(a, v), "lex");
	c.eq((std::ptrdiff_t)(rg::max_element(b) - b), std::max_element(v.begin(), v.end()) - v.begin(), "max_element C array"); *rg::max_element(a) = 99; c.eq(*std::max_element(a.begin(), a.end()), 99, "writable through the result"); }); }
MON_TEST(heap_ra) { ra_all<SRa>(); } MON_TEST(heap_ptr) { ra_all<SPt>(); }
#else
MON_TEST(fw) { one_all<SFw>(); } MON_TEST(bi) { one_all<SBi>(); } MON_TEST(ra) { one_all<SRa>(); } MON_TEST(ptr) { one_all<SPt>(); }
#endif
