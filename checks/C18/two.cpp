// C18: adaptors over two base ranges.
#include "laws.hpp"
#include <sprout/iterator/various.hpp>
#include <sprout/iterator/adaptor.hpp>
#include <algorithm>
struct Sub { int k; explicit Sub(int x = 0) : k(x) {} typedef int result_type; int operator()(int a, int b) const { return a * 10 - b + k; } };
struct ModL { int m; explicit ModL(int x = 2) : m(x) {} bool operator()(int a, int b) const { return a % m < b % m; } };
template<class F> void wl2(F f) { for (int n = 0; n <= 3; ++n) for (int m = 0; m <= 3; ++m) all_seqs(n, 2, [&](V const& a) { all_seqs(m, 2, [&](V const& b) { f(a, b); }); }); for (std::uint64_t i = 0; i < reps(60); ++i) f(rand_seq(rand_len(8), 0, 4), rand_seq(rand_len(8), 0, 4)); }
#if MON_PART(0)
template<class S> void joint() { wl2([](V const& v, V const& u) { S s(v), t(u); V x = v; x.insert(x.end(), u.begin(), u.end()); LAWS("joint", sprout::make_joint_iterator(s.cb(), s.ce(), t.cb(), t.cb()), sprout::make_joint_iterator(s.ce(), s.ce(), t.cb(), t.ce()), x, u); }); }
MON_SRC_TESTS_FW(joint, int)
template<class S> void alt() { for (int n = 0; n <= 4; ++n) for (std::uint64_t i = 0; i < reps(20); ++i) { V v = rand_seq(n, 0, 5), u = rand_seq(n, 6, 9), x; for (int k = 0; k < n; ++k) { x.push_back(v[k]); x.push_back(u[k]); } S s(v), t(u); LAWS("alternate", sprout::make_alternate_iterator(s.cb(), t.cb()), sprout::make_alternate_iterator(s.ce(), t.ce()), x, u); } }
MON_SRC_TESTS_FW(alt, int)
template<class S> void bin() { for (int n = 0; n <= 5; ++n) for (std::uint64_t i = 0; i < reps(20); ++i) { V v = rand_seq(n, 0, 5), u = rand_seq(n, 0, 9), x; Sub g(3); for (int k = 0; k < n; ++k) x.push_back(g(v[k], u[k])); S s(v), t(u); LAWS("transform binary", sprout::make_transform_iterator(s.cb(), t.cb(), g), sprout::make_transform_iterator(s.ce(), t.ce(), g), x, u); } }
MON_SRC_TESTS_FW(bin, int)
#endif
#if MON_PART(1)
template<class S, class K> void sets_(char const* nm, K k) { std::string N = nm; wl2([&](V v, V u) { std::stable_sort(v.begin(), v.end(), k); std::stable_sort(u.begin(), u.end(), k); S s(v), t(u); V x; 
	std::merge(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(x), k); LAWS("merge" + N, sprout::make_merge_iterator(s.cb(), s.ce(), t.cb(), t.ce(), k), sprout::make_merge_iterator(s.ce(), s.ce(), t.ce(), t.ce(), k), x, u);
	x.clear(); std::set_union(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(x), k); LAWS("set_union" + N, sprout::make_set_union_iterator(s.cb(), s.ce(), t.cb(), t.ce(), k), sprout::make_set_union_iterator(s.ce(), s.ce(), t.ce(), t.ce(), k), x, u);
	x.clear(); std::set_intersection(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(x), k); LAWS("set_intersection" + N, sprout::make_set_intersection_iterator(s.cb(), s.ce(), t.cb(), t.ce(), k), sprout::make_set_intersection_iterator(s.ce(), s.ce(), t.ce(), t.ce(), k), x, u);
	x.clear(); std::set_difference(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(x), k); LAWS("set_difference" + N, sprout::make_set_difference_iterator(s.cb(), s.ce(), t.cb(), t.ce(), k), sprout::make_set_difference_iterator(s.ce(), s.ce(), t.ce(), t.ce(), k), x, u);
	x.clear(); std::set_symmetric_difference(v.begin(), v.end(), u.begin(), u.end(), std::back_inserter(x), k); LAWS("set_symmetric_difference" + N, sprout::make_set_symmetric_difference_iterator(s.cb(), s.ce(), t.cb(), t.ce(), k), sprout::make_set_symmetric_difference_iterator(s.ce(), s.ce(), t.ce(), t.ce(), k), x, u); }); }
template<class S> void sets() { sets_<S>("", std::less<int>()); sets_<S>(" comp", ModL(3)); }
MON_SRC_TESTS_FW(sets, int)
#endif
#if MON_PART(2)
template<class S> void insr() { wl2([](V const& v, V const& u) { S s(v), t(u); for (std::size_t p = 0; p <= v.size(); ++p) { V x = v; x.insert(x.begin() + p, u.begin(), u.end()); LAWS("insert_range", sprout::make_insert_range_iterator(s.cb(), s.cat(p), t.cb(), t.cb(), t.ce()), sprout::make_insert_range_iterator(s.ce(), s.cat(p), t.ce(), t.cb(), t.ce()), x, u, p); } }); }
MON_SRC_TESTS_FW(insr, int)
MON_TEST(inserters) { for (std::uint64_t r = 0; r < reps(60); ++r) { V v = rand_seq(rand_len(6), 0, 9), u = rand_seq(rand_len(6), 0, 9); MON_CASE(c, "insert iterators", v, u); V a = v; auto bi = sprout::back_inserter(a); for (int x : u) *bi++ = x; V w = v; w.insert(w.end(), u.begin(), u.end()); c.ok(a == w, "back_inserter"); std::vector<int> d(v); std::size_t p = rng().below(v.size() + 1); auto ii = sprout::inserter(d, d.begin() + p); for (int x : u) *ii++ = x; w = v; w.insert(w.begin() + p, u.begin(), u.end()); c.ok(d == w, "inserter"); } }
#endif
