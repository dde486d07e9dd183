#include "ad.hpp"
#define T_FW(A, K, ...) MON_TEST(A##_t) { one<SFn, A>(K, ##__VA_ARGS__); one<SRa, A>(K, ##__VA_ARGS__); one<SPt, A>(K, ##__VA_ARGS__); }
#define T_BI(A, K, ...) MON_TEST(A##_t) { one<SBi, A>(K, ##__VA_ARGS__); one<SRa, A>(K, ##__VA_ARGS__); one<SPt, A>(K, ##__VA_ARGS__); }
#if MON_PART(0)
T_FW(transformed, 0) T_FW(filtered, 0) T_FW(removed_if, 0) T_FW(removed, 0) T_FW(replaced, 0) T_FW(replaced_if, 0)
#endif
#if MON_PART(1)
T_FW(clamped, 0) T_FW(clamped_c, 0) T_BI(reversed, 0) T_FW(taken, 0) T_FW(dropped, 0) T_BI(taken_end, 0) T_BI(dropped_end, 0)
#endif
#if MON_PART(2)
T_FW(window, 0) T_FW(window1, 0) T_BI(offset, 0) T_FW(offset1, 0) T_FW(steps, 0) T_FW(steps_i, 0) T_FW(uniqued, 0) T_FW(uniqued_p, 0)
#endif
#if MON_PART(3)
T_FW(adjacent_filtered, 0) T_FW(indexed, 0) T_FW(indexed_n, 0) T_FW(filled, 0) T_FW(jointed, 0) T_FW(alternated, 1) T_FW(transformed2, 1)
#endif
#if MON_PART(4)
T_FW(merged, 2) T_FW(set_union, 2) T_FW(set_intersection, 2) T_FW(set_difference, 2) T_FW(set_symmetric_difference, 2)
#endif
#if MON_PART(5)
T_FW(merged_c, 3) T_FW(set_union_c, 3) T_FW(set_intersection_c, 3) T_FW(set_difference_c, 3) T_FW(set_symmetric_difference_c, 3)
#endif
#if MON_PART(6)
T_FW(adapted_taken, 0) T_FW(adapted_dropped, 0) T_FW(adapted_window, 0) T_FW(adapted_window1, 0) T_BI(adapted_offset, 0) T_FW(adapted_offset1, 0)
#endif
#if MON_PART(7)
T_BI(adapted_taken_end, 0) T_BI(adapted_dropped_end, 0) T_FW(piped, 0) T_BI(piped1, 0)
MON_TEST(misc) { for (std::uint64_t q = 0; q < reps(80); ++q) { V v = rand_seq(rand_len(8), 0, 9);
	{ MON_CASE(c, "blanked(n)", v); int n = (int)rng().below(7); c.eq((int)sprout::size(ad::blanked(n)), n, "size"); c.eq((std::size_t)sprout::size(v | ad::blanked()), v.size(), "size of v | blanked()"); examine(c, ad::blanked(n, 3), V(n, 3)); }
	{ MON_CASE(c, "counting", v); int a = (int)rng().range(-5, 5), n = (int)rng().below(7); V x; for (int i = 0; i < n; ++i) x.push_back(a + i); examine(c, ad::counting(a, a + n), x); V y; for (std::size_t i = 0; i < v.size(); ++i) y.push_back(a + (int)i); examine(c, v | ad::counting(a), y); }
	{ MON_CASE(c, "valued", v); auto r = v | ad::valued(42); V g; for (int x : r) g.push_back(x); c.eq(g, v, "elements"); for (auto i = r.begin(); i != r.end(); ++i) c.eq(i.get(), 42, "value"); }
	{ MON_CASE(c, "indices", v); int k = 0; auto r = v | ad::indexed; for (auto i = r.begin(); i != r.end(); ++i, ++k) c.eq((int)i.index(), k, "index"); c.eq(k, (int)v.size(), "length"); k = 5; auto r2 = v | ad::indexed(5); for (auto i = r2.begin(); i != r2.end(); ++i, ++k) c.eq((int)i.index(), k, "index from 5"); }
	{ MON_CASE(c, "outdirected", v); auto r = v | ad::outdirected; c.eq((std::size_t)sprout::distance(r.begin(), r.end()), v.size(), "length"); std::size_t k = 0; for (auto i = r.begin(); i != r.end(); ++i, ++k) { c.ok(*i == v.begin() + k, "the element is the base iterator"); } }
	{ MON_CASE(c, "moved", v); std::vector<std::string> a; for (int x : v) a.push_back("a string long enough to be on the heap " + std::to_string(x)); std::vector<std::string> b(a), g; auto r = a | ad::moved; for (auto i = r.begin(), e = r.end(); i != e && g.size() <= b.size(); ++i) g.push_back(*i); c.ok(g == b, "moved elements"); for (auto& x : a) c.ok(x.empty(), "the source is moved from"); }
	{ MON_CASE(c, "size_enumed", v); std::vector<std::string> a; V x, y, z; for (int e : v) { a.push_back(std::string(e, 'x')); x.push_back(e); if (y.size()) { z.push_back(6); } y.push_back(e); y.push_back(6); z.push_back(e); } examine(c, a | ad::size_enumed, x); examine(c, a | ad::size_enumed(6), y); examine(c, a | ad::size_enumed(6, true), z); }
	{ MON_CASE(c, "sized", v); auto r = v | ad::sized<3>(); V g(r.begin(), r.end()); c.eq(g, sub(v, 0, 3), "elements"); }
	{ MON_CASE(c, "to_lower/upper", v); std::string s, lo, up; for (int i = 0; i < 9; ++i) s += (char)rng().range(32, 126); for (char ch : s) { lo += (char)(ch >= 'A' && ch <= 'Z' ? ch + 32 : ch); up += (char)(ch >= 'a' && ch <= 'z' ? ch - 32 : ch); } auto l = s | ad::to_lower; auto u = s | ad::to_upper; c.eq(std::string(l.begin(), l.end()), lo, "lower"); c.eq(std::string(u.begin(), u.end()), up, "upper"); }
	{ typedef sprout::array<int, 5> A; V w = rand_seq(5, 0, 9); A a = {{w[0], w[1], w[2], w[3], w[4]}}; MON_CASE(c, "copied", w); A b = a | ad::transformed(Aff(1)) | ad::copied; c.eq(V(b.begin(), b.end()), mp(w, Aff(1)), "copied to an array"); A z = {{100, 101, 102, 103, 104}}; A d = a | ad::taken(2) | ad::copied(z); c.eq(V(d.begin(), d.end()), V{w[0], w[1], 102, 103, 104}, "copied over a result"); auto e = a | ad::reversed | ad::deep_copied; static_assert(std::is_same<decltype(e), A>::value, "deep copy yields the base container"); c.eq(V(e.begin(), e.end()), V(w.rbegin(), w.rend()), "deep_copied"); A const ca = a; auto f = ca | ad::reversed | ad::reversed | ad::deep_copied; c.eq(V(f.begin(), f.end()), w, "deep_copied from const"); for (auto& x : a | ad::reversed) x += 1; c.eq(V(a.begin(), a.end()), mp(w, [](int x) { return x + 1; }), "writing through a view"); }
} }
#endif
