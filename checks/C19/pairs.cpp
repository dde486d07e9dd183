// every ordered pair of stages: (range | A | B) must mean B(A(list)); plus fixed deep pipelines
#include "ad.hpp"
template<class A, class B> void pair() { typedef SPt S; cases<A>(0, 2, 3, reps(6, 20), [&](V const& v) { S s(v); typedef decltype(s.cb()) I; sprout::range::range_container<I> r(s.cb(), s.ce()); MON_CASE(c, std::string(A::n()) + " | " + B::n(), v, par().a, par().b, par().c, par().u); V x = B::mod(A::mod(v)); auto p = B::app(A::app(r)); V got; std::size_t k = 0; for (auto i = p.begin(), e = p.end(); i != e && k < x.size() + 3; ++i, ++k) got.push_back((int)*i); if (!c.eq(got, x, "elements")) return; c.eq((std::size_t)sprout::size(p), x.size(), "size()"); if (x.size()) { auto l = p.begin(); for (std::size_t j = 1; j < x.size(); ++j) l = sprout::next(l); c.eq((int)*l, x.back(), "last by next"); c.eq((int)*sprout::next(p.begin(), x.size() - 1), x.back(), "last by next(n)"); } }); }
template<class A> void row() { pair<A, transformed>(); pair<A, filtered>(); pair<A, removed>(); pair<A, replaced_if>(); pair<A, clamped>(); pair<A, reversed>(); pair<A, taken>(); pair<A, dropped>(); pair<A, taken_end>(); }
// rows whose result is only a forward range: no stage that walks backwards
template<class A> void rowf() { pair<A, transformed>(); pair<A, filtered>(); pair<A, removed>(); pair<A, replaced_if>(); pair<A, clamped>(); pair<A, taken>(); pair<A, dropped>(); pair<A, window>(); pair<A, steps>(); pair<A, uniqued>(); pair<A, adjacent_filtered>(); pair<A, jointed>(); pair<A, adapted_window>(); pair<A, piped>(); pair<A, indexed>(); }
template<class A> void row2() { pair<A, window>(); pair<A, offset>(); pair<A, steps>(); pair<A, uniqued>(); pair<A, adjacent_filtered>(); pair<A, jointed>(); pair<A, adapted_window>(); pair<A, piped>(); pair<A, indexed>(); }
#define ROWF(A) MON_TEST(A##_r) { rowf<A>(); }
#define ROW(A) MON_TEST(A##_r) { row<A>(); row2<A>(); }
#if MON_PART(0)
ROW(transformed) ROW(filtered)
#endif
#if MON_PART(1)
ROW(removed) ROW(replaced_if)
#endif
#if MON_PART(2)
ROW(clamped) ROW(reversed)
#endif
#if MON_PART(3)
ROW(taken) ROW(dropped) ROW(taken_end)
#endif
#if MON_PART(4)
ROW(window) ROW(offset)
#endif
#if MON_PART(5)
ROW(steps_i) ROWF(uniqued)
#endif
#if MON_PART(6)
ROWF(adjacent_filtered) ROW(jointed)
#endif
#if MON_PART(7)
ROW(adapted_window) ROW(merged_u)
#endif
