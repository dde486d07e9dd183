// C19: range adaptors. Each adaptor is a struct with app(range) and mod(vector): the pipeline and its list-function meaning.
#include "../C18/laws.hpp"
#include <sprout/range/adaptor.hpp>
#include <sprout/range/range_container.hpp>
#include <sprout/array.hpp>
#include <sprout/container.hpp>
namespace ad = sprout::adaptors;
struct Aff { int a; explicit Aff(int x = 0) : a(x) {} int operator()(int x) const { return x * 3 + a; } };
struct Add2 { int a; explicit Add2(int x = 0) : a(x) {} int operator()(int x, int y) const { return x * 5 + y + a; } };
struct GeqD { int k; explicit GeqD(int x = 0) : k(x) {} bool operator()(int a) const { return a >= k; } };
struct AdjD { int m; explicit AdjD(int k = 2) : m(k) {} bool operator()(int a, int b) const { return a % m != b % m; } };
struct EqModD { int m; explicit EqModD(int k = 2) : m(k) {} bool operator()(int a, int b) const { return a % m == b % m; } };
struct DescD { int pad; explicit DescD(int x = 0) : pad(x) {} bool operator()(int a, int b) const { return b < a; } };
template<class F> V mp(V const& v, F f) { V r; for (int x : v) r.push_back(f(x)); return r; }
template<class F> V fl(V const& v, F f) { V r; for (int x : v) if (f(x)) r.push_back(x); return r; }
inline V sub(V const& v, std::ptrdiff_t a, std::ptrdiff_t b) { std::ptrdiff_t n = (std::ptrdiff_t)v.size(); if (a > n) a = n; if (b > n) b = n; if (b < a) b = a; return V(v.begin() + a, v.begin() + b); }
struct P { int a, b, c; V u; }; inline P& par() { static P p; return p; } inline V& other() { return par().u; } // parameters of the current case
#define AD(NAME, EXPR, MOD) struct NAME { static char const* n() { return #NAME; } template<class R> static auto app(R&& r) -> decltype(std::forward<R>(r) | EXPR) { return std::forward<R>(r) | EXPR; } static V mod(V const& v) { MOD } };
AD(transformed, ad::transformed(Aff(par().a)), return mp(v, Aff(par().a));)
AD(filtered, ad::filtered(GeqD(par().a)), return fl(v, GeqD(par().a));)
AD(removed_if, ad::removed_if(GeqD(par().a)), return fl(v, [](int x) { return x < par().a; });)
AD(removed, ad::removed(par().a), return fl(v, [](int x) { return x != par().a; });)
AD(replaced, ad::replaced(par().a, 77), return mp(v, [](int x) { return x == par().a ? 77 : x; });)
AD(replaced_if, ad::replaced_if(GeqD(par().a), 78), return mp(v, [](int x) { return x >= par().a ? 78 : x; });)
AD(clamped, ad::clamped(1, 2), return mp(v, [](int x) { return x < 1 ? 1 : x > 2 ? 2 : x; });)
AD(clamped_c, ad::clamped(2, 1, DescD()), return mp(v, [](int x) { return x < 1 ? 1 : x > 2 ? 2 : x; });)
AD(reversed, ad::reversed, return V(v.rbegin(), v.rend());)
AD(taken, ad::taken(par().b), return sub(v, 0, par().b);)
AD(dropped, ad::dropped(par().b), return sub(v, par().b, 1000000);)
AD(taken_end, ad::taken_end(-par().b), return sub(v, std::max<std::ptrdiff_t>(0, (std::ptrdiff_t)v.size() - par().b), 1000000);)
AD(dropped_end, ad::dropped_end(-par().b), return sub(v, 0, std::max<std::ptrdiff_t>(0, (std::ptrdiff_t)v.size() - par().b));)
AD(window, ad::window(par().b, par().b + par().c), return sub(v, par().b, par().b + par().c);)
AD(window1, ad::window(par().b), return sub(v, par().b, 1000000);)
AD(offset, ad::offset(par().b, -par().c), return sub(v, par().b, std::max<std::ptrdiff_t>(0, (std::ptrdiff_t)v.size() - par().c));)
AD(offset1, ad::offset(par().b), return sub(v, par().b, 1000000);)
AD(steps, ad::steps(par().c + 1), V r; for (std::size_t i = 0; i < v.size(); i += par().c + 1) r.push_back(v[i]); return r;)
AD(steps_i, ad::steps(par().c + 1, par().b), V r; for (std::size_t i = par().b; i < v.size(); i += par().c + 1) r.push_back(v[i]); return r;)
AD(uniqued, ad::uniqued, V r; for (int x : v) if (r.empty() || r.back() != x) r.push_back(x); return r;)
AD(uniqued_p, ad::uniqued(EqModD(2)), V r; for (int x : v) if (r.empty() || !EqModD(2)(r.back(), x)) r.push_back(x); return r;)
AD(adjacent_filtered, ad::adjacent_filtered(AdjD(3)), V r; for (std::size_t i = 0; i < v.size(); ++i) if (!i || AdjD(3)(v[i - 1], v[i])) r.push_back(v[i]); return r;)
AD(indexed, ad::indexed, return v;)
AD(indexed_n, ad::indexed(5), return v;)
AD(filled, ad::filled(9), return V(v.size(), 9);)
AD(jointed, ad::jointed(other()), V r = v; r.insert(r.end(), other().begin(), other().end()); return r;)
AD(alternated, ad::alternated(other()), V r; for (std::size_t i = 0; i < v.size(); ++i) { r.push_back(v[i]); r.push_back(other()[i]); } return r;)
AD(transformed2, ad::transformed(other(), Add2(par().a)), V r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(Add2(par().a)(v[i], other()[i])); return r;)
// several stages inside one forwarder
AD(piped, ad::piped(ad::transformed(Aff(1)), ad::filtered(GeqD(par().a)), ad::taken(par().b)), return sub(fl(mp(v, Aff(1)), GeqD(par().a)), 0, par().b);)
AD(piped1, ad::piped(ad::reversed), return V(v.rbegin(), v.rend());)
// the adapted_* family applies an adaptor to a part of the range
AD(adapted_taken, ad::adapted_taken(ad::transformed(Aff(2)), par().b), V r = mp(sub(v, 0, par().b), Aff(2)); V t = sub(v, par().b, 1000000); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_dropped, ad::adapted_dropped(ad::transformed(Aff(2)), par().b), V r = sub(v, 0, par().b); V t = mp(sub(v, par().b, 1000000), Aff(2)); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_window, ad::adapted_window(ad::transformed(Aff(2)), par().b, par().b + par().c), V r = sub(v, 0, par().b); V t = mp(sub(v, par().b, par().b + par().c), Aff(2)); r.insert(r.end(), t.begin(), t.end()); t = sub(v, par().b + par().c, 1000000); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_window1, ad::adapted_window(ad::transformed(Aff(2)), par().b), V r = sub(v, 0, par().b); V t = mp(sub(v, par().b, 1000000), Aff(2)); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_offset, ad::adapted_offset(ad::transformed(Aff(2)), par().b, -par().c), std::ptrdiff_t n = (std::ptrdiff_t)v.size(); std::ptrdiff_t m = std::max<std::ptrdiff_t>(std::min<std::ptrdiff_t>(par().b, n), n - par().c); V r = sub(v, 0, par().b); V t = mp(sub(v, par().b, m), Aff(2)); r.insert(r.end(), t.begin(), t.end()); t = sub(v, m, 1000000); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_offset1, ad::adapted_offset(ad::transformed(Aff(2)), par().b), V r = sub(v, 0, par().b); V t = mp(sub(v, par().b, 1000000), Aff(2)); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_taken_end, ad::adapted_taken_end(ad::transformed(Aff(2)), -par().b), std::ptrdiff_t m = std::max<std::ptrdiff_t>(0, (std::ptrdiff_t)v.size() - par().b); V r = sub(v, 0, m); V t = mp(sub(v, m, 1000000), Aff(2)); r.insert(r.end(), t.begin(), t.end()); return r;)
AD(adapted_dropped_end, ad::adapted_dropped_end(ad::transformed(Aff(2)), -par().b), std::ptrdiff_t m = std::max<std::ptrdiff_t>(0, (std::ptrdiff_t)v.size() - par().b); V r = mp(sub(v, 0, m), Aff(2)); V t = sub(v, m, 1000000); r.insert(r.end(), t.begin(), t.end()); return r;)
// sorted operands
inline V srt(V v) { std::sort(v.begin(), v.end()); return v; }
template<class F> V setop(V const& v, F f) { V r; f(v, other(), std::back_inserter(r)); return r; }
#define SETOP(NAME, STD) AD(NAME, ad::NAME(other()), V r; std::STD(v.begin(), v.end(), other().begin(), other().end(), std::back_inserter(r)); return r;)
SETOP(merged, merge) SETOP(set_union, set_union) SETOP(set_intersection, set_intersection) SETOP(set_difference, set_difference) SETOP(set_symmetric_difference, set_symmetric_difference)
#define SETOPC(NAME, A, STD) AD(NAME, ad::A(other(), DescD()), V r; std::STD(v.begin(), v.end(), other().begin(), other().end(), std::back_inserter(r), DescD()); return r;)
SETOPC(merged_c, merged, merge) SETOPC(set_union_c, set_union, set_union) SETOPC(set_intersection_c, set_intersection, set_intersection) SETOPC(set_difference_c, set_difference, set_difference) SETOPC(set_symmetric_difference_c, set_symmetric_difference, set_symmetric_difference)
AD(merged_u, ad::jointed(other()) | ad::filtered(GeqD(1)), V r = v; r.insert(r.end(), other().begin(), other().end()); return fl(r, GeqD(1));)
template<class Cs, class R> void examine(Cs& c, R const& r, V const& x, Cap cap = Cap()) {
	c.eq((std::size_t)sprout::distance(sprout::begin(r), sprout::end(r)), x.size(), "length"); c.eq((std::size_t)sprout::size(r), x.size(), "size()"); c.eq(sprout::empty(r), x.empty(), "empty()");
	V got; std::size_t k = 0; for (auto i = sprout::begin(r), e = sprout::end(r); i != e && k < x.size() + 3; ++i, ++k) got.push_back((int)*i); if (!c.eq(got, x, "elements")) return;
	if (!x.empty()) c.eq((int)sprout::front(r), x.front(), "front"); R const copy(r); V g2; for (auto i = copy.begin(), e = copy.end(); i != e; ++i) g2.push_back((int)*i); c.eq(g2, x, "elements of a copy"); laws(c, sprout::begin(r), sprout::end(r), x, cap); }
// 0: any operand, 1: same length as v, 2: ascending operands, 3: descending operands
inline V second(int kind, V const& v) { V u = rand_seq(kind == 1 ? v.size() : rand_len(8), 0, 4); if (kind == 2) u = srt(u); if (kind == 3) { u = srt(u); std::reverse(u.begin(), u.end()); } return u; }
template<class A, class F> void cases(int kind, int nmax, int k, std::uint64_t nr, F f) { workload(nmax, k, nr, 10, [&](V v) { if (kind == 2) v = srt(v); if (kind == 3) { v = srt(v); std::reverse(v.begin(), v.end()); } par().u = second(kind, v); par().a = (int)rng().below(4); par().b = (int)rng().below(6); par().c = (int)rng().below(4); f(v); }); }
template<class S, class A> void one(int kind, Cap cap = Cap()) { cases<A>(kind, 3, 3, reps(20), [&](V const& v) { S s(v); typedef decltype(s.cb()) I; sprout::range::range_container<I> r(s.cb(), s.ce()); MON_CASE(c, std::string(A::n()) + "/" + S::name(), v, par().a, par().b, par().c, par().u); try { examine(c, A::app(r), A::mod(v), cap); } catch (bounds_error const&) { } }); }
typedef Src<Fw, int, NonLit> SFn; typedef Src<Bi, int> SBi; typedef Src<Ra, int> SRa; typedef Ptr<int> SPt;
