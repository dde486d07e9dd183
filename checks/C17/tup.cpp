// C17: sprout tuple / pair / compressed_pair against std::tuple / std::pair of the same elements.
#include <spr.hpp>
#include <sprout/tuple.hpp>
#include <sprout/tuple/operation.hpp>
#include <sprout/tuple/algorithm.hpp>
#include <sprout/tuple/functions.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/compressed_pair.hpp>
#include <memory>
#include <functional>
using namespace mon; typedef std::string S; typedef sprout::tuple<int, S, long> T3; typedef std::tuple<int, S, long> M3;
static S rs() { return S(rng().coin() ? 20 : 0, 'q') + std::to_string(rng().below(4)); }
static M3 rm() { return M3((int)rng().range(-2, 2), rs(), rng().range(-2, 2)); }
template<class C, class T, class M> void is3(C& c, T const& t, M const& m, char const* w) { c.ok(sprout::get<0>(t) == std::get<0>(m) && sprout::get<1>(t) == std::get<1>(m) && sprout::get<2>(t) == std::get<2>(m), w); }
static T3 tp(M3 const& m) { return T3(std::get<0>(m), std::get<1>(m), std::get<2>(m)); }
struct Fn { template<class... A> S operator()(A const&... a) const { S r; int x[] = {0, (r += str(a) + ",", 0)...}; (void)x; return r; } };
struct Fwd { std::string& operator()(int, std::string& s) const { return s; } S operator()(int, std::string&& s) const { return "rv" + s; } };
struct Agg { S s; template<class... A> explicit Agg(A const&... a) : s(Fn()(a...)) {} };
struct Cnt { int v, cp, mv; Cnt(int x = 0) : v(x), cp(0), mv(0) {} Cnt(Cnt const& o) : v(o.v), cp(o.cp + 1), mv(o.mv) {} Cnt(Cnt&& o) : v(o.v), cp(o.cp), mv(o.mv + 1) { o.v = -1; } Cnt& operator=(Cnt const& o) { v = o.v; cp = o.cp + 1; mv = o.mv; return *this; } Cnt& operator=(Cnt&& o) { v = o.v; cp = o.cp; mv = o.mv + 1; o.v = -1; return *this; } };
struct E1 { int tag() const { return 1; } }; struct E2 { int tag() const { return 2; } };
#if MON_PART(0)
MON_TEST(values) { for (std::uint64_t r = 0; r < reps(150); ++r) { M3 m = rm(), n = rm(); MON_CASE(c, "tuple values", m, n); T3 a = tp(m), b = tp(n); T3 const& k = a; is3(c, a, m, "construct"); is3(c, b, n, "construct");
	c.ok(&sprout::get<1>(a) == &sprout::get<1>(k) && &sprout::get<0>(a) == &sprout::tuples::get<0>(a) && &sprout::tuples::get<S>(a) == &sprout::get<1>(a), "get identity"); S mv = sprout::get<1>(T3(a)); c.eq(mv, std::get<1>(m), "get rvalue");
	T3 d; is3(c, d, M3(), "default"); d = a; is3(c, d, m, "assign"); is3(c, a, m, "assign leaves the source"); d = tp(n); is3(c, d, n, "move assign"); T3 e(a); is3(c, e, m, "copy"); T3 f(tp(m)); is3(c, f, m, "move"); f.swap(b); is3(c, f, n, "swap"); is3(c, b, m, "swap"); { using sprout::swap; swap(f, b); } is3(c, f, m, "swap"); is3(c, b, n, "swap"); T3& self = a; a = self; is3(c, a, m, "self assign");
	c.ok((a == b) == (m == n) && (a != b) == (m != n) && (a < b) == (m < n) && (a > b) == (m > n) && (a <= b) == (m <= n) && (a >= b) == (m >= n), "comparison"); c.ok(a == a && !(a < a) && a <= a && a >= a, "reflexive"); c.ok(sprout::to_hash(a) == sprout::to_hash(e) && std::hash<T3>()(a) == sprout::to_hash(f), "hash of equals");
	sprout::tuple<long, S, double> w(a); is3(c, w, m, "convert"); sprout::tuple<long, S, double> w2(tp(n)); is3(c, w2, n, "convert rvalue"); w2 = a; is3(c, w2, m, "convert assign"); is3(c, a, m, "convert assign leaves the source"); w2 = tp(n); is3(c, w2, n, "convert move assign"); c.ok((w == b) == (m == n) && (w < b) == (m < n), "mixed comparison"); M3 st(static_cast<M3>(a)); c.ok(st == m, "to std::tuple");
	auto mt = sprout::make_tuple(std::get<0>(m), std::get<1>(m), std::get<2>(m)); static_assert(std::is_same<decltype(mt), T3>::value, ""); is3(c, mt, m, "make_tuple"); int i0 = 1; S s0 = "x"; long l0 = 2; sprout::tie(i0, s0, l0) = a; c.ok(i0 == std::get<0>(m) && s0 == std::get<1>(m) && l0 == std::get<2>(m), "tie"); is3(c, a, m, "tie leaves the source"); sprout::tie(i0, sprout::ignore, l0) = b; c.ok(i0 == std::get<0>(n) && s0 == std::get<1>(m) && l0 == std::get<2>(n), "tie ignore"); is3(c, b, n, "tie leaves the source");
	auto cat = sprout::tuple_cat(a, b, sprout::make_tuple(7)); static_assert(std::is_same<decltype(cat), sprout::tuple<int, S, long, int, S, long, int> >::value, ""); is3(c, cat, m, "cat"); c.ok(sprout::get<3>(cat) == std::get<0>(n) && sprout::get<4>(cat) == std::get<1>(n) && sprout::get<5>(cat) == std::get<2>(n) && sprout::get<6>(cat) == 7, "cat"); is3(c, a, m, "cat leaves the source"); auto cat1 = sprout::tuple_cat(tp(m), sprout::tuple<>()); is3(c, cat1, m, "cat rvalue");
	auto nest = sprout::make_tuple(1, a, 2); c.ok(sprout::nested_get<1, 1>(nest) == std::get<1>(m) && &sprout::tuples::nested_get<1, 1>(nest) == &sprout::get<1>(sprout::get<1>(nest)), "nested_get"); } 
	MON_CASE(c, "empty tuple", 0); sprout::tuple<> x, y; x.swap(y); c.ok(x == y && !(x < y) && !(x != y), "compare"); sprout::tuple<> z(x); (void)z; (void)std::tuple<>(x); sprout::tuple<Tag> tg(Tag(1, 2)); c.ok(sprout::get<0>(tg).key == 1 && sprout::get<0>(tg).id == 2, "one"); }
MON_TEST(refs) { for (std::uint64_t r = 0; r < reps(80); ++r) { S x = "long enough to own memory " + rs(), y = "another long enough string " + rs(); int i = 1, j = 2; S const x0 = x, y0 = y; MON_CASE(c, "tuple of references", x, y); typedef sprout::tuple<int&, S&> R; R a(i, x), b(j, y); R const ca(i, x); c.ok(&sprout::get<1>(a) == &x && &sprout::get<0>(b) == &j && &sprout::get<1>(ca) == &x, "identity"); R cp(a); c.ok(&sprout::get<1>(cp) == &x, "copy keeps identity"); R mvd(static_cast<R&&>(cp)); c.ok(&sprout::get<1>(mvd) == &x && &sprout::get<0>(mvd) == &i, "move keeps identity"); c.ok(&sprout::get<1>(R(a)) == &x, "get of rvalue");
	a = b; c.eq(x, y0, "assign through"); c.eq(y, y0, "the source object survives a copy assignment"); c.eq(i, 2, "int"); x = x0; a = R(b); c.eq(x, y0, "assign through rvalue"); c.eq(y, y0, "an lvalue-reference element is copied even from an rvalue tuple"); x = x0; i = 1; a.swap(b); c.ok(x == y0 && y == x0 && i == 2 && j == 1, "swap swaps the objects"); x = x0; y = y0; 
	auto t = sprout::tie(i, x); c.ok(&sprout::get<1>(t) == &x, "tie identity"); auto mr = sprout::make_tuple(std::ref(x), std::cref(y), 3); static_assert(std::is_same<decltype(mr), sprout::tuple<S&, S const&, int> >::value, ""); c.ok(&sprout::get<0>(mr) == &x && &sprout::get<1>(mr) == &y && sprout::get<2>(mr) == 3, "make_tuple of ref");
	c.ok(&sprout::get<1>(sprout::forward_as_tuple(5, x)) == &x, "forward_as_tuple lvalue"); S tk = sprout::get<0>(sprout::forward_as_tuple(std::move(x))); c.eq(tk, x0, "forward_as_tuple rvalue moves"); c.ok(x.empty(), "forward_as_tuple rvalue moves"); x = x0;
	sprout::tuple<int, S> v(sprout::tie(i, x)); c.eq(sprout::get<1>(v), x0, "values from references"); c.eq(x, x0, "values from references leave the objects"); v = sprout::tie(j, y); c.eq(sprout::get<1>(v), y0, "assign from tie"); c.eq(y, y0, "assign from a tie leaves the objects"); auto ct = sprout::tuple_cat(sprout::tie(x), sprout::make_tuple(1)); c.ok(&sprout::get<0>(ct) == &x, "cat keeps references");
	sprout::pair<int&, S&> p(i, x), q(j, y); c.ok(&p.second == &x && &sprout::get<1>(p) == &x, "pair identity"); sprout::pair<int&, S&> pc(p); c.ok(&pc.second == &x, "pair copy identity"); sprout::pair<int&, S&> pm(static_cast<sprout::pair<int&, S&>&&>(pc)); c.ok(&pm.second == &x, "pair move identity"); p = q; c.ok(x == y0 && y == y0, "pair assign through"); x = x0; p = sprout::pair<int&, S&>(q); c.ok(x == y0 && y == y0, "pair assign rvalue"); x = x0; i = 1; j = 2; p.swap(q); c.ok(x == y0 && y == x0 && i == 2 && j == 1, "pair swap"); x = x0; y = y0; auto mp = sprout::make_pair(std::ref(x), 4); static_assert(std::is_same<decltype(mp), sprout::pair<S&, int> >::value, ""); c.ok(&mp.first == &x, "make_pair of ref");
	i = 1; j = 2; { R g(i, x); g = sprout::pair<int&, S&>(j, y); c.ok(i == 2 && x == y0, "tuple = pair&&"); c.eq(y, y0, "tuple = pair&& copies referenced objects"); } x = x0; { sprout::pair<int&, S&> g(i, x); g = R(j, y); c.ok(x == y0 && y == y0, "pair = tuple&&"); } } }
#endif
#if MON_PART(1)
MON_TEST(oper) { for (std::uint64_t r = 0; r < reps(100); ++r) { M3 m = rm(), n = rm(); int z = (int)rng().range(-9, 9); MON_CASE(c, "tuple operations", m, n, z); T3 a = tp(m); auto const& A0 = std::get<0>(m); auto const& A1 = std::get<1>(m); auto const& A2 = std::get<2>(m);
	auto pb = sprout::tuples::push_back(a, z, S("e")); static_assert(std::is_same<decltype(pb), sprout::tuple<int, S, long, int, S> >::value, ""); is3(c, pb, m, "push_back"); c.ok(sprout::get<3>(pb) == z && sprout::get<4>(pb) == "e", "push_back"); auto pf = sprout::tuples::push_front(a, z, S("e")); static_assert(std::is_same<decltype(pf), sprout::tuple<int, S, int, S, long> >::value, ""); c.ok(sprout::get<0>(pf) == z && sprout::get<1>(pf) == "e" && sprout::get<2>(pf) == A0 && sprout::get<3>(pf) == A1 && sprout::get<4>(pf) == A2, "push_front");
	auto ob = sprout::tuples::pop_back(a); static_assert(std::is_same<decltype(ob), sprout::tuple<int, S> >::value, ""); c.ok(sprout::get<0>(ob) == A0 && sprout::get<1>(ob) == A1, "pop_back"); auto of = sprout::tuples::pop_front(a); static_assert(std::is_same<decltype(of), sprout::tuple<S, long> >::value, ""); c.ok(sprout::get<0>(of) == A1 && sprout::get<1>(of) == A2, "pop_front");
	sprout::tuple<char, S> in('k', std::get<1>(n)); auto ab = sprout::tuples::append_back(a, in); static_assert(std::is_same<decltype(ab), sprout::tuple<int, S, long, char, S> >::value, ""); is3(c, ab, m, "append_back"); c.ok(sprout::get<3>(ab) == 'k' && sprout::get<4>(ab) == std::get<1>(n), "append_back"); auto af = sprout::tuples::append_front(a, in); static_assert(std::is_same<decltype(af), sprout::tuple<char, S, int, S, long> >::value, ""); c.ok(sprout::get<0>(af) == 'k' && sprout::get<1>(af) == std::get<1>(n) && sprout::get<2>(af) == A0 && sprout::get<3>(af) == A1 && sprout::get<4>(af) == A2, "append_front");
	auto cp = sprout::tuples::copy(a, sprout::make_tuple(z)); c.ok(sprout::get<0>(cp) == z && sprout::get<1>(cp) == A1 && sprout::get<2>(cp) == A2, "copy shorter"); auto cp2 = sprout::tuples::copy(a, sprout::make_tuple(z, S("k"), 3, 4, 5)); is3(c, cp2, M3(z, "k", 3), "copy longer"); is3(c, sprout::tuples::copy(a, tp(n)), n, "copy same"); is3(c, sprout::tuples::deep_copy(a), m, "deep_copy"); is3(c, sprout::tuples::make<T3>(A0, A1, A2), m, "make"); is3(c, sprout::tuples::remake<T3>(a, std::get<0>(n), std::get<1>(n), std::get<2>(n)), n, "remake");
	sprout::array<int, 3> ar = {{1, z, 3}}; auto arb = sprout::tuples::pop_front(ar); c.ok(vec(arb) == (std::vector<int>{z, 3}), "pop_front of an array"); c.ok(vec(sprout::tuples::pop_back(ar)) == (std::vector<int>{1, z}), "pop_back of an array"); c.ok(vec(sprout::tuples::push_back(ar, 9)) == (std::vector<int>{1, z, 3, 9}), "push_back to an array"); c.ok(vec(sprout::tuples::append_back(ar, sprout::make_tuple(6, 7))) == (std::vector<int>{1, z, 3, 6, 7}), "append_back to an array"); c.ok(vec(sprout::tuples::copy(ar, sprout::make_tuple(6, 7))) == (std::vector<int>{6, 7, 3}), "copy to an array");
	S want = Fn()(A0, A1, A2); c.eq(sprout::tuples::apply(Fn(), a), want, "apply"); c.eq(sprout::tuples::apply(Fn(), tp(m)), want, "apply rvalue"); c.eq(sprout::tuples::make_fused(Fn())(a), want, "fused"); c.eq(sprout::tuples::fused<Fn>()(tp(m)), want, "fused rvalue"); c.eq(sprout::make_from_tuple<Agg>(a).s, want, "make_from_tuple"); c.eq(sprout::make_from_tuple<Agg>(tp(m)).s, want, "make_from_tuple rvalue"); sprout::tuple<int, S> fs(1, A1); Fwd fw; c.ok(&sprout::tuples::apply(fw, fs) == &sprout::get<1>(fs), "apply passes lvalues"); c.eq(sprout::tuples::apply(fw, sprout::tuple<int, S>(fs)), "rv" + A1, "apply passes rvalues"); c.eq(sprout::tuples::apply(Fn(), sprout::make_pair(z, A1)), Fn()(z, A1), "apply pair"); c.eq(sprout::tuples::apply(Fn(), ar), Fn()(1, z, 3), "apply array"); c.eq(sprout::tuples::apply(Fn(), std::make_tuple(z, A1)), Fn()(z, A1), "apply std::tuple"); c.eq(sprout::tuples::apply(Fn(), std::make_pair(z, A1)), Fn()(z, A1), "apply std::pair");
	sprout::tuple<int, S, long, int, S> fl(sprout::tuples::flexibly_construct, a); is3(c, fl, m, "flexibly longer"); c.ok(sprout::get<3>(fl) == 0 && sprout::get<4>(fl).empty(), "flexibly longer rest is default"); sprout::tuple<int, S> fh(sprout::tuples::flexibly_construct, a); c.ok(sprout::get<0>(fh) == A0 && sprout::get<1>(fh) == A1, "flexibly shorter"); sprout::tuple<int, S, long> f3(sprout::tuples::flexibly_construct, A0, A1); is3(c, f3, M3(A0, A1, 0), "flexibly args"); sprout::tuple<int, S> f4(sprout::tuples::flexibly_construct, A0, A1, A2, 5); c.ok(sprout::get<0>(f4) == A0 && sprout::get<1>(f4) == A1, "flexibly more args"); sprout::tuple<int, S, long, int> fx = sprout::tuples::flex(a); is3(c, fx, m, "flex"); c.eq(sprout::get<3>(fx), 0, "flex"); sprout::tuple<int, S> fx2 = sprout::tuples::flex(a); c.eq(sprout::get<1>(fx2), A1, "flex"); sprout::tuple<int, S, long> fp(sprout::tuples::flexibly_construct, sprout::pair<int, S>(z, A1)); is3(c, fp, M3(z, A1, 0), "flexibly from pair"); sprout::tuple<int, S, long, int> rv(sprout::tuples::flexibly_construct, tp(m)); is3(c, rv, m, "flexibly from rvalue");
	sprout::tuple<int, sprout::tuple<int, S, long, int> > rf = sprout::tuples::recursive_flex(sprout::make_tuple(z, a)); is3(c, sprout::get<1>(rf), m, "recursive_flex"); } }
template<class C, class A, class B> void ord(C& c, A const& a, A const& b, B const& m, B const& n, char const* w) { c.ok((a < b) == (m < n) && (b < a) == (n < m) && (a > b) == (m > n) && (a <= b) == (m <= n) && (a >= b) == (m >= n), w); }
template<class C, class A, class B> void eqs(C& c, A const& a, A const& b, B const& m, B const& n, char const* w) { c.ok((a == b) == (m == n) && (a != b) == (m != n), w); }
// comparison uses < alone for ordering: equivalence by < may differ from ==, and NaN is unordered
MON_TEST(keys) { for (std::uint64_t r = 0; r < reps(300); ++r) { auto rf = [] { return Fine((int)rng().below(2), (int)rng().below(3)); }; auto rd = [] { return rng().below(3) == 0 ? std::numeric_limits<double>::quiet_NaN() : (double)rng().below(2) - (rng().coin() ? 0.0 : 1.0); }; Fine f1 = rf(), f2 = rf(), g1 = rf(), g2 = rf(); double x = rd(), y = rd(); int i = (int)rng().below(3), j = (int)rng().below(3); MON_CASE(c, "comparison by less", f1, f2, g1, g2, x, y, i, j);
	{ typedef sprout::tuple<Fine, int, Fine> A; typedef std::tuple<Fine, int, Fine> B; ord(c, A(f1, i, g1), A(f2, j, g2), B(f1, i, g1), B(f2, j, g2), "tuple keys"); eqs(c, A(f1, i, g1), A(f2, j, g2), B(f1, i, g1), B(f2, j, g2), "tuple keys =="); }
	{ typedef sprout::tuple<double, int> A; typedef std::tuple<double, int> B; ord(c, A(x, i), A(y, j), B(x, i), B(y, j), "tuple NaN"); eqs(c, A(x, i), A(y, j), B(x, i), B(y, j), "tuple NaN =="); }
	{ typedef sprout::pair<Fine, int> A; typedef std::pair<Fine, int> B; ord(c, A(f1, i), A(f2, j), B(f1, i), B(f2, j), "pair keys"); eqs(c, A(f1, i), A(f2, j), B(f1, i), B(f2, j), "pair keys =="); }
	{ typedef sprout::pair<double, Fine> A; typedef std::pair<double, Fine> B; ord(c, A(x, f1), A(y, f2), B(x, f1), B(y, f2), "pair NaN"); eqs(c, A(x, f1), A(y, f2), B(x, f1), B(y, f2), "pair NaN =="); }
	{ typedef sprout::tuple<OnlyLess, OnlyLess> A; typedef std::tuple<OnlyLess, OnlyLess> B; ord(c, A(i, j), A(j, i), B(i, j), B(j, i), "tuple of less only"); ord(c, sprout::pair<OnlyLess, OnlyLess>(i, j), sprout::pair<OnlyLess, OnlyLess>(j, i), std::pair<OnlyLess, OnlyLess>(i, j), std::pair<OnlyLess, OnlyLess>(j, i), "pair of less only"); } count("comparisons", 6); } }
MON_TEST(moves) { for (std::uint64_t r = 0; r < reps(40); ++r) { int x = (int)rng().range(0, 99), y = (int)rng().range(0, 99); MON_CASE(c, "moves and copies", x, y); typedef sprout::tuple<Cnt, Cnt> T; Cnt q(y); T t((Cnt(x)), q); c.ok(sprout::get<0>(t).v == x && sprout::get<1>(t).v == y && q.v == y, "construct"); T u(t); c.ok(sprout::get<0>(t).v == x && sprout::get<0>(u).v == x, "copy leaves the source"); T w(std::move(u)); c.ok(sprout::get<0>(w).v == x && sprout::get<1>(w).v == y && sprout::get<0>(u).v == -1 && sprout::get<1>(u).v == -1 && sprout::get<0>(w).cp == sprout::get<0>(u).cp, "move moves every element once"); T z; z = t; c.ok(sprout::get<0>(z).v == x && sprout::get<0>(t).v == x && sprout::get<1>(t).v == y, "assign copies"); z = std::move(w); c.ok(sprout::get<1>(z).v == y && sprout::get<1>(w).v == -1, "move assign moves");
	typedef std::unique_ptr<int> U; sprout::tuple<U, int> p(U(new int(x)), y); int* raw = sprout::get<0>(p).get(); sprout::tuple<U, int> p2(std::move(p)); c.ok(sprout::get<0>(p2).get() == raw && !sprout::get<0>(p) && sprout::get<1>(p2) == y, "move-only"); sprout::tuple<U, int> p3; p3 = std::move(p2); c.ok(sprout::get<0>(p3).get() == raw && !sprout::get<0>(p2), "move-only assign"); U o = sprout::get<0>(std::move(p3)); c.ok(o.get() == raw, "move-only get"); auto p4 = sprout::make_tuple(std::move(o), y); c.ok(sprout::get<0>(p4).get() == raw && !o, "move-only make_tuple"); auto p5 = sprout::tuple_cat(std::move(p4), sprout::make_tuple(1)); c.ok(sprout::get<0>(p5).get() == raw && sprout::get<1>(p5) == y && sprout::get<2>(p5) == 1, "move-only cat"); sprout::pair<U, int> pr(std::move(sprout::get<0>(p5)), x); c.ok(pr.first.get() == raw, "pair move-only"); sprout::pair<U, int> pr2(std::move(pr)); c.ok(pr2.first.get() == raw && !pr.first, "pair move"); pr = std::move(pr2); c.ok(pr.first.get() == raw && !pr2.first, "pair move assign"); sprout::tuple<U, long> tp2(std::move(pr)); c.ok(sprout::get<0>(tp2).get() == raw && sprout::get<1>(tp2) == x, "tuple from pair rvalue"); sprout::pair<U, int> pr3(std::move(tp2)); c.ok(pr3.first.get() == raw && pr3.second == x, "pair from tuple rvalue"); tp2 = std::move(pr3); c.ok(sprout::get<0>(tp2).get() == raw, "tuple = pair rvalue"); pr3 = std::move(tp2); c.ok(pr3.first.get() == raw && pr3.second == x, "pair = tuple rvalue"); auto mk = sprout::make_pair(std::move(pr3.first), 3); c.ok(mk.first.get() == raw, "make_pair move-only"); } }
#endif
#if MON_PART(2)
template<class C, class P, class Q> void is2(C& c, P const& p, Q const& m, char const* w) { c.ok(p.first == m.first && p.second == m.second, w); c.ok(&sprout::get<0>(p) == &p.first && &sprout::get<1>(p) == &p.second && &sprout::first(p) == &p.first && &sprout::second(p) == &p.second, "get/first/second identity"); }
MON_TEST(pairs) { for (std::uint64_t r = 0; r < reps(150); ++r) { typedef std::pair<int, S> M; typedef sprout::pair<int, S> P; M m((int)rng().range(-2, 2), rs()), n((int)rng().range(-2, 2), rs()); MON_CASE(c, "pair", m, n); P a(m.first, m.second), b(n.first, n.second), d; is2(c, a, m, "construct"); is2(c, d, M(), "default"); d = a; is2(c, d, m, "assign"); is2(c, a, m, "source"); d = P(b); is2(c, d, n, "move assign"); P e(a); is2(c, e, m, "copy"); e.swap(b); is2(c, e, n, "swap"); is2(c, b, m, "swap"); { using sprout::swap; swap(e, b); } is2(c, b, n, "swap");
	c.ok((a == b) == (m == n) && (a != b) == (m != n) && (a < b) == (m < n) && (a > b) == (m > n) && (a <= b) == (m <= n) && (a >= b) == (m >= n), "comparison"); c.ok(sprout::to_hash(a) == sprout::to_hash(e) && std::hash<P>()(a) == sprout::to_hash(e), "hash"); sprout::pair<long, S> w(a); is2(c, w, m, "convert"); sprout::pair<long, S> w2((P(b))); is2(c, w2, n, "convert rvalue"); w2 = a; is2(c, w2, m, "convert assign"); w2 = P(b); is2(c, w2, n, "convert move assign"); c.ok(static_cast<M>(a) == m, "to std::pair"); is2(c, sprout::make_pair(m.first, m.second), m, "make_pair"); is2(c, sprout::make_pair(M(m).first, M(m).second), m, "make_pair rvalue");
	sprout::tuple<int, S> t(m.first, m.second), tn(n.first, n.second); P ft(t); is2(c, ft, m, "from tuple"); P ftr((sprout::tuple<int, S>(t))); is2(c, ftr, m, "from tuple rvalue"); d = tn; is2(c, d, n, "assign from tuple"); d = sprout::tuple<int, S>(t); is2(c, d, m, "assign from tuple rvalue"); sprout::tuple<long, S> tfp(a); c.ok(sprout::get<0>(tfp) == m.first && sprout::get<1>(tfp) == m.second, "tuple from pair"); tfp = b; c.ok(sprout::get<0>(tfp) == n.first && sprout::get<1>(tfp) == n.second, "tuple = pair"); tfp = P(a); c.ok(sprout::get<0>(tfp) == m.first && sprout::get<1>(tfp) == m.second, "tuple = pair rvalue"); is2(c, a, m, "source");
	int k = (int)rng().range(0, 5); sprout::pair<S, std::vector<int> > pw(std::piecewise_construct, sprout::make_tuple((std::size_t)k, 'z'), sprout::make_tuple((std::size_t)3, 7)); c.ok(pw.first == S(k, 'z') && pw.second == std::vector<int>(3, 7), "piecewise"); sprout::pair<S, int> pw0(std::piecewise_construct, sprout::tuple<>(), sprout::make_tuple(k)); c.ok(pw0.first.empty() && pw0.second == k, "piecewise empty"); S g1 = sprout::get<1>(P(a)); c.eq(g1, m.second, "get rvalue"); c.ok(sprout::tuples::tuple_size<P>::value == 2 && std::is_same<sprout::tuples::tuple_element<1, P>::type, S>::value && std::tuple_size<P>::value == 2, "tuple protocol"); } }
template<class A, class B, class F, class G> void cpair(char const* nm, F f, G g) { for (std::uint64_t r = 0; r < reps(40); ++r) { A a1 = f(), a2 = f(); B b1 = g(), b2 = g(); MON_CASE(c, nm, r); typedef sprout::compressed_pair<A, B> P; P p(a1, b1), q(a2, b2); P const& k = p; c.ok(p.first() == a1 && p.second() == b1 && k.first() == a1 && k.second() == b1, "construct"); P e(p); c.ok(e.first() == a1 && e.second() == b1, "copy"); e = q; c.ok(e.first() == a2 && e.second() == b2, "assign"); p.swap(q); c.ok(p.first() == a2 && p.second() == b2 && q.first() == a1 && q.second() == b1, "swap"); { using sprout::swap; swap(p, q); } c.ok(p.first() == a1 && p.second() == b1 && q.first() == a2, "swap"); P d; c.ok(d.first() == A() && d.second() == B(), "default"); d.first() = a1; c.ok(d.first() == a1 && d.second() == B(), "write first"); d.second() = b1; c.ok(d.first() == a1 && d.second() == b1, "write second"); c.ok((void const*)&k.first() != (void const*)&k.second() || std::is_empty<A>::value || std::is_empty<B>::value, "distinct"); P f1(a1); c.ok(f1.first() == a1, "from the first"); } }
struct Em { bool operator==(Em const&) const { return true; } int tag() const { return 1; } }; struct En { bool operator==(En const&) const { return true; } int tag() const { return 2; } };
MON_TEST(compressed) { auto I = [] { return (int)rng().range(-9, 9); }; auto St = [] { return rs(); }; auto E = [] { return Em(); }; auto N = [] { return En(); }; cpair<int, S>("compressed int,string", I, St); cpair<S, int>("compressed string,int", St, I); cpair<Em, S>("compressed empty,string", E, St); cpair<S, Em>("compressed string,empty", St, E); cpair<int, Em>("compressed int,empty", I, E); cpair<Em, En>("compressed empty,empty", E, N); cpair<Em, Em>("compressed same empty", E, E); cpair<S, S>("compressed same string", St, St); cpair<Tag, int>("compressed Tag,int", [] { return Tag((int)rng().below(9), 0); }, I);
	MON_CASE(c, "compressed layout", 0); c.ok(sizeof(sprout::compressed_pair<int, Em>) == sizeof(int) && sizeof(sprout::compressed_pair<Em, int>) == sizeof(int) && sizeof(sprout::compressed_pair<Em, En>) == 1, "empty members take no space"); sprout::compressed_pair<Em, En> p; c.ok(p.first().tag() == 1 && p.second().tag() == 2, "both empty members are reachable"); sprout::compressed_pair<int, S> s2(S("w")); c.ok(s2.second() == "w", "from the second"); int x = 4; S y = "r"; sprout::compressed_pair<int&, S&> rr(x, y); c.ok(&rr.first() == &x && &rr.second() == &y, "references"); }
#endif
