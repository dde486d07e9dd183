// C10: container operations (insert, erase, push, pop, append, resize, realign, set) against a vector model.
#include <spr.hpp>
#include <sprout/operation.hpp>
#include <sprout/operation/fit.hpp>
#include <sprout/string.hpp>
#include <sprout/container/std/array.hpp>
#include <array>
using namespace mon;
#if MON_PART(2)
typedef char E; static E ge() { return char('a' + rng().below(20)); }
#else
typedef int E; static E ge() { return (int)rng().range(1, 99); }
#endif
typedef std::vector<E> V;
static V gv(std::size_t n) { V v; for (std::size_t i = 0; i < n; ++i) v.push_back(ge()); return v; }

// inserts/erases at every position, through index and iterator forms, fixed and fit
template<class C> void grow(std::string const& lab, C const& c, V const& m) {
	E x = ge(), y = ge(), z = ge(); sprout::array<E, 3> in = {{x, y, z}}; sprout::array<E, 0> in0 = {{}}; V iv; iv.push_back(x); iv.push_back(y); iv.push_back(z);
	typedef typename sprout::container_traits<C>::difference_type D;
	for (std::size_t p = 0; p <= m.size(); ++p) {
		D pos = (D)p; auto it = sprout::next(sprout::begin(c), pos);
		V w1 = m; w1.insert(w1.begin() + p, x); V w3 = m; w3.insert(w3.begin() + p, iv.begin(), iv.end());
		V n2; n2.push_back(x); n2.push_back(x); V w2 = m; w2.insert(w2.begin() + p, n2.begin(), n2.end());
		V n22; n22.push_back(x); n22.push_back(y); n22.push_back(x); n22.push_back(y); V w22 = m; w22.insert(w22.begin() + p, n22.begin(), n22.end());
		{ MON_CASE(k, lab + "insert", m, p, x, y, z);
		  k.eq(sprout::fixed::insert(c, pos, x), w1, "fixed"); k.eq(sprout::fixed::insert(c, it, x), w1, "fixed it"); k.eq(sprout::fit::insert(c, pos, x), w1, "fit"); k.eq(sprout::fit::insert(c, it, x), w1, "fit it");
		  k.eq(sprout::fixed::insert(c, pos, x, y, z), w3, "fixed 3"); k.eq(sprout::fixed::insert(c, it, x, y, z), w3, "fixed it 3"); k.eq(sprout::fit::insert(c, pos, x, y, z), w3, "fit 3"); k.eq(sprout::fit::insert(c, it, x, y, z), w3, "fit it 3"); k.eq(sprout::insert(c, pos, x), w1, "plain"); }
		{ MON_CASE(k, lab + "insert_n", m, p, x, y);
		  k.eq(sprout::fixed::insert_n<2>(c, pos, x), w2, "fixed"); k.eq(sprout::fixed::insert_n<2>(c, it, x), w2, "fixed it"); k.eq(sprout::fit::insert_n<2>(c, pos, x), w2, "fit"); k.eq(sprout::fit::insert_n<2>(c, it, x), w2, "fit it");
		  k.eq(sprout::fixed::insert_n<2>(c, pos, x, y), w22, "fixed 2x2"); k.eq(sprout::fit::insert_n<2>(c, it, x, y), w22, "fit 2x2"); k.eq(sprout::fixed::insert_n<0>(c, pos, x), m, "zero"); k.eq(sprout::fit::insert_n<0>(c, pos, x), m, "fit zero"); }
		{ MON_CASE(k, lab + "append", m, p, iv);
		  k.eq(sprout::fixed::append(c, pos, in), w3, "fixed"); k.eq(sprout::fixed::append(c, it, in), w3, "fixed it"); k.eq(sprout::fit::append(c, pos, in), w3, "fit"); k.eq(sprout::fit::append(c, it, in), w3, "fit it"); k.eq(sprout::append(c, pos, in), w3, "plain");
		  k.eq(sprout::fixed::append(c, pos, in0), m, "empty"); k.eq(sprout::fit::append(c, pos, sprout::sub(in, 1, 3)), [&] { V w = m; w.insert(w.begin() + p, iv.begin() + 1, iv.end()); return w; }(), "fit view input"); }
	}
	{ MON_CASE(k, lab + "push_back", m, x, y, z); V w1 = m; w1.push_back(x); V w3 = m; w3.insert(w3.end(), iv.begin(), iv.end()); V w2 = m; w2.push_back(x); w2.push_back(x); V w22 = w1; w22.push_back(y); w22.push_back(x); w22.push_back(y);
	  k.eq(sprout::fixed::push_back(c, x), w1, "fixed"); k.eq(sprout::fit::push_back(c, x), w1, "fit"); k.eq(sprout::fixed::push_back(c, x, y, z), w3, "fixed 3"); k.eq(sprout::fit::push_back(c, x, y, z), w3, "fit 3"); k.eq(sprout::push_back(c, x), w1, "plain");
	  k.eq(sprout::fixed::push_back_n<2>(c, x), w2, "n fixed"); k.eq(sprout::fit::push_back_n<2>(c, x), w2, "n fit"); k.eq(sprout::fixed::push_back_n<2>(c, x, y), w22, "n fixed 2x2"); k.eq(sprout::fit::push_back_n<2>(c, x, y), w22, "n fit 2x2");
	  k.eq(sprout::fixed::append_back(c, in), w3, "append_back fixed"); k.eq(sprout::fit::append_back(c, in), w3, "append_back fit"); k.eq(sprout::append_back(c, in), w3, "append_back plain"); k.eq(sprout::fit::append_back(c, sprout::sub(in, 1, 2)), [&] { V w = m; w.push_back(y); return w; }(), "append_back view"); }
	{ MON_CASE(k, lab + "push_front", m, x, y, z); V w1 = m; w1.insert(w1.begin(), x); V w3 = m; w3.insert(w3.begin(), iv.begin(), iv.end()); V w2 = w1; w2.insert(w2.begin(), x); V w22 = m; { V n; n.push_back(x); n.push_back(y); n.push_back(x); n.push_back(y); w22.insert(w22.begin(), n.begin(), n.end()); }
	  k.eq(sprout::fixed::push_front(c, x), w1, "fixed"); k.eq(sprout::fit::push_front(c, x), w1, "fit"); k.eq(sprout::fixed::push_front(c, x, y, z), w3, "fixed 3"); k.eq(sprout::fit::push_front(c, x, y, z), w3, "fit 3"); k.eq(sprout::push_front(c, x), w1, "plain");
	  k.eq(sprout::fixed::push_front_n<2>(c, x), w2, "n fixed"); k.eq(sprout::fit::push_front_n<2>(c, x), w2, "n fit"); k.eq(sprout::fixed::push_front_n<2>(c, x, y), w22, "n fixed 2x2"); k.eq(sprout::fit::push_front_n<2>(c, x, y), w22, "n fit 2x2");
	  k.eq(sprout::fixed::append_front(c, in), w3, "append_front fixed"); k.eq(sprout::fit::append_front(c, in), w3, "append_front fit"); k.eq(sprout::append_front(c, in), w3, "append_front plain"); }
	{ MON_CASE(k, lab + "grow/source", m); k.eq(vec(c), m); }
}
template<class C> void shrink(std::string const& lab, C const& c, V const& m) {
	typedef typename sprout::container_traits<C>::difference_type D;
	for (std::size_t p = 0; p < m.size(); ++p) {
		D pos = (D)p; auto it = sprout::next(sprout::begin(c), pos); V w = m; w.erase(w.begin() + p);
		{ MON_CASE(k, lab + "erase", m, p); k.eq(sprout::fixed::erase(c, pos), w, "fixed"); k.eq(sprout::fixed::erase(c, it), w, "fixed it"); k.eq(sprout::fit::erase(c, pos), w, "fit"); k.eq(sprout::fit::erase(c, it), w, "fit it"); k.eq(sprout::erase(c, pos), w, "plain"); }
		if (p + 2 <= m.size()) { V w2 = w; w2.erase(w2.begin() + p); MON_CASE(k, lab + "erase_n", m, p); k.eq(sprout::fixed::erase_n<2>(c, pos), w2, "fixed"); k.eq(sprout::fixed::erase_n<2>(c, it), w2, "fixed it"); k.eq(sprout::fit::erase_n<2>(c, pos), w2, "fit"); k.eq(sprout::fit::erase_n<2>(c, it), w2, "fit it"); k.eq(sprout::fixed::erase_n<0>(c, pos), m, "zero"); }
		{ E x = ge(); V s = m; s[p] = x; MON_CASE(k, lab + "set", m, p, x); k.eq(sprout::fixed::set(c, pos, x), s, "fixed"); k.eq(sprout::fixed::set(c, it, x), s, "fixed it"); k.eq(sprout::fit::set(c, pos, x), s, "fit"); k.eq(sprout::fit::set(c, it, x), s, "fit it"); k.eq(sprout::set(c, pos, x), s, "plain"); }
	}
	if (m.size() >= 1) { MON_CASE(k, lab + "pop", m); V b(m.begin(), m.end() - 1), f(m.begin() + 1, m.end()); k.eq(sprout::fixed::pop_back(c), b, "back fixed"); k.eq(sprout::fit::pop_back(c), b, "back fit"); k.eq(sprout::fixed::pop_front(c), f, "front fixed"); k.eq(sprout::fit::pop_front(c), f, "front fit"); k.eq(sprout::pop_back(c), b, "plain"); k.eq(sprout::pop_front(c), f, "plain"); k.eq(sprout::fixed::pop_front_n<1>(c), f, "front_n 1"); k.eq(sprout::fit::pop_back_n<1>(c), b, "back_n 1"); }
	if (m.size() >= 2) { MON_CASE(k, lab + "pop_n", m); V b(m.begin(), m.end() - 2), f(m.begin() + 2, m.end()); k.eq(sprout::fixed::pop_back_n<2>(c), b, "back fixed"); k.eq(sprout::fit::pop_back_n<2>(c), b, "back fit"); k.eq(sprout::fixed::pop_front_n<2>(c), f, "front fixed"); k.eq(sprout::fit::pop_front_n<2>(c), f, "front fit"); }
	{ MON_CASE(k, lab + "shrink/source", m); k.eq(vec(c), m); }
}
static V rs(V m, std::size_t n, E v) { m.resize(n, v); return m; }
static V rb(V const& m, std::size_t n, E v) { V r; for (std::size_t i = 0; i < n; ++i) { std::ptrdiff_t j = (std::ptrdiff_t)i - ((std::ptrdiff_t)n - (std::ptrdiff_t)m.size()); r.push_back(j >= 0 ? m[j] : v); } return r; }
template<std::size_t M, class C> void sz(std::string const& lab, C const& c, V const& m) {
	E v = ge(); MON_CASE(k, lab + "resize", m, (int)M, v);
	k.eq(sprout::fixed::resize<M>(c, v), rs(m, M, v), "fixed v"); k.eq(sprout::fixed::resize<M>(c), rs(m, M, E()), "fixed"); k.eq(sprout::fit::resize<M>(c, v), rs(m, M, v), "fit v"); k.eq(sprout::fit::resize<M>(c), rs(m, M, E()), "fit"); k.eq(sprout::resize<M>(c, v), rs(m, M, v), "plain");
	k.eq(sprout::fixed::resize_backward<M>(c, v), rb(m, M, v), "back fixed v"); k.eq(sprout::fixed::resize_backward<M>(c), rb(m, M, E()), "back fixed"); k.eq(sprout::fit::resize_backward<M>(c, v), rb(m, M, v), "back fit v"); k.eq(sprout::fit::resize_backward<M>(c), rb(m, M, E()), "back fit"); k.eq(vec(c), m, "source");
}
template<class C> void realign(std::string const& lab, C const& c, V const& m, std::size_t cap) {
	E v = ge(); MON_CASE(k, lab + "realign", m, cap, v); k.eq(sprout::fixed::realign(c, v), rs(m, cap, v), "fixed v"); k.eq(sprout::fixed::realign(c), rs(m, cap, E()), "fixed"); k.eq(sprout::fit::realign(c, v), m, "fit v"); k.eq(sprout::fit::realign(c), m, "fit");
	typedef sprout::array<E, 9> A9; typedef sprout::array<E, 2> A2; k.eq(sprout::fixed::realign_to<A9>(c, v), rs(m, 9, v), "to fixed v"); k.eq(sprout::fixed::realign_to<A9>(c), rs(m, 9, E()), "to fixed"); k.eq(sprout::fit::realign_to<A9>(c, v), m, "to fit v"); k.eq(sprout::fit::realign_to<A9>(c), m, "to fit"); k.eq(sprout::fixed::realign_to<A2>(c, v), rs(m, 2, v), "to smaller"); k.eq(sprout::fixed::realign_to<A2>(c), rs(m, 2, E()), "to smaller d");
	k.eq(sprout::fit::realign_to<A2>(c, v), rs(m, std::min<std::size_t>(2, m.size()), v), "fit to smaller v"); k.eq(sprout::fit::realign_to<A2>(c), rs(m, std::min<std::size_t>(2, m.size()), v), "fit to smaller"); k.eq(vec(c), m, "source");
}
#if MON_PART(0)
template<bool Two, bool One> struct Sh { template<class C> static void f(std::string const& l, C const& c, V const& m) { shrink(l, c, m); } };
template<bool One> struct Sh<false, One> { template<class C> static void f(std::string const&, C const&, V const&) {} };
struct AF { template<class I> void operator()(I) { const std::size_t N = I::value;
	for (std::uint64_t r = 0; r < reps(12, 20); ++r) { V m = gv(N); sprout::array<E, N> a = arr<E, N>(m); grow("array/", a, m); Sh<(N >= 2), (N >= 1)>::f("array/", a, m); sz<0>("array/", a, m); sz<1>("array/", a, m); sz<N + 3>("array/", a, m); sz<4>("array/", a, m); realign("array/", a, m, N); } } };
MON_TEST(arrays) { AF f; sizes<0, 1, 2, 3, 6>::each(f); }
#endif
#if MON_PART(1)
template<class C> void sub_all(std::string const& l, C const& c, V const& m) { grow(l, c, m); shrink(l, c, m); sz<3>(l, c, m); sz<8>(l, c, m); realign(l, c, m, 6); }
MON_TEST(views) { for (std::uint64_t r = 0; r < reps(1, 20); ++r) for (int b = 0; b <= 6; ++b) for (int e = b; e <= 6; ++e) { V base = gv(6), m(base.begin() + b, base.begin() + e); sprout::array<E, 6> a = arr<E, 6>(base); auto s = sprout::sub(a, b, e); sub_all("view/", s, m); auto c = sprout::sub_copy(a, b, e); sub_all("sub/", c, m); auto cs = sprout::csub(a, b, e); sub_all("cview/", cs, m); MON_CASE(k, "view/base", base, b, e); k.eq(a, base); } }
#endif
#if MON_PART(2)
MON_TEST(strings) { for (std::uint64_t r = 0; r < reps(40, 20); ++r) { std::size_t n = rng().below(7); V m = gv(n); sprout::basic_string<char, 6> s = {}; s.assign(m.data(), n); grow("string/", s, m); shrink("string/", s, m); } }
#endif
#if MON_PART(3)
MON_TEST(std_array) { for (std::uint64_t r = 0; r < reps(20, 20); ++r) { V m = gv(5); std::array<E, 5> a; std::copy(m.begin(), m.end(), a.begin()); grow("std::array/", a, m); shrink("std::array/", a, m); sz<2>("std::array/", a, m); sz<7>("std::array/", a, m); realign("std::array/", a, m, 5); } }
#endif
