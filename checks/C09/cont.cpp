// C09: fixed-size containers, views and the container functions against an element model.
#include <spr.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/pit.hpp>
#include <sprout/sized_pit.hpp>
#include <sprout/container.hpp>
#include <sprout/container/std/array.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/iterator/operation.hpp>
#include <sprout/tuple.hpp>
#include <array>
using namespace mon;
typedef std::vector<int> V;

template<class T> struct gen;
template<> struct gen<int> { static int f() { return (int)rng().range(-3, 3); } };
template<> struct gen<double> { static double f() { return rng().range(-8, 8) / 4.0; } };
template<> struct gen<std::string> { static std::string f() { return std::string(1 + rng().below(40), char('a' + rng().below(3))); } };
template<class T> std::vector<T> gv(std::size_t n) { std::vector<T> v; for (std::size_t i = 0; i < n; ++i) v.push_back(gen<T>::f()); return v; }

// everything reachable through the generic container functions (read only)
template<class C, class T> void readers(char const* lab, C const& c, std::vector<T> const& m) {
	std::string n(lab);
	{ MON_CASE(k, n + "/size", m); k.eq((long long)sprout::size(c), (long long)m.size()); k.eq(sprout::empty(c), m.empty(), "empty"); }
	{ MON_CASE(k, n + "/iterate", m); std::vector<T> r; for (auto i = sprout::begin(c); i != sprout::end(c); ++i) r.push_back(*i); k.eq(r, m);
	  k.eq((long long)sprout::distance(sprout::begin(c), sprout::end(c)), (long long)m.size(), "distance");
	  std::vector<T> r2; for (auto i = sprout::cbegin(c); i != sprout::cend(c); ++i) r2.push_back(*i); k.eq(r2, m, "cbegin");
	  std::vector<T> r3(m.rbegin(), m.rend()), r4; for (auto i = sprout::end(c); i != sprout::begin(c);) { --i; r4.push_back(*i); } k.eq(r4, r3, "backwards"); }
	if (!m.empty()) { MON_CASE(k, n + "/front_back", m); k.eq(sprout::front(c), m.front(), "front"); k.eq(sprout::back(c), m.back(), "back"); k.eq(sprout::cfront(c), m.front(), "cfront"); k.eq(sprout::cback(c), m.back(), "cback"); }
	for (std::size_t i = 0; i < m.size(); ++i) { MON_CASE(k, n + "/index", m, i);
		k.eq(sprout::subscript_at(c, i), m[i], "subscript_at"); k.eq(sprout::csubscript_at(c, i), m[i], "csubscript_at"); k.eq(sprout::at(c, i), m[i], "at"); k.eq(sprout::cat(c, i), m[i], "cat");
		k.eq(*sprout::nth(c, i), m[i], "nth"); k.eq(*sprout::cnth(c, i), m[i], "cnth");
		k.eq((long long)sprout::index_of(c, sprout::nth(c, i)), (long long)i, "index_of"); k.eq((long long)sprout::cindex_of(c, sprout::next(sprout::begin(c), i)), (long long)i, "cindex_of");
		k.eq(&sprout::at(c, i) == &*sprout::next(sprout::begin(c), i), true, "same element"); }
	std::size_t bad[] = {m.size(), m.size() + 1, m.size() + 7, (std::size_t)-1, (std::size_t)-2, (std::size_t)1 << 63};
	for (std::size_t i : bad) { MON_CASE(k, n + "/out_of_range", m, i); throws<std::out_of_range>(k, [&] { (void)sprout::at(c, i); }, "at"); throws<std::out_of_range>(k, [&] { (void)sprout::cat(c, i); }, "cat");
	}
}
template<class C, class T> void writers(char const* lab, C& c, std::vector<T> m) {
	std::string n(lab);
	for (std::size_t i = 0; i < m.size(); ++i) { MON_CASE(k, n + "/write", m, i); T x = gen<T>::f();
		switch (rng().below(5)) { case 0: sprout::subscript_at(c, i) = x; break; case 1: sprout::at(c, i) = x; break; case 2: *sprout::nth(c, i) = x; break; case 3: *sprout::next(sprout::begin(c), i) = x; break; default: *sprout::prev(sprout::end(c), m.size() - i) = x; }
		m[i] = x; std::vector<T> r; for (auto j = sprout::begin(c); j != sprout::end(c); ++j) r.push_back(*j); k.eq(r, m); }
	if (!m.empty()) { MON_CASE(k, n + "/write_fb", m); T x = gen<T>::f(), y = gen<T>::f(); sprout::front(c) = x; m.front() = x; std::vector<T> r; for (auto j = sprout::begin(c); j != sprout::end(c); ++j) r.push_back(*j); k.eq(r, m, "front");
		sprout::back(c) = y; m.back() = y; r.clear(); for (auto j = sprout::begin(c); j != sprout::end(c); ++j) r.push_back(*j); k.eq(r, m, "back");
		std::size_t bad[] = {m.size(), m.size() + 3, (std::size_t)-1}; for (std::size_t i : bad) throws<std::out_of_range>(k, [&] { (void)sprout::at(c, i); }, "at"); }
}
// members common to array, sub_array, pit
template<class C, class T> void members(char const* lab, C& c, std::vector<T> const& m, bool all = true) {
	std::string n(lab); C const& cc = c;
	MON_CASE(k, n + "/members", m); k.eq((long long)c.size(), (long long)m.size(), "size"); k.eq(cc.empty(), m.empty(), "empty");
	k.eq(vec(c), m, "iterate"); k.eq(vec(cc), m, "const iterate"); std::vector<T> r; for (auto i = cc.cbegin(); i != cc.cend(); ++i) r.push_back(*i); k.eq(r, m, "cbegin");
	for (std::size_t i = 0; i < m.size(); ++i) { k.eq(c[i], m[i], "[]"); k.eq(cc[i], m[i], "const[]"); k.eq(c.at(i), m[i], "at"); k.eq(cc.at(i), m[i], "const at"); }
	if (!m.empty()) { k.eq(c.front(), m.front(), "front"); k.eq(cc.front(), m.front(), "cfront"); k.eq(c.back(), m.back(), "back"); k.eq(cc.back(), m.back(), "cback"); }
	std::size_t bad[] = {m.size(), m.size() + 1, (std::size_t)-1, (std::size_t)1 << 63};
	for (std::size_t i : bad) { throws<std::out_of_range>(k, [&] { (void)c.at(i); }, "at"); throws<std::out_of_range>(k, [&] { (void)cc.at(i); }, "const at"); throws<std::out_of_range>(k, [&] { cc.rangecheck(i); }, "rangecheck"); }
	for (std::size_t i = 0; i < m.size(); ++i) { try { cc.rangecheck(i); } catch (...) { k.failed("rangecheck throws in range"); } }
}
template<class C, class T> void nthm(char const* lab, C& c, std::vector<T> const& m) {
	C const& cc = c; MON_CASE(k, std::string(lab) + "/nth", m);
	for (std::size_t i = 0; i < m.size(); ++i) { k.eq(*c.nth(i), m[i], "nth"); k.eq(*cc.nth(i), m[i], "const nth"); k.eq((long long)c.index_of(c.nth(i)), (long long)i, "index_of"); k.eq((long long)cc.index_of(cc.nth(i)), (long long)i, "const index_of"); }
	std::size_t bad[] = {m.size() + 1, m.size() + 9, (std::size_t)-1}; for (std::size_t i : bad) { throws<std::out_of_range>(k, [&] { (void)c.nth(i); }, "nth"); throws<std::out_of_range>(k, [&] { (void)cc.nth(i); }, "const nth"); }
	if (!m.empty()) { k.ok(c.data() == &*c.begin(), "data"); k.ok(cc.data() == &*cc.begin(), "const data"); k.ok(c.c_array() == c.data(), "c_array"); k.ok(cc.c_array() == cc.data(), "const c_array"); }
}
template<class C, class T> void rev(char const* lab, C& c, std::vector<T> const& m) {
	C const& cc = c; MON_CASE(k, std::string(lab) + "/reverse", m); std::vector<T> w(m.rbegin(), m.rend()), a, b, d; for (auto i = c.rbegin(); i != c.rend(); ++i) a.push_back(*i); for (auto i = cc.rbegin(); i != cc.rend(); ++i) b.push_back(*i); for (auto i = cc.crbegin(); i != cc.crend(); ++i) d.push_back(*i);
	k.eq(a, w, "rbegin"); k.eq(b, w, "const rbegin"); k.eq(d, w, "crbegin");
}
template<class A, class T> void compare(char const* lab, A const& a, A const& b, std::vector<T> const& x, std::vector<T> const& y) {
	MON_CASE(k, std::string(lab) + "/compare", x, y); k.eq(a == b, x == y, "=="); k.eq(a != b, x != y, "!="); k.eq(a < b, x < y, "<"); k.eq(a > b, x > y, ">"); k.eq(a <= b, x <= y, "<="); k.eq(a >= b, x >= y, ">=");
}
template<class A> void hashes(char const* lab, A const& a, A const& b) { MON_CASE(k, std::string(lab) + "/hash"); if (a == b) { k.eq(sprout::hash<A>()(a), sprout::hash<A>()(b), "equal values hash equal"); k.eq(sprout::hash_value(a), sprout::hash<A>()(a), "hash_value"); k.eq(std::hash<A>()(a), sprout::hash<A>()(a), "std::hash"); } }

#if MON_PART(0)
template<class T> struct ArrF { template<class I> void operator()(I) {
	const std::size_t N = I::value; typedef sprout::array<T, N> A;
	for (std::uint64_t r = 0; r < reps(N ? 25 : 2); ++r) {
		std::vector<T> m = gv<T>(N), y = rng().coin() ? m : gv<T>(N); if (N && rng().coin(1, 3)) y[rng().below(N)] = gen<T>::f();
		A a = arr<T, N>(m), b = arr<T, N>(y); A const& ca = a;
		readers("array", ca, m); members("array", a, m); nthm("array", a, m); rev("array", a, m); compare("array", a, b, m, y);
		{ A w = a; writers("array", w, m); }
		{ MON_CASE(k, "array/fill", m); A w = a; T v = gen<T>::f(); w.fill(v); k.eq(w, std::vector<T>(N, v)); k.eq(ca.fill(v), std::vector<T>(N, v), "const fill"); A z = a; z.assign(v); k.eq(z, std::vector<T>(N, v), "assign"); k.eq(ca.assign(v), std::vector<T>(N, v), "const assign"); k.eq(ca, m, "original"); }
		{ MON_CASE(k, "array/swap", m, y); A p = a, q = b; p.swap(q); k.eq(p, y); k.eq(q, m); swap(p, q); k.eq(p, m); k.eq(q, y); sprout::swap(p, q); k.eq(p, y, "sprout::swap"); k.eq(q, m); }
		{ MON_CASE(k, "array/copy", m, y); A p = b; p = a; k.eq(p, m); A q = a; k.eq(q, m); A s = b; s = A(a); k.eq(s, m); }
		{ MON_CASE(k, "array/std", m); std::array<T, N> s = a; k.eq(std::vector<T>(s.begin(), s.end()), m, "to std::array"); k.eq(sprout::to_array(s), m, "to_array(std)"); }
		{ A e = a; hashes("array", a, e); hashes("array", a, b); }
		{ MON_CASE(k, "array/deep_copy", m); k.eq(sprout::deep_copy(a), m); k.eq(sprout::deep_copy(ca), m, "const"); }
	}
} };
MON_TEST(array_int) { ArrF<int> f; sizes<0, 1, 2, 3, 7, 8>::each(f); }
MON_TEST(array_string) { ArrF<std::string> f; sizes<1, 4>::each(f); }
template<class T, class G> void keyed(char const* nm, G g) { for (std::uint64_t r = 0; r < reps(150); ++r) { typedef sprout::array<T, 3> A; std::vector<T> x, y; A a, b; for (int i = 0; i < 3; ++i) { x.push_back(g()); y.push_back(g()); a[i] = x[i]; b[i] = y[i]; } compare(nm, a, b, x, y); typedef sprout::sub_array<A const&> S; std::size_t f = rng().below(3), l = f + 1 + rng().below(3 - f), f2 = rng().below(3), l2 = f2 + 1 + rng().below(3 - f2); compare(nm, S(a, f, l), S(b, f2, l2), std::vector<T>(x.begin() + f, x.begin() + l), std::vector<T>(y.begin() + f2, y.begin() + l2)); } }
MON_TEST(array_keys) { keyed<Fine>("keys", [] { return Fine((int)rng().below(2), (int)rng().below(3)); }); keyed<double>("NaN", [] { return rng().below(4) == 0 ? std::numeric_limits<double>::quiet_NaN() : (double)rng().below(2); }); }
MON_TEST(array_make) {
	for (std::uint64_t r = 0; r < reps(40); ++r) { V m = rand_seq(5, -9, 9); MON_CASE(k, "make_array", m); int a = m[0], b = m[1], c = m[2], d = m[3];
		k.eq(sprout::make_array<int>(a, b, c, d), V({a, b, c, d}), "typed"); k.eq(sprout::make_array(a, b, c), V({a, b, c}), "deduced"); k.eq(sprout::make_array<int, 6>(a, b, c), V({a, b, c, 0, 0, 0}), "padded"); k.eq(sprout::make_array<5>(a, b), V({a, b, 0, 0, 0}), "padded deduced");
		k.eq(sprout::make_common_array(a, (long long)b), V({a, b}), "common"); k.eq(sprout::make_common_array<4>(a, (long long)b), V({a, b, 0, 0}), "common padded"); k.eq(sprout::make_array<double>(a, b), std::vector<double>({(double)a, (double)b}), "converted"); k.eq(sprout::make_array_without_narrowing(a, b, c), V({a, b, c}), "nn"); k.eq(sprout::make_array_without_narrowing<int, 4>(a, b, c), V({a, b, c, 0}), "nn");
		int raw[4] = {a, b, c, d}; k.eq(sprout::to_array(raw), V({a, b, c, d}), "to_array");
		static_assert(std::is_same<decltype(sprout::make_common_array(1, 2.5)), sprout::array<double, 2> >::value, ""); static_assert(std::is_same<sprout::nested_array_t<int, 2, 3>::type, sprout::array<sprout::array<int, 2>, 3> >::value, "");
		auto t = sprout::make_array<int>(a, b, c); auto const& ct = t; k.eq(sprout::tuples::get<0>(t), a, "get"); k.eq(sprout::tuples::get<1>(ct), b, "get"); k.eq(sprout::tuples::get<2>(sprout::make_array<int>(a, b, c)), c, "get&&"); sprout::tuples::get<2>(t) = 77; k.eq(t, V({a, b, 77}), "get write"); static_assert(std::tuple_size<decltype(t)>::value == 3, ""); static_assert(std::is_same<std::tuple_element<1, decltype(t)>::type, int>::value, ""); }
}
#endif
#if MON_PART(1)
template<class T> struct SubF { template<class I> void operator()(I) {
	const std::size_t N = I::value; typedef sprout::array<T, N> A; typedef sprout::sub_array<A&> SR; typedef sprout::sub_array<A const&> SC; typedef sprout::sub_array<A> SV;
	for (std::size_t b = 0; b <= N; ++b) for (std::size_t e = b; e <= N; ++e) {
		std::vector<T> base = gv<T>(N); A a = arr<T, N>(base); A const& ca = a; std::vector<T> m(base.begin() + b, base.begin() + e);
		SR s1 = sprout::sub(a, a.begin() + b, a.begin() + e), s2 = sprout::sub(a, (int)b, (int)e), s3 = sprout::sub_window(a, b, e), s4 = sprout::sub_offset(a, b, (std::ptrdiff_t)e - (std::ptrdiff_t)N);
		{ MON_CASE(k, "sub/make", base, b, e); k.eq(s1, m, "sub iters"); k.eq(s2, m, "sub offs"); k.eq(s3, m, "sub_window"); k.eq(s4, m, "sub_offset");
		  k.eq(sprout::sub(a, a.begin() + b), std::vector<T>(base.begin() + b, base.end()), "sub tail"); k.eq(sprout::sub(a, (int)b), std::vector<T>(base.begin() + b, base.end()), "sub tail off"); k.eq(sprout::sub_window(a, b), std::vector<T>(base.begin() + b, base.end()), "window tail"); k.eq(sprout::sub_offset(a, b), std::vector<T>(base.begin() + b, base.end()), "offset tail"); k.eq(sprout::sub_window(a), base, "window"); k.eq(sprout::sub_offset(a), base, "offset");
		  SC c1 = sprout::csub(a, a.begin() + b, a.begin() + e), c2 = sprout::csub(a, (int)b, (int)e), c3 = sprout::csub_window(a, b, e), c4 = sprout::csub_offset(a, b, (std::ptrdiff_t)e - (std::ptrdiff_t)N), c5 = sprout::sub(ca, (int)b, (int)e), c6 = sprout::sub(ca, ca.begin() + b, ca.begin() + e), c7 = sprout::sub_window(ca, b, e), c8 = sprout::sub_offset(ca, b, (std::ptrdiff_t)e - (std::ptrdiff_t)N);
		  k.eq(c1, m, "csub"); k.eq(c2, m, "csub off"); k.eq(c3, m, "csub_window"); k.eq(c4, m, "csub_offset"); k.eq(c5, m, "sub const"); k.eq(c6, m, "sub const it"); k.eq(c7, m, "sub_window const"); k.eq(c8, m, "sub_offset const");
		  k.eq(sprout::csub(a, ca.begin() + b), std::vector<T>(base.begin() + b, base.end()), "csub tail"); k.eq(sprout::csub(a, (int)b), std::vector<T>(base.begin() + b, base.end()), "csub tail off"); k.eq(sprout::csub_window(a, b), std::vector<T>(base.begin() + b, base.end()), "csub_window tail"); k.eq(sprout::csub_offset(a, b), std::vector<T>(base.begin() + b, base.end()), "csub_offset tail");
		  SV v1 = sprout::sub_copy(a, ca.begin() + b, ca.begin() + e), v2 = sprout::sub_copy(a, (int)b, (int)e), v3 = sprout::sub_window_copy(a, b, e), v4 = sprout::sub_offset_copy(a, b, (std::ptrdiff_t)e - (std::ptrdiff_t)N);
		  k.eq(v1, m, "sub_copy"); k.eq(v2, m, "sub_copy off"); k.eq(v3, m, "sub_window_copy"); k.eq(v4, m, "sub_offset_copy"); k.eq(sprout::sub_copy(a, (int)b), std::vector<T>(base.begin() + b, base.end()), "sub_copy tail"); k.eq(sprout::sub_window_copy(a, b), std::vector<T>(base.begin() + b, base.end()), "window_copy tail"); k.eq(sprout::sub_offset_copy(a, b), std::vector<T>(base.begin() + b, base.end()), "offset_copy tail");
		  k.eq((long long)s1.to_first(), (long long)b, "to_first"); k.eq((long long)s1.to_last(), (long long)e, "to_last"); k.eq((long long)s1.from_begin(), (long long)b, "from_begin"); k.eq((long long)s1.from_end(), (long long)e - (long long)N, "from_end"); k.eq(s1.get_array(), base, "get_array"); k.eq(s1.get_internal(), base, "get_internal"); }
		SV v = sprout::sub_copy(a, (int)b, (int)e); SC c = sprout::csub(a, (int)b, (int)e);
		readers("sub&", s1, m); readers("sub", v, m); readers("subc&", c, m); members("sub&", s1, m); members("sub", v, m); nthm("sub&", s1, m); nthm("sub", v, m); 
		// views of views
		for (std::size_t x = 0; x <= m.size(); ++x) { std::size_t y = x + rng().below(m.size() - x + 1); std::vector<T> mm(m.begin() + x, m.begin() + y), mt(m.begin() + x, m.end()); std::ptrdiff_t oe = (std::ptrdiff_t)y - (std::ptrdiff_t)m.size();
			MON_CASE(k, "sub/nested", base, b, e, x, y); k.eq(sprout::sub(s1, (int)x, (int)y), mm, "sub"); k.eq(sprout::sub(s1, s1.begin() + x, s1.begin() + y), mm, "sub it"); k.eq(sprout::sub_window(s1, x, y), mm, "window"); k.eq(sprout::sub_offset(s1, x, oe), mm, "offset"); k.eq(sprout::csub(s1, (int)x, (int)y), mm, "csub"); k.eq(sprout::csub_window(s1, x, y), mm, "csub_window"); k.eq(sprout::csub_offset(s1, x, oe), mm, "csub_offset");
			k.eq(sprout::sub_copy(s1, (int)x, (int)y), mm, "sub_copy"); k.eq(sprout::sub_window_copy(s1, x, y), mm, "window_copy"); k.eq(sprout::sub_offset_copy(s1, x, oe), mm, "offset_copy"); k.eq(sprout::sub(v, (int)x, (int)y), mm, "sub val"); k.eq(sprout::sub_window(v, x, y), mm, "window val"); k.eq(sprout::sub_offset(v, x, oe), mm, "offset val");
			k.eq(sprout::sub(s1, (int)x), mt, "sub tail"); k.eq(sprout::sub(s1, s1.begin() + x), mt, "sub tail it"); k.eq(sprout::sub_window(s1, x), mt, "window tail"); k.eq(sprout::sub_offset(s1, x), mt, "offset tail"); k.eq(sprout::csub_window(s1, x), mt, "csub_window tail"); k.eq(sprout::csub(s1, (int)x), mt, "csub tail"); k.eq(sprout::sub_copy(s1, (int)x), mt, "sub_copy tail"); k.eq(sprout::sub_window_copy(s1, x), mt, "window_copy tail");
			k.eq(sprout::csub(s1, s1.begin() + x, s1.begin() + y), mm, "csub it"); k.eq(sprout::sub_copy(s1, s1.begin() + x, s1.begin() + y), mm, "sub_copy it"); }
		// member window/offset (positions in the underlying container)
		{ MON_CASE(k, "sub/member_window", base, b, e); SR w = sprout::sub(a); SR const cw = sprout::sub(a); std::vector<T> tail(base.begin() + b, base.end());
		  k.eq(cw.window(b, e), m, "const window"); k.eq(cw.cwindow(b, e), m, "cwindow"); k.eq(cw.window(b), tail, "const window tail"); k.eq(cw.cwindow(b), tail, "cwindow tail"); k.eq(w.window(b, e), m, "window"); k.eq(w, m, "window in place");
		  SR w2 = sprout::sub(a); k.eq(w2.window(b), tail, "window tail"); SR w3 = sprout::sub(a); k.eq(w3.offset(b, (std::ptrdiff_t)e - (std::ptrdiff_t)N), m, "offset"); k.eq(w3, m, "offset in place"); k.eq(cw.offset(b, (std::ptrdiff_t)e - (std::ptrdiff_t)N), m, "const offset"); k.eq(cw.coffset(b, (std::ptrdiff_t)e - (std::ptrdiff_t)N), m, "coffset");
		  SV const vw = sprout::sub_copy(a, 0); k.eq(vw.window(b, e), m, "val window"); k.eq(vw.offset(b, (std::ptrdiff_t)e - (std::ptrdiff_t)N), m, "val offset"); }
		{ MON_CASE(k, "sub/fill", base, b, e); A w = a; SR s = sprout::sub(w, (int)b, (int)e); T x = gen<T>::f(); std::vector<T> bb = base; std::fill(bb.begin() + b, bb.begin() + e, x); s.fill(x); k.eq(w, bb); A w2 = a; sprout::sub(w2, (int)b, (int)e).assign(x); k.eq(w2, bb, "assign"); }
		{ A w = a; SR s = sprout::sub(w, (int)b, (int)e); writers("sub&", s, m); MON_CASE(k, "sub/write_outside", base, b, e); for (std::size_t i = 0; i < N; ++i) if (i < b || i >= e) k.eq(w[i], base[i], "outside view"); }
		{ SV w = v; writers("sub", w, m); MON_CASE(k, "sub/copy_independent", base, b, e); k.eq(a, base); k.eq(v, m); }
		{ std::size_t b2 = rng().below(N + 1), e2 = b2 + rng().below(N - b2 + 1); A a2 = rng().coin() ? a : arr<T, N>(gv<T>(N)); if (rng().coin()) { b2 = b; e2 = b + rng().below(N - b + 1); } std::vector<T> y; for (std::size_t i = b2; i < e2; ++i) y.push_back(a2[i]);
		  SR t = sprout::sub(a2, (int)b2, (int)e2); compare("sub&", s1, t, m, y); SV tv = sprout::sub_copy(a2, (int)b2, (int)e2); compare("sub", v, tv, m, y); hashes("sub&", s1, t); hashes("sub", v, tv);
		  MON_CASE(k, "sub/swap", m, y); SR p = s1, q = t; p.swap(q); k.eq(p, y); k.eq(q, m); swap(p, q); k.eq(p, m); k.eq(q, y); p = q; k.eq(p, y, "assign"); SV pv = v, qv = tv; pv.swap(qv); k.eq(pv, y); k.eq(qv, m); pv = qv; k.eq(pv, m); SV rv = v; rv = SV(tv); k.eq(rv, y, "move assign"); }
		{ MON_CASE(k, "sub/deep_copy", base, b, e); k.eq(sprout::deep_copy(s1), m); k.eq(sprout::deep_copy(v), m); }
		{ MON_CASE(k, "sub/push_pop", base, b, e); T x = gen<T>::f(); SV w = v; std::vector<T> z = m; if (e < N) { w.push_back(x); z.push_back(x); k.eq(w, z, "push_back"); w.pop_back(); z.pop_back(); k.eq(w, z, "pop_back"); }
		  if (b > 0) { w.push_front(x); z.insert(z.begin(), x); k.eq(w, z, "push_front"); w.pop_front(); z.erase(z.begin()); k.eq(w, z, "pop_front"); } if (z.size()) { w.drop_back(); z.pop_back(); k.eq(w, z, "drop_back"); } if (z.size()) { w.drop_front(); z.erase(z.begin()); k.eq(w, z, "drop_front"); } k.eq(v, m, "source");
		  A ra = a; SR r = sprout::sub(ra, (int)b, (int)e); std::vector<T> rz = m; if (e < N) { r.push_back(x); rz.push_back(x); k.eq(r, rz, "ref push_back"); k.eq(ra[e], x, "underlying"); r.pop_back(); rz.pop_back(); k.eq(r, rz, "ref pop_back"); k.eq(ra[e], T(), "popped is reset"); } }
	}
} };
MON_TEST(sub_int) { SubF<int> f; sizes<1, 2, 5, 8>::each(f); }
MON_TEST(sub_string) { SubF<std::string> f; sizes<3>::each(f); }
MON_TEST(sub_builtin) { // views of T[N]
	for (int b = 0; b <= 5; ++b) for (int e = b; e <= 5; ++e) { V base = rand_seq(5, -9, 9); int raw[5]; std::copy(base.begin(), base.end(), raw); V m(base.begin() + b, base.begin() + e); auto s = sprout::sub(raw, b, e); readers("sub[]", s, m); auto c = sprout::sub_copy(raw, b, e); readers("subcopy[]", c, m); writers("sub[]", s, m); MON_CASE(k, "sub[]/copy", base, b, e); k.eq(c, m); for (int i = 0; i < 5; ++i) if (i < b || i >= e) k.eq(raw[i], base[i], "outside"); } }
#endif
#if MON_PART(2)
template<class T> struct RawF { template<class I> void operator()(I) {
	const std::size_t N = I::value;
	for (std::uint64_t r = 0; r < reps(25); ++r) { std::vector<T> m = gv<T>(N); T raw[N]; std::copy(m.begin(), m.end(), raw); T const (&cr)[N] = raw; readers("T[N]", cr, m);
		{ MON_CASE(k, "T[N]/data", m); k.ok(sprout::data(raw) == raw, "data"); k.ok(sprout::cdata(raw) == raw, "cdata"); k.eq(sprout::to_array(raw), m, "to_array"); }
		writers("T[N]", raw, m);
		std::array<T, N> s; std::copy(m.begin(), m.end(), s.begin()); readers("std::array", const_cast<std::array<T, N> const&>(s), m); { std::array<T, N> w = s; writers("std::array", w, m); }
		std::vector<T> v = m; readers("std::vector", const_cast<std::vector<T> const&>(v), m); writers("std::vector", v, m);
		sprout::array<T, N> a = arr<T, N>(m); MON_CASE(k, "data", m); k.ok(sprout::data(a) == &a[0], "data(array)"); k.ok(sprout::cdata(a) == &a[0], "cdata(array)"); k.ok(sprout::data(s) == &s[0], "data(std::array)"); }
} };
MON_TEST(raw) { RawF<int> f; sizes<1, 2, 3, 8>::each(f); RawF<std::string> g; sizes<3>::each(g); }
MON_TEST(strings) {
	for (std::uint64_t r = 0; r < reps(60); ++r) { std::string m; std::size_t n = rng().below(8); for (std::size_t i = 0; i < n; ++i) m += char('a' + rng().below(4)); std::vector<char> mv(m.begin(), m.end()); sprout::basic_string<char, 7> s = {}; s.assign(m.data(), m.size()); readers("string", const_cast<sprout::basic_string<char, 7> const&>(s), mv);
		Buf<char> b(m); sprout::basic_string_view<char> v(b.p, b.n); readers("string_view", v, mv); auto t = sprout::sub(s, 0, (int)n); readers("sub(string)", t, mv); }
}
#endif
#if MON_PART(3)
template<class T> struct PitF { template<class I> void operator()(I) {
	const std::size_t N = I::value; typedef sprout::array<T, N> A; typedef sprout::pit<A> P; typedef sprout::sized_pit<A> S;
	for (std::uint64_t r = 0; r < reps(12); ++r) {
		T v = gen<T>::f(), u = rng().coin() ? v : gen<T>::f(); P p(v), q(u); std::vector<T> m(N, v), y(N, u); P const& cp = p;
		readers("pit", cp, m); members("pit", p, m); rev("pit", p, m); if (N) compare("pit", p, q, m, y); if (N) hashes("pit", p, q);
		{ MON_CASE(k, "pit/assign", m, y); P z = p; z = q; k.eq(z, y); z = P(p); k.eq(z, m); z = u; k.eq(z, y, "value"); z = T(v); k.eq(z, m, "value&&"); P a = p, b = q; a.swap(b); k.eq(a, y); k.eq(b, m); swap(a, b); k.eq(a, m); k.eq(P(), std::vector<T>(N, T()), "default"); if (N) { z.front() = u; k.eq(z, y, "write"); } }
		for (std::size_t n = 0; n <= N; ++n) { S s(n, v); std::size_t n2 = rng().below(N + 1); S t(n2, u); std::vector<T> ms(n, v), mt(n2, u); S const& cs = s; readers("sized_pit", cs, ms); members("sized_pit", s, ms); rev("sized_pit", s, ms); compare("sized_pit", s, t, ms, mt); hashes("sized_pit", s, t);
			MON_CASE(k, "sized_pit/assign", ms, mt); S z = s; z = t; k.eq(z, mt); k.eq((long long)z.size(), (long long)n2, "size"); S w = s; w = S(t); k.eq(w, mt, "move"); S a = s, b = t; a.swap(b); k.eq(a, mt); k.eq(b, ms); swap(a, b); k.eq(a, ms); k.eq(b, mt); k.eq(S(n), std::vector<T>(n, T()), "sized default"); k.eq(S(), std::vector<T>(), "default"); }
	}
} };
MON_TEST(pit) { PitF<int> f; sizes<0, 1, 2, 5, 8>::each(f); PitF<std::string> g; sizes<3>::each(g); }
#endif
