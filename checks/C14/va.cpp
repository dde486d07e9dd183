// C14: sprout::valarray<T, N> (size n <= capacity N) and its slice/gslice/mask/indirect views against std::valarray.
#include <spr.hpp>
#include <fp.hpp>
#include <sprout/valarray.hpp>
#include <sprout/array.hpp>
#include <valarray>
#include <array>
#include <set>
#include <functional>
using namespace mon;
template<class T> struct Gen { static T one() { T t = (T)rng().range(-9, 9); return t; } static T pos() { return (T)rng().range(1, 6); } };
template<> struct Gen<double> { static double one() { return rng().range(-64, 64) / 8.0; } static double pos() { return rng().range(1, 40) / 8.0; } };
template<class T> std::vector<T> rv(std::size_t n) { std::vector<T> v(n); for (auto& x : v) x = Gen<T>::one(); return v; }
template<class T> std::vector<T> pv(std::size_t n) { std::vector<T> v(n); for (auto& x : v) x = Gen<T>::pos(); return v; }
template<class T> struct Bx { typedef std::vector<T> V; }; template<> struct Bx<bool> { typedef std::vector<char> V; };
template<class T> typename Bx<T>::V out(std::valarray<T> const& m) { typename Bx<T>::V v; for (std::size_t i = 0; i < m.size(); ++i) v.push_back(m[i]); return v; }
template<class T> std::valarray<T> mv(std::vector<T> const& v) { std::valarray<T> m(v.size()); for (std::size_t i = 0; i < v.size(); ++i) m[i] = v[i]; return m; }
template<std::size_t N, class T> sprout::valarray<T, N> sv(std::vector<T> const& v) { Buf<T> b(v); return sprout::valarray<T, N>(static_cast<T const*>(b.p), v.size()); }
template<class C, class T, std::size_t N> void state(C& c, sprout::valarray<T, N> const& a, std::valarray<T> const& m, char const* w) {
	typedef typename Bx<T>::V V; V x = out(m), g; c.eq(a.size(), x.size(), w); if (a.size() != x.size()) return;
	for (std::size_t i = 0; i < x.size(); ++i) g.push_back(a[i]); c.eq(g, x, w); g.assign(a.begin(), a.end()); c.eq(g, x, "begin..end"); g.assign(a.cbegin(), a.cend()); c.eq(g, x, "cbegin..cend"); V r(a.rbegin(), a.rend()); c.eq(V(r.rbegin(), r.rend()), x, "rbegin..rend"); r.assign(a.crbegin(), a.crend()); c.eq(V(r.rbegin(), r.rend()), x, "crbegin..crend");
	g.clear(); for (std::size_t i = 0; i < x.size(); ++i) { g.push_back(a.at(i)); c.ok(*a.nth(i) == x[i] && a.index_of(a.begin() + i) == i && a.data()[i] == x[i], "nth/index_of/data"); } c.eq(g, x, "at"); throws<std::out_of_range>(c, [&] { (void)a.at(a.size()); }, "at(size()) throws"); throws<std::out_of_range>(c, [&] { (void)a.nth(a.size()); }, "nth(size()) throws");
	c.ok(a.empty() == x.empty(), "empty"); c.ok(a.max_size() == N, "max_size"); if (x.size()) c.ok(a.front() == x.front() && a.back() == x.back(), "front/back");
}
template<class C, class T, std::size_t N> void mstate(C& c, sprout::valarray<T, N>& a, std::valarray<T> const& m, char const* w) {
	state(c, static_cast<sprout::valarray<T, N> const&>(a), m, w); typedef typename Bx<T>::V V; V x = out(m), g(a.begin(), a.end()); c.eq(g, x, "mutable begin..end"); V r(a.rbegin(), a.rend()); c.eq(V(r.rbegin(), r.rend()), x, "mutable rbegin..rend"); for (std::size_t i = 0; i < x.size(); ++i) c.ok(&a[i] == &a.at(i) && &a[i] == a.data() + i && &*a.nth(i) == &a[i], "same element"); if (x.size()) c.ok(&a.front() == &a[0] && &a.back() == &a[x.size() - 1], "front/back"); throws<std::out_of_range>(c, [&] { (void)a.at(a.size()); }, "at(size()) throws"); throws<std::out_of_range>(c, [&] { (void)a.nth(a.size() + 3); }, "nth throws");
}
static std::string nm(std::size_t N, char const* t, char const* op) { return std::to_string(N) + t + " " + op; }
template<class T> char const* tn(); template<> char const* tn<int>() { return "i"; } template<> char const* tn<unsigned>() { return "u"; } template<> char const* tn<double>() { return "d"; } template<> char const* tn<long>() { return "l"; }
#define NM(op) nm(N, tn<T>(), op)
template<std::size_t N, class T> void basics() {
	typedef sprout::valarray<T, N> A; typedef std::valarray<T> M;
	{ MON_CASE(c, NM("default")); A a; state(c, a, M(), "default"); }
	for (std::size_t n = 0; n <= N; ++n) for (std::uint64_t r = 0; r < reps(4); ++r) { auto v = rv<T>(n), w = rv<T>(rng().below(N + 1)); T k = Gen<T>::one(); MON_CASE(c, NM("construct/assign"), v, w, k); M m = mv(v), y = mv(w); A a = sv<N>(v); A const b = sv<N>(w); mstate(c, a, m, "pointer,n"); state(c, A(n), M(n), "n"); state(c, A(k, n), M(k, n), "value,n"); A cp(a); state(c, cp, m, "copy"); A mo((A(a))); state(c, mo, m, "move"); 
		cp = b; state(c, cp, y, "copy assign"); cp = A(a); mstate(c, cp, m, "move assign"); cp = k; M q(m); q = k; mstate(c, cp, q, "= value"); if (N >= 3) { std::initializer_list<T> il = {T(3), T(1), T(4)}; state(c, A(il), M(il), "initializer_list"); cp = il; mstate(c, cp, M(il), "= initializer_list"); }
		cp = a; cp.resize(w.size(), k); M z(m); z.resize(w.size(), k); mstate(c, cp, z, "resize(n,x)"); cp.resize(n); z.resize(n); mstate(c, cp, z, "resize(n)");
		A s1(a), s2(b); s1.swap(s2); mstate(c, s1, y, "swap"); mstate(c, s2, m, "swap"); using sprout::swap; swap(s1, s2); mstate(c, s1, m, "swap()"); mstate(c, s2, y, "swap()"); A f(a); f.fill(k); M fm(m); fm = k; mstate(c, f, fm, "fill"); state(c, b.fill(k), M(k, w.size()), "fill const"); f = a; f.assign(k); mstate(c, f, fm, "assign"); state(c, b.assign(k), M(k, w.size()), "assign const"); state(c, sprout::to_valarray(a), m, "to_valarray"); 
		c.ok(sprout::to_hash(a) == sprout::to_hash(sv<N>(v)) && std::hash<A>()(a) == sprout::hash_value(a), "hash"); A h(a); h.resize(0); h = a; c.ok(sprout::to_hash(h) == sprout::to_hash(a), "hash after resize");
		for (std::size_t i = 0; i < n; ++i) { A e(a); M em(m); e[i] = k; em[i] = k; mstate(c, e, em, "[i]=k"); e.at(i) = T(1); em[i] = T(1); mstate(c, e, em, "at(i)=k"); *(e.begin() + i) = T(2); em[i] = T(2); mstate(c, e, em, "*it=k"); e.rangecheck(i); } throws<std::out_of_range>(c, [&] { a.rangecheck(n); }, "rangecheck"); }
	{ MON_CASE(c, NM("too long")); std::vector<T> l(N + 1, T(1)); Buf<T> bf(l); throws<std::length_error>(c, [&] { A a(static_cast<T const*>(bf.p), N + 1); (void)a; }, "ctor"); throws<std::length_error>(c, [&] { A a(N + 1); (void)a; }, "ctor(n)"); throws<std::length_error>(c, [&] { A a(T(1), N + 1); (void)a; }, "ctor(v,n)"); A a; throws<std::length_error>(c, [&] { a.resize(N + 1); }, "resize"); state(c, a, M(), "unchanged"); }
}
template<class C, class T, std::size_t N> void scalars(C& c, std::vector<T> const& v, T k) { // reductions, shifts, apply
	typedef sprout::valarray<T, N> A; typedef std::valarray<T> M; A const a = sv<N>(v); M const m = mv(v); (void)k;
	if (v.size()) { c.eq(a.sum(), m.sum(), "sum"); c.eq(a.min(), m.min(), "min"); c.eq(a.max(), m.max(), "max"); }
	int n = (int)v.size(); for (int i = -n - 2; i <= n + 2; ++i) { state(c, a.shift(i), M(m.shift(i)), "shift"); std::vector<T> z(v.size()); for (int j = 0; j < n; ++j) z[j] = v[(((j + i) % n) + n) % n]; state(c, a.cshift(i), mv(z), "cshift"); }
	struct F { static T a1(T x) { return x + x; } static T a2(T const& x) { return x * x; } }; state(c, a.apply(&F::a1), M(m.apply(&F::a1)), "apply(T)"); state(c, a.apply(&F::a2), M(m.apply(&F::a2)), "apply(T const&)"); T add = k; struct G { T k; T operator()(T x) const { return x + k; } } g = {add}; state(c, a.apply(g), M(m + k), "apply(functor)"); state(c, a, m, "source");
}
#define BIN(OP, NAME) { state(c, a OP b, M(m OP y), NAME); state(c, a OP k, M(m OP k), NAME " scalar"); state(c, k OP b, M(k OP y), "scalar " NAME); }
#define CMP(OP, NAME) { typedef std::valarray<bool> MB; state(c, a OP b, MB(m OP y), NAME); state(c, a OP k, MB(m OP k), NAME " scalar"); state(c, k OP b, MB(k OP y), "scalar " NAME); }
#define ASG(OP, NAME) { A t(a); M w(m); c.ok(&(t OP k) == &t, "returns *this"); w OP k; mstate(c, t, w, NAME); }
template<std::size_t N, class T> void arith() { // common to all types
	typedef sprout::valarray<T, N> A; typedef std::valarray<T> M;
	for (std::size_t n = 0; n <= N; ++n) for (std::uint64_t r = 0; r < reps(6); ++r) { auto v = rv<T>(n), w = r % 2 ? rv<T>(n) : v; if (n) w[rng().below(n)] = Gen<T>::one(); for (auto& x : w) if (x == T()) x = T(3); T k = r % 3 == 0 && n ? v[rng().below(n)] : Gen<T>::pos(); if (k == T()) k = T(2); MON_CASE(c, NM("arithmetic"), v, w, k); M m = mv(v), y = mv(w); A const a = sv<N>(v), b = sv<N>(w);
		BIN(+, "+") BIN(-, "-") BIN(*, "*") BIN(/, "/") CMP(==, "==") CMP(!=, "!=") CMP(<, "<") CMP(>, ">") CMP(<=, "<=") CMP(>=, ">=") CMP(&&, "&&") CMP(||, "||") ASG(+=, "+=") ASG(-=, "-=") ASG(*=, "*=") ASG(/=, "/=") state(c, +a, M(+m), "unary +"); state(c, -a, M(-m), "unary -"); state(c, !a, std::valarray<bool>(!m), "!"); state(c, a, m, "source"); state(c, b, y, "source");
		scalars<decltype(c), T, N>(c, v, k); }
}
template<std::size_t N, class T> void bits() {
	typedef sprout::valarray<T, N> A; typedef std::valarray<T> M;
	for (std::size_t n = 0; n <= N; ++n) for (std::uint64_t r = 0; r < reps(5); ++r) { auto v = pv<T>(n), w = pv<T>(n); T k = Gen<T>::pos(); MON_CASE(c, NM("bitwise"), v, w, k); M m = mv(v), y = mv(w); A const a = sv<N>(v), b = sv<N>(w);
		BIN(%, "%") BIN(&, "&") BIN(|, "|") BIN(^, "^") BIN(<<, "<<") BIN(>>, ">>") ASG(%=, "%=") ASG(&=, "&=") ASG(|=, "|=") ASG(^=, "^=") ASG(<<=, "<<=") ASG(>>=, ">>=") state(c, ~a, M(~m), "~"); }
}
template<std::size_t N> void maths() {
	typedef double T; typedef sprout::valarray<T, N> A;
	for (std::size_t n = 0; n <= N; ++n) for (std::uint64_t r = 0; r < reps(6); ++r) { auto v = pv<T>(n), w = pv<T>(n); for (auto& x : v) x /= 8; T k = Gen<T>::pos(); MON_CASE(c, NM("cmath"), v, w, k); A const a = sv<N>(v), b = sv<N>(w);
		auto chk = [&](A const& got, std::function<double(std::size_t)> f, char const* wh) { c.eq(got.size(), n, wh); if (got.size() == n) for (std::size_t i = 0; i < n; ++i) { double d = f(i); c.ok(std::fabs(got[i] - d) <= 1e-12 * (1 + std::fabs(d)), wh); } };
#define U1(f) chk(f(a), [&](std::size_t i) { return std::f(v[i]); }, #f);
		U1(abs) U1(acos) U1(asin) U1(asinh) U1(atan) U1(atanh) U1(cbrt) U1(cos) U1(cosh) U1(exp) U1(exp2) U1(expm1) U1(log) U1(log10) U1(log1p) U1(log2) U1(sin) U1(sinh) U1(sqrt) U1(tan) U1(tanh)
		chk(abs(-a), [&](std::size_t i) { return v[i]; }, "abs of negative"); chk(acosh(b + 1.0), [&](std::size_t i) { return std::acosh(w[i] + 1.0); }, "acosh"); chk(exp10(a), [&](std::size_t i) { return std::pow(10.0, v[i]); }, "exp10");
#define U2(f) chk(f(a, b), [&](std::size_t i) { return std::f(v[i], w[i]); }, #f); chk(f(a, k), [&](std::size_t i) { return std::f(v[i], k); }, #f " scalar"); chk(f(k, a), [&](std::size_t i) { return std::f(k, v[i]); }, "scalar " #f);
		U2(atan2) U2(hypot) U2(pow) auto lb = [](double x, double y) { return std::log(y) / std::log(x); }; auto bb = b + 1.5; chk(log_a(bb, a), [&](std::size_t i) { return lb(w[i] + 1.5, v[i]); }, "log_a"); chk(log_a(bb, k), [&](std::size_t i) { return lb(w[i] + 1.5, k); }, "log_a scalar"); chk(log_a(2.5, b), [&](std::size_t i) { return lb(2.5, w[i]); }, "scalar log_a"); }
}
// views ------------------------------------------------------------------------------------------------
template<class C, class V, class T> void vread(C& c, V const& s, std::vector<T> const& want) { c.eq(s.size(), want.size(), "view size"); if (s.size() != want.size()) return; std::vector<T> g; for (std::size_t i = 0; i < want.size(); ++i) g.push_back(s[i]); c.eq(g, want, "view[]"); g.assign(s.begin(), s.end()); c.eq(g, want, "view begin..end"); std::vector<T> rr(s.rbegin(), s.rend()); c.eq(std::vector<T>(rr.rbegin(), rr.rend()), want, "view rbegin..rend"); c.ok(s.empty() == want.empty(), "view empty"); if (want.size()) c.ok(s.front() == want.front() && s.back() == want.back(), "view front/back"); for (std::size_t i = 0; i < want.size(); ++i) c.ok(&s.at(i) == &s[i] && *s.nth(i) == s[i] && s.index_of(s.nth(i)) == i, "view at/nth"); throws<std::out_of_range>(c, [&] { (void)s.nth(want.size()); }, "view nth throws"); throws<std::out_of_range>(c, [&] { (void)s.at(want.size()); }, "view at throws"); }
template<class C, std::size_t N, class T, class I, class SI> void view(C& c, std::vector<T> const& v, I const& mi, SI const& si, std::vector<std::size_t> const& idx, bool distinct) {
	typedef sprout::valarray<T, N> A; typedef std::valarray<T> M; std::vector<T> want; for (auto i : idx) want.push_back(v[i]); std::size_t n = idx.size();
	{ A const a = sv<N>(v); M const m = mv(v); if (n <= N) state(c, a[si], mv(want), "const subset"); (void)m; }
	if (n > N) return; A a = sv<N>(v); M m = mv(v); { auto s = a[si]; vread(c, s, want); auto s2(s); vread(c, s2, want); A t(s); state(c, t, mv(want), "valarray(view)"); A t2; t2 = s; mstate(c, t2, mv(want), "= view"); } mstate(c, a, m, "base untouched");
	auto rhs = pv<T>(n); M y = mv(rhs); A const b = sv<N>(rhs); sprout::valarray<T, N + 2> const b2 = sv<N + 2>(rhs); T k = Gen<T>::pos();
	{ A t(a); M w(m); t[si] = k; w[mi] = k; mstate(c, t, w, "view = value"); }
	{ A t(a); M w(m); t[si] = b; for (std::size_t i = 0; i < n; ++i) w[idx[i]] = rhs[i]; mstate(c, t, w, "view = valarray"); A t2(a); t2[si] = b2; mstate(c, t2, w, "view = valarray of another capacity"); }
#define VA(OP, NAME) { A t(a); M w(m); for (std::size_t i = 0; i < n; ++i) w[idx[i]] OP rhs[i]; t[si] OP b; mstate(c, t, w, "view " NAME); }
	VA(+=, "+=") VA(-=, "-=") VA(*=, "*=") VA(/=, "/=") VA(%=, "%=") VA(&=, "&=") VA(|=, "|=") VA(^=, "^=") if (distinct) { VA(<<=, "<<=") VA(>>=, ">>=") }
	{ A t(a), o = sv<N>(pv<T>(v.size())); A const o0(o); M w(m); for (std::size_t i = 0; i < n; ++i) w[idx[i]] = o0[idx[i]]; t[si] = o[si]; mstate(c, t, w, "view = view"); c.ok(std::equal(o.begin(), o.end(), o0.begin()), "view = view: source untouched"); auto p = t[si]; auto q = o[si]; p = q; mstate(c, t, w, "named view = view"); p = k; for (auto i : idx) w[i] = k; mstate(c, t, w, "named view still refers to its array"); c.ok(std::equal(o.begin(), o.end(), o0.begin()), "the source array keeps its elements"); }
	{ A t(a); auto s = t[si]; auto it = s.begin(); M w(m); for (std::size_t i = 0; i < n; ++i, ++it) { *it = T(i + 40); w[idx[i]] = T(i + 40); } mstate(c, t, w, "write through view iterator"); }
	{ A t(a), o = sv<N>(pv<T>(v.size())); A const o0(o); auto p = t[si]; auto q = o[si]; p.swap(q); std::vector<T> w2; for (auto i : idx) w2.push_back(o0[i]); vread(c, p, w2); vread(c, q, want); using sprout::swap; swap(p, q); vread(c, p, want); vread(c, q, w2); mstate(c, t, m, "view swap leaves elements"); }
}
template<std::size_t N, class T> void slices() { for (std::uint64_t r = 0; r < reps(30); ++r) { std::size_t n = 1 + rng().below(N), st = rng().below(n), sd = rng().coin(1, 8) ? n : 1 + rng().below(3), mx = (n - 1 - st) / sd + 1, k = rng().below(mx + 1); auto v = pv<T>(n); std::vector<std::size_t> idx; for (std::size_t i = 0; i < k; ++i) idx.push_back(st + sd * i); MON_CASE(c, NM("slice"), v, st, k, sd); sprout::slice s(st, k, sd); c.ok(s.start() == st && s.size() == k && s.stride() == sd && sprout::slice().size() == 0, "slice fields"); view<decltype(c), N, T>(c, v, std::slice(st, k, sd), s, idx, true); } }
template<std::size_t N, class T, std::size_t M_> void masks() { for (std::uint64_t r = 0; r < reps(20); ++r) { std::size_t n = rng().below(std::min(N, M_) + 1); auto v = pv<T>(n); std::valarray<bool> mk(n); sprout::valarray<bool, M_> sm(n); std::vector<int> sh; std::vector<std::size_t> idx; unsigned d = (unsigned)rng().below(4); for (std::size_t i = 0; i < n; ++i) { bool b = rng().coin(d, 3); mk[i] = b; sm[i] = b; sh.push_back(b); if (b) idx.push_back(i); } MON_CASE(c, NM("mask"), v, sh); view<decltype(c), N, T>(c, v, mk, sm, idx, true); } }
template<std::size_t N, class T, std::size_t M_> void indirects() { for (std::uint64_t r = 0; r < reps(20); ++r) { std::size_t n = 1 + rng().below(N); auto v = pv<T>(n); std::vector<std::size_t> idx; bool dup = rng().coin(1, 4); std::size_t k = rng().below(std::min(M_, dup ? N : n) + 1); std::vector<std::size_t> all; for (std::size_t i = 0; i < n; ++i) all.push_back(i); for (std::size_t i = n; i > 1; --i) std::swap(all[i - 1], all[rng().below(i)]); for (std::size_t i = 0; i < k; ++i) idx.push_back(dup ? rng().below(n) : all[i]); std::valarray<std::size_t> mi(idx.size()); sprout::valarray<std::size_t, M_> si(idx.size()); for (std::size_t i = 0; i < idx.size(); ++i) { mi[i] = idx[i]; si[i] = idx[i]; } MON_CASE(c, NM("indirect"), v, idx); if (!dup) view<decltype(c), N, T>(c, v, mi, si, idx, true); else { std::vector<T> want; for (auto i : idx) want.push_back(v[i]); sprout::valarray<T, N> const a = sv<N>(v); state(c, a[si], mv(want), "const subset, repeated index"); sprout::valarray<T, N> b = sv<N>(v); auto s = b[si]; vread(c, s, want); } } }
template<std::size_t N, class T, std::size_t D> void gslices() { for (std::uint64_t r = 0; r < reps(25); ++r) { std::size_t n = 4 + rng().below(N - 3); auto v = pv<T>(n); std::size_t d = 1 + rng().below(D); std::vector<std::size_t> sz(d), sd(d), idx; std::size_t st = 0; bool good = false; for (int tr = 0; tr < 200 && !good; ++tr) { for (std::size_t i = 0; i < d; ++i) { sz[i] = 1 + rng().below(3); sd[i] = 1 + rng().below(6); } st = rng().below(n); idx.clear(); std::size_t tot = 1; for (auto x : sz) tot *= x; std::set<std::size_t> u; good = tot <= N; for (std::size_t i = 0; i < tot && good; ++i) { std::size_t x = st, q = i; for (std::size_t j = d; j-- > 0;) { x += sd[j] * (q % sz[j]); q /= sz[j]; } idx.push_back(x); good = x < n && u.insert(x).second; } } if (!good) continue;
		std::valarray<std::size_t> ms = mv(sz), md = mv(sd); sprout::valarray<std::size_t, D> ss = sv<D>(sz), s2 = sv<D>(sd); MON_CASE(c, NM("gslice"), v, st, sz, sd); sprout::gslice<D> g(st, ss, s2); c.ok(g.start() == st, "start"); auto gz = g.size(), gd = g.stride(); c.eq(std::vector<std::size_t>(gz.begin(), gz.end()), sz, "gslice size"); c.eq(std::vector<std::size_t>(gd.begin(), gd.end()), sd, "gslice stride"); view<decltype(c), N, T>(c, v, std::gslice(st, ms, md), g, idx, true); } }
#if MON_PART(0)
MON_TEST(basics) { basics<1, int>(); basics<5, int>(); basics<6, double>(); basics<3, unsigned>(); }
#endif
#if MON_PART(1)
MON_TEST(arith) { arith<1, int>(); arith<5, int>(); arith<5, double>(); arith<4, long>(); arith<3, unsigned>(); }
MON_TEST(bits) { bits<1, int>(); bits<5, unsigned>(); bits<4, long>(); }
#endif
#if MON_PART(2)
MON_TEST(maths) { maths<5>(); maths<1>(); }
MON_TEST(make) { for (std::uint64_t r = 0; r < reps(30); ++r) { int x = Gen<int>::one(), y = Gen<int>::one(), z = Gen<int>::one(); MON_CASE(c, "make_valarray", x, y, z); std::valarray<int> m = mv(std::vector<int>{x, y, z}); state(c, sprout::make_valarray<int>(x, y, z), m, "make<T>"); state(c, sprout::make_valarray(x, y, z), m, "make"); state(c, sprout::make_valarray<int, 5>(x, y, z), m, "make<T,N>"); state(c, sprout::make_valarray<5>(x, y, z), m, "make<N>"); state(c, sprout::make_common_valarray(x, y, z), m, "common"); state(c, sprout::make_common_valarray<4>(x, y, z), m, "common<N>"); state(c, sprout::make_valarray_without_narrowing<int>(x, y, z), m, "wn"); state(c, sprout::make_valarray_without_narrowing<int, 5>(x, y, z), m, "wn<T,N>"); state(c, sprout::make_valarray_without_narrowing(x, y, z), m, "wn"); int b[3] = {x, y, z}; state(c, sprout::to_valarray(b), m, "from builtin"); std::array<int, 3> sa = {{x, y, z}}; state(c, sprout::to_valarray(sa), m, "from std::array"); sprout::array<int, 3> pa = {{x, y, z}}; state(c, sprout::to_valarray(pa), m, "from array"); auto a = sprout::make_valarray<int>(x, y, z); auto const& ca = a; c.ok(&sprout::tuples::get<0>(a) == &a[0] && &sprout::tuples::get<2>(a) == &a[2] && sprout::tuples::get<1>(ca) == y && sprout::tuples::get<1>(sprout::make_valarray<int>(x, y, z)) == y, "tuple get"); c.ok(std::tuple_size<decltype(a)>::value == 3 && std::is_same<std::tuple_element<1, decltype(a)>::type, int>::value, "tuple_size/element"); } }
#endif
#if MON_PART(3)
MON_TEST(slices) { slices<1, int>(); slices<8, unsigned>(); slices<13, int>(); }
MON_TEST(masks) { masks<6, int, 6>(); masks<6, unsigned, 9>(); masks<7, int, 4>(); }
#endif
#if MON_PART(4)
MON_TEST(indirects) { indirects<6, int, 6>(); indirects<6, int, 9>(); indirects<7, unsigned, 4>(); }
MON_TEST(gslices) { gslices<24, int, 3>(); gslices<12, unsigned, 2>(); gslices<9, int, 1>(); }
#endif
