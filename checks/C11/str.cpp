// C11: sprout::basic_string against std::basic_string of bounded capacity.
#include <spr.hpp>
#include <src.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sstream>
#include <list>
using namespace mon;
#if MON_PART(0)
typedef char T; static char const* TN = "char,";
#elif MON_PART(1)
typedef wchar_t T; static char const* TN = "wchar_t,";
#elif MON_PART(2)
typedef char16_t T; static char const* TN = "char16_t,";
#else
typedef char32_t T; static char const* TN = "char32_t,";
#endif
typedef std::basic_string<T> M;
template<std::size_t N> struct S { typedef sprout::basic_string<T, N> type; };
static std::string nm(std::size_t n, char const* op) { return std::string(TN) + std::to_string(n) + " " + op; }
static T gc(bool nul = true) { switch (rng().below(nul ? 12 : 11)) { case 0: case 1: case 2: case 3: return T('a'); case 4: case 5: case 6: return T('b'); case 7: return T('c'); case 8: return T(0xe9); case 9: return T(0x7f); case 10: return T(' '); default: return T(0); } }
static M gs(std::size_t n, bool nul = true) { M m; for (std::size_t i = 0; i < n; ++i) m += gc(nul); return m; }
static std::size_t gl(std::size_t n) { return rng().coin(1, 8) ? n : rng().below(n + 1); }
template<std::size_t N> sprout::basic_string<T, N> mk_(M const& m) { sprout::basic_string<T, N> s; for (T c : m) s.push_back(c); return s; }
template<class A> M mod(A const& a) { return M(a.data(), a.size()); }
// the whole observable state: length, content, terminator, iteration in both directions
template<class C, class A> void state(C& c, A& a, M const& m, char const* w) {
	A const& k = a; c.eq((long)k.size(), (long)m.size(), w); c.eq((long)k.length(), (long)m.size(), "length"); c.eq(k.empty(), m.empty(), "empty"); c.eq(mod(k), m, w);
	c.ok(k.c_str()[m.size()] == T() && k.data() == k.c_str() && k.c_array() == k.c_str() && a.data() == k.c_str(), "terminator"); bool z = true; for (std::size_t i = m.size(); i <= k.max_size(); ++i) z = z && k.c_str()[i] == T(); c.ok(z, "characters past the end are null");
	M f, r, g, h; for (auto i = k.begin(); i != k.end(); ++i) f += *i; for (auto i = k.rbegin(); i != k.rend(); ++i) r += *i; for (auto i = a.begin(); i != a.end(); ++i) g += *i; for (auto i = a.rbegin(); i != a.rend(); ++i) h += *i;
	c.eq(f, m, "begin..end"); c.eq(g, m, "mutable begin..end"); c.eq(M(r.rbegin(), r.rend()), m, "rbegin..rend"); c.eq(h, r, "mutable rbegin..rend"); M cf(k.cbegin(), k.cend()), cr(k.crbegin(), k.crend()); c.eq(cf, m, "cbegin"); c.eq(cr, r, "crbegin");
	if (!m.empty()) { c.ok(k.front() == m.front() && a.front() == m.front() && k.back() == m.back() && a.back() == m.back(), "front/back"); std::size_t i = rng().below(m.size()); c.ok(k[i] == m[i] && a[i] == m[i] && k.at(i) == m[i] && a.at(i) == m[i] && *k.nth(i) == m[i] && *a.nth(i) == m[i] && k.index_of(k.begin() + i) == i && a.index_of(a.begin() + i) == i, "element access"); }
}
template<class C, class A, class F> bool guarded(C& c, A& a, M const& before, bool fits, F f, char const* w) { // false when the operation overflowed (model keeps its value)
	if (fits) { f(); return true; } throws<std::length_error>(c, f, w); state(c, a, before, "after length_error"); return false;
}
template<std::size_t N, std::size_t N2> void history(std::uint64_t steps) {
	typedef typename S<N>::type A; typedef typename S<N2>::type B; A a; M m;
	for (std::uint64_t st_ = 0; st_ < steps; ++st_) {
		M o = m; std::size_t n = gl(N + 2); M x = gs(rng().below(N2 + 1)); B b = mk_<N2>(x); T ch = gc(); std::size_t pos = rng().below(x.size() + 2), cnt = rng().coin(1, 4) ? A::npos : rng().below(N2 + 2); unsigned op = (unsigned)rng().below(30);
		M y = gs(n, false); Buf<T> raw(y), cs(M(y + T())); bool first = rng().coin();
#define DO(NAME, FITS, MODEL, ...) { MON_CASE(c, nm(N, NAME), o, x, y, pos, cnt, n, (unsigned long)ch); if (guarded(c, a, o, (FITS), [&] { __VA_ARGS__; }, NAME)) { MODEL; } state(c, a, m, NAME); } break;
		switch (op) {
		case 0: DO("append(n,c)", m.size() + n <= N, m.append(n, ch), c.ok(&a.append(n, ch) == &a, "ref"))
		case 1: DO("append(p,n)", m.size() + n <= N, m.append(y), a.append(raw.p, n))
		case 2: DO("append(cstr)", m.size() + n <= N, m.append(y), first ? a.append(cs.p) : a <<= (T const*)cs.p)
		case 3: DO("append(str)", m.size() + x.size() <= N, m.append(x), first ? a.append(b) : a <<= b)
		case 4: if (pos > x.size()) { MON_CASE(c, nm(N, "append(str,pos,n)"), o, x, pos, cnt); throws<std::out_of_range>(c, [&] { a.append(b, pos, cnt); }); state(c, a, o, "after out_of_range"); break; } DO("append(str,pos,n)", m.size() + x.substr(pos, cnt).size() <= N, m.append(x, pos, cnt), a.append(b, pos, cnt))
		case 5: DO("append(fwd)", m.size() + n <= N, m.append(y), { Src<Fw, T> s(y); a.append(s.cb(), s.ce()); })
		case 6: DO("append(input)", m.size() + n <= N, m.append(y), { Src<In, T> s(y); a.append(s.cb(), s.ce()); })
		case 7: DO("push_back", m.size() + 1 <= N, m.push_back(ch), first ? a.push_back(ch) : (void)(a <<= ch))
		case 8: DO("append(il)", m.size() + 3 <= N, { m += ch; m += T('q'); m += T('r'); }, first ? a.append({ch, T('q'), T('r')}) : a.operator<<=({ch, T('q'), T('r')}))
		case 9: DO("append(self)", m.size() * 2 <= N, m.append(o), first ? a.append(a) : a.append(a.begin(), a.end()))
		case 10: DO("assign(n,c)", n <= N, m.assign(n, ch), a.assign(n, ch))
		case 11: DO("assign(p,n)", n <= N, m = y, a.assign(raw.p, n))
		case 12: DO("assign(cstr)", n <= N, m = y, first ? a.assign(cs.p) : a = cs.p)
		case 13: DO("assign(str)", x.size() <= N, m = x, first ? a.assign(b) : a = b)
		case 14: if (pos > x.size()) { MON_CASE(c, nm(N, "assign(str,pos,n)"), o, x, pos, cnt); throws<std::out_of_range>(c, [&] { a.assign(b, pos, cnt); }); state(c, a, o, "after out_of_range"); break; } DO("assign(str,pos,n)", x.substr(pos, cnt).size() <= N, m.assign(x, pos, cnt), a.assign(b, pos, cnt))
		case 15: DO("assign(fwd)", n <= N, m = y, { Src<Fw, T> s(y); a.assign(s.cb(), s.ce()); })
		case 16: DO("assign(input)", n <= N, m = y, { Src<In, T> s(y); a.assign(s.cb(), s.ce()); })
		case 17: DO("assign(il)", 2 <= N, { m.clear(); m += ch; m += T('z'); }, first ? a.assign({ch, T('z')}) : a = {ch, T('z')})
		case 18: DO("assign(self sub)", true, , { std::size_t p = rng().below(m.size() + 1); a.assign(a, p, cnt); m.assign(o, p, cnt); })
		case 19: DO("operator=(char)", 1 <= N, m.assign(1, ch), a = ch)
		case 20: DO("resize(n,c)", n <= N, m.resize(n, ch), a.resize(n, ch))
		case 21: DO("resize(n)", n <= N, m.resize(n), a.resize(n))
		case 22: DO("clear", true, m.clear(), a.clear())
		case 23: if (m.empty()) break; DO("pop_back", true, m.pop_back(), a.pop_back())
		case 24: { M q = gs(gl(N)); A d = mk_<N>(q); MON_CASE(c, nm(N, "swap"), o, q); if (first) a.swap(d); else { using sprout::swap; swap(a, d); } m = q; state(c, a, m, "swap lhs"); state(c, d, o, "swap rhs"); break; }
		case 25: DO(">>=(char)", m.size() + 1 <= N, m.insert(m.begin(), ch), a >>= ch)
		case 26: DO(">>=(cstr)", m.size() + n <= N, m.insert(0, y), a >>= (T const*)cs.p)
		case 27: DO(">>=(str)", m.size() + x.size() <= N, m.insert(0, x), a >>= b)
		case 28: DO(">>=(il)", m.size() + 2 <= N, { M t; t += ch; t += T('w'); m = t + m; }, a.operator>>=({ch, T('w')}))
		case 29: { MON_CASE(c, nm(N, "huge count"), o, x, n); std::size_t h = A::npos - rng().below(N + 3); throws<std::length_error>(c, [&] { switch (n % 3) { case 0: a.append(h, ch); break; case 1: a.resize(h, ch); break; default: a.assign(h, ch); } }); state(c, a, o, "after length_error"); break; }
		}
		if (N && rng().coin(1, 4)) { std::size_t i = rng().below(N); if (i < m.size()) { T z = gc(); if (first) a[i] = z; else *(a.begin() + i) = z; m[i] = z; MON_CASE(c, nm(N, "write element"), o, i, (unsigned long)z); state(c, a, m, "write element"); } }
		{ MON_CASE(c, nm(N, "at out of range"), o, n); A const& k = a; std::size_t i = m.size() + rng().below(3); throws<std::out_of_range>(c, [&] { a.at(i); }); throws<std::out_of_range>(c, [&] { k.at(i); }); throws<std::out_of_range>(c, [&] { k.nth(i); }); throws<std::out_of_range>(c, [&] { a.nth(i); }); }
	}
}
// every overload of the search family, compare, substr and copy at every position
static std::size_t np(std::size_t p) { return p; }
template<std::size_t N, std::size_t N2> void search(M const& m, M const& x) {
	typedef typename S<N>::type A; typedef typename S<N2>::type B; A const a = mk_<N>(m); B const b = mk_<N2>(x); Buf<T> raw(x), cs(M(x + T())); M xc(cs.p); std::size_t const npos = A::npos;
	std::vector<std::size_t> ps; for (std::size_t p = 0; p <= m.size() + 2; ++p) ps.push_back(p); ps.push_back(npos); ps.push_back(npos - 1); T ch = x.empty() ? gc() : x[0];
	for (std::size_t p : ps) { MON_CASE(c, nm(N, "find family"), m, x, p);
#define F(FN) c.eq(np(a.FN(b, p)), np(m.FN(x, p)), #FN "(str,pos)"); c.eq(a.FN((T const*)raw.p, p, x.size()), m.FN(x.data(), p, x.size()), #FN "(p,pos,n)"); c.eq(a.FN((T const*)cs.p, p), m.FN(xc, p), #FN "(cstr,pos)"); c.eq(a.FN(ch, p), m.FN(ch, p), #FN "(c,pos)"); c.eq(a.FN(b.begin(), p, x.size()), m.FN(x, p), #FN "(it,pos,n)"); c.eq(a.FN(b.begin(), p), m.FN(xc, p), #FN "(it,pos)");
		F(find) F(rfind) F(find_first_of) F(find_last_of) F(find_first_not_of) F(find_last_not_of)
#undef F
	}
	{ MON_CASE(c, nm(N, "find family defaults"), m, x);
#define F(FN) c.eq(a.FN(b), m.FN(x), #FN "(str)"); c.eq(a.FN((T const*)cs.p), m.FN(xc), #FN "(cstr)"); c.eq(a.FN(ch), m.FN(ch), #FN "(c)"); c.eq(a.FN(b.begin()), m.FN(xc), #FN "(it)");
		F(find) F(rfind) F(find_first_of) F(find_last_of) F(find_first_not_of) F(find_last_not_of)
#undef F
	}
	auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
	{ MON_CASE(c, nm(N, "compare"), m, x); c.eq(sg(a.compare(b)), sg(m.compare(x)), "compare(str)"); c.eq(sg(a.compare((T const*)cs.p)), sg(m.compare(xc)), "compare(cstr)"); c.eq(sg(a.compare(b.begin())), sg(m.compare(xc)), "compare(it)");
		c.eq(a == b, m == x, "=="); c.eq(a != b, m != x, "!="); c.eq(a < b, m < x, "<"); c.eq(a > b, m > x, ">"); c.eq(a <= b, m <= x, "<="); c.eq(a >= b, m >= x, ">="); T const* p = cs.p;
		c.eq(a == p, m == xc, "== p"); c.eq(a != p, m != xc, "!= p"); c.eq(a < p, m < xc, "< p"); c.eq(a > p, m > xc, "> p"); c.eq(a <= p, m <= xc, "<= p"); c.eq(a >= p, m >= xc, ">= p"); c.eq(p == a, xc == m, "p =="); c.eq(p != a, xc != m, "p !="); c.eq(p < a, xc < m, "p <"); c.eq(p > a, xc > m, "p >"); c.eq(p <= a, xc <= m, "p <="); c.eq(p >= a, xc >= m, "p >=");
		if (m == x) c.ok(sprout::to_hash(a) == sprout::to_hash(b) && std::hash<A>()(a) == std::hash<B>()(b) && hash_value(a) == hash_value(b), "equal strings hash equally"); }
	for (std::size_t p = 0; p <= m.size() + 1; ++p) for (std::size_t n : {std::size_t(0), std::size_t(1), m.size() / 2, m.size(), npos}) { MON_CASE(c, nm(N, "substr/compare/copy at"), m, x, p, n); bool in = p <= m.size();
		if (in) { A s = a.substr(p, n); state(c, s, m.substr(p, n), "substr"); A s2(a, p, n); state(c, s2, m.substr(p, n), "ctor(str,pos,n)"); c.eq(sg(a.compare(p, n, b)), sg(m.compare(p, n, x)), "compare(pos,n,str)"); c.eq(sg(a.compare(p, n, (T const*)cs.p)), sg(m.compare(p, n, xc)), "compare(pos,n,cstr)"); c.eq(sg(a.compare(p, n, (T const*)raw.p, x.size())), sg(m.compare(p, n, x)), "compare(pos,n,p,n2)"); c.eq(sg(a.compare(p, n, b.begin(), x.size())), sg(m.compare(p, n, x)), "compare(pos,n,it,n2)"); c.eq(sg(a.compare(p, n, b.begin())), sg(m.compare(p, n, xc)), "compare(pos,n,it)");
			Buf<T> out(m.size() - p < n ? m.size() - p : n, T('#')); c.eq(a.copy(out.p, n, p), out.n, "copy"); c.eq(M(out.p, out.n), m.substr(p, n), "copied"); std::vector<T> o2(out.n + 1, T('#')); c.eq(a.copy(o2.begin(), n, p), out.n, "copy to iterator"); c.eq(M(o2.begin(), o2.end() - 1), m.substr(p, n), "copied to iterator"); c.ok(o2.back() == T('#'), "copy stays in range");
			std::size_t q = rng().below(x.size() + 1), n2 = rng().coin(1, 3) ? npos : rng().below(4); c.eq(sg(a.compare(p, n, b, q, n2)), sg(m.compare(p, n, x, q, n2)), "compare(pos,n,str,pos,n)"); throws<std::out_of_range>(c, [&] { (void)a.compare(p, n, b, x.size() + 1, n2); });
		} else { throws<std::out_of_range>(c, [&] { a.substr(p, n); }, "substr"); throws<std::out_of_range>(c, [&] { A s(a, p, n); }, "ctor(str,pos,n)"); throws<std::out_of_range>(c, [&] { (void)a.compare(p, n, b); }, "compare"); throws<std::out_of_range>(c, [&] { (void)a.compare(p, n, (T const*)cs.p); }, "compare cstr"); T o; throws<std::out_of_range>(c, [&] { a.copy(&o, 1, p); }, "copy"); }
	}
}
template<std::size_t N, std::size_t N2> void build(std::uint64_t reps_) {
	typedef typename S<N>::type A; typedef typename S<N2>::type B; typedef typename S<N + N2>::type AB; static_assert(A::static_size == N, "");
	for (std::uint64_t r = 0; r < reps_; ++r) {
		M m = gs(gl(N)), x = gs(gl(N2)); A a = mk_<N>(m); B b = mk_<N2>(x); T ch = gc(); M y = gs(gl(N + 2), false); Buf<T> cs(M(y + T())); std::size_t n = rng().below(N + 3);
		{ MON_CASE(c, nm(N, "default ctor")); A z; state(c, z, M(), "default"); }
		{ MON_CASE(c, nm(N, "copy ctor"), m); A z(a); state(c, z, m, "copy"); z = a; state(c, z, m, "copy assign"); A const& self = z; z = self; state(c, z, m, "self assign"); A w; w = sprout::move(z); state(c, w, m, "move assign"); A v(sprout::move(w)); state(c, v, m, "move ctor"); }
		{ MON_CASE(c, nm(N, "widening ctor"), m, x); AB z(b); state(c, z, x, "from smaller"); std::size_t p = rng().below(x.size() + 1), k = rng().coin(1, 3) ? A::npos : rng().below(N2 + 1); AB z2(b, p, k); state(c, z2, x.substr(p, k), "from smaller (pos,n)"); throws<std::out_of_range>(c, [&] { AB q(b, x.size() + 1); }, "from smaller, pos"); AB st2 = sprout::stretch<N + N2>(b); state(c, st2, x, "stretch"); }
		{ MON_CASE(c, nm(N, "ctor(cstr)"), y); if (y.size() <= N) { A z((T const*)cs.p); state(c, z, y, "ctor"); A z2 = A::from_c_str(cs.p); state(c, z2, y, "from_c_str"); A z3 = sprout::string_from_c_str<N>((T const*)cs.p); state(c, z3, y, "string_from_c_str"); } else { throws<std::length_error>(c, [&] { A z((T const*)cs.p); }); throws<std::length_error>(c, [&] { A z = A::from_c_str(cs.p); }); } }
		{ M w = y.substr(0, n); MON_CASE(c, nm(N, "ctor(p,n)"), y, n); if (w.size() <= N) { A z((T const*)cs.p, n); state(c, z, w, "ctor"); A z2 = A::from_c_str(cs.p, n); state(c, z2, w, "from_c_str(p,n)"); A z3 = sprout::string_from_c_str<N>((T const*)cs.p, n); state(c, z3, w, "string_from_c_str(p,n)"); } else throws<std::length_error>(c, [&] { A z((T const*)cs.p, n); }); }
		{ MON_CASE(c, nm(N, "ctor(n,c)"), n, (unsigned long)ch); if (n <= N) { A z(n, ch); state(c, z, M(n, ch), "ctor"); } else throws<std::length_error>(c, [&] { A z(n, ch); }); throws<std::length_error>(c, [&] { A z(A::npos, ch); }); }
		{ M w = gs(gl(N + 2)); MON_CASE(c, nm(N, "ctor(range)"), w); Src<In, T> i(w); Src<Fw, T> f(w); Src<Ra, T> q(w); Buf<T> p(w); if (w.size() <= N) { A z1(i.cb(), i.ce()), z2(f.cb(), f.ce()), z3(q.cb(), q.ce()), z4(p.begin(), p.end()); state(c, z1, w, "input"); state(c, z2, w, "forward"); state(c, z3, w, "random"); state(c, z4, w, "pointer"); } else { throws<std::length_error>(c, [&] { A z(i.cb(), i.ce()); }, "input"); throws<std::length_error>(c, [&] { A z(f.cb(), f.ce()); }, "forward"); throws<std::length_error>(c, [&] { A z(q.cb(), q.ce()); }, "random"); } }
		{ MON_CASE(c, nm(N, "ctor(il)"), (unsigned long)ch); if (N >= 3) { A z({T('x'), ch, T('y')}); M w; w += T('x'); w += ch; w += T('y'); state(c, z, w, "il"); } else throws<std::length_error>(c, [&] { A z({T('x'), ch, T('y')}); }); }
		{ MON_CASE(c, nm(N, "operator+"), m, x, (unsigned long)ch); AB z = a + b; state(c, z, m + x, "str+str"); auto z1 = a + ch; state(c, z1, m + ch, "str+c"); auto z2 = ch + a; state(c, z2, ch + m, "c+str"); T lit[] = {T('h'), T('i'), T(0)}; T sh[] = {T('h'), T(0), T('x'), T(0)}; M l(lit), s(sh); auto z3 = a + lit; state(c, z3, m + l, "str+arr"); auto z4 = lit + a; state(c, z4, l + m, "arr+str"); auto z5 = a + sh; state(c, z5, m + s, "str+short arr"); auto z6 = sh + a; state(c, z6, s + m, "short arr+str"); static_assert(std::is_same<decltype(a + b), AB>::value, ""); }
		{ MON_CASE(c, nm(N, "shift concat"), m, x, y, (unsigned long)ch); M il; il += ch; il += T('k'); std::initializer_list<T> ils = {ch, T('k')};
#define SH(FITS, EXPR, WANT) if (FITS) { A z = EXPR; state(c, z, WANT, #EXPR); } else throws<std::length_error>(c, [&] { A z = EXPR; }, #EXPR);
			SH(m.size() + 1 <= N, a << ch, m + ch) SH(m.size() + x.size() <= N, a << b, m + x) SH(m.size() + y.size() <= N, a << (T const*)cs.p, m + y) SH(m.size() + 2 <= N, a << ils, m + il)
			SH(m.size() + 1 <= N, a >> ch, ch + m) SH(m.size() + x.size() <= N, a >> b, x + m) SH(m.size() + y.size() <= N, a >> (T const*)cs.p, y + m) SH(m.size() + 2 <= N, a >> ils, il + m) }
		{ MON_CASE(c, nm(N, "array ctor"), (unsigned long)ch, n); T lit[4] = {T('a'), T('b'), T('c'), T(0)}; T sh[4] = {T('q'), T(0), T('z'), T(0)}; typename S<N + 3>::type z(lit); state(c, z, M(lit), "arr"); typename S<N + 3>::type z2(sh); state(c, z2, M(sh), "short arr"); typename S<N + 3>::type z3(lit, n); state(c, z3, M(lit).substr(0, n), "arr,n"); auto z4 = sprout::to_string(lit); state(c, z4, M(lit), "to_string"); auto z5 = sprout::to_string(sh); state(c, z5, M(sh), "to_string short"); }
		{ MON_CASE(c, nm(N, "shrink"), m); auto z = sprout::shrink<N2>(a); state(c, z, m.substr(0, N2), "shrink<>"); B z2 = sprout::shrink(a); state(c, z2, m.substr(0, N2), "shrink conversion"); }
		{ MON_CASE(c, nm(N, "make_string"), (unsigned long)ch); T d = gc(false), e = gc(false); auto z = sprout::make_string(d, e, T('!')); M w; w += d; w += e; w += T('!'); state(c, z, w, "make_string"); auto z1 = sprout::make_string<T>(d, e); state(c, z1, w.substr(0, 2), "make_string<T>"); typename S<N + 3>::type z2 = sprout::make_string<T, N + 3>(d, e, T('!')); state(c, z2, w, "make_string<T,N>"); auto z3 = sprout::make_string(d, T(0), e); state(c, z3, w.substr(0, 1), "make_string with a terminator"); auto z4 = sprout::make_string<T>(); state(c, z4, M(), "make_string<T>()"); }
		{ MON_CASE(c, nm(N, "conversion"), m); sprout::basic_string_view<T> v = a; c.eq(M(v.data(), v.size()), m, "view"); std::basic_string<T, sprout::char_traits<T> > ss = static_cast<std::basic_string<T, sprout::char_traits<T> > >(a); c.eq(M(ss.data(), ss.size()), m, "std::basic_string"); }
	}
}
#if MON_PART(0) || MON_PART(1)
template<std::size_t N> void io(std::uint64_t reps_) {
	typedef typename S<N>::type A;
	for (std::uint64_t r = 0; r < reps_; ++r) {
		M m = gs(gl(N)); A a = mk_<N>(m); int w = (int)rng().below(N + 4); bool left = rng().coin();
		{ MON_CASE(c, nm(N, "operator<<"), m, w, left); std::basic_ostringstream<T> o1, o2; if (left) { o1.setf(std::ios::left, std::ios::adjustfield); o2.setf(std::ios::left, std::ios::adjustfield); } o1.width(w); o2.width(w); o1.fill(T('.')); o2.fill(T('.')); o1 << a << T('|'); o2 << m << T('|'); c.eq(o1.str(), o2.str(), "output"); c.eq((int)o1.width(), 0, "width reset"); }
		{ M in = gs(rng().below(2 * N + 4), false); MON_CASE(c, nm(N, "operator>>"), in, m, w); std::basic_istringstream<T> i1(in), i2(in); if (rng().coin(1, 10)) { i1.setstate(std::ios::failbit); i2.setstate(std::ios::failbit); } i1.width(w); std::streamsize lim = w > 0 && (std::size_t)w < N ? w : (std::streamsize)N; M s(m); A b(a);
			for (int k = 0; k < 3 && i1; ++k) { bool was = !!i2; i1 >> b; if (lim > 0) { i2.width(lim); i2 >> s; lim = N; } else { if (was) { typename std::basic_istream<T>::sentry se(i2); if (se) s.clear(); i2.setstate(std::ios::failbit); lim = N; } } state(c, b, s, "input"); c.eq((int)i1.rdstate(), (int)i2.rdstate(), "stream state"); if (!i1) break; c.eq((int)i1.width(), 0, "width reset"); c.eq((long)i1.tellg(), (long)i2.tellg(), "stream position"); if (!N) break; } }
	}
}
MON_TEST(io) { io<0>(reps(100)); io<1>(reps(300)); io<6>(reps(1500)); io<16>(reps(800)); }
#endif
MON_TEST(history) { history<0, 1>(reps(400)); history<1, 3>(reps(800)); history<6, 4>(reps(6000)); history<16, 16>(reps(3000)); history<40, 7>(reps(1200)); }
MON_TEST(build) { build<0, 1>(reps(60)); build<1, 2>(reps(200)); build<6, 3>(reps(1500)); build<9, 12>(reps(600)); }
MON_TEST(search) { for (int l = 0; l <= 4; ++l) for (int k = 0; k <= 2; ++k) all_seqs(l, 2, [&](std::vector<int> const& v) { all_seqs(k, 2, [&](std::vector<int> const& u) { M m, x; for (int i : v) m += T('a' + i); for (int i : u) x += T('a' + i); search<4, 2>(m, x); }); });
	for (std::uint64_t r = 0; r < reps(400); ++r) { M m = gs(gl(12)); M x = rng().coin() && !m.empty() ? m.substr(rng().below(m.size()), rng().below(5)) : gs(gl(4)); if (x.size() > 5) x.resize(5); search<12, 5>(m, x); } for (std::uint64_t r = 0; r < reps(60); ++r) { search<0, 1>(M(), gs(gl(1))); search<3, 8>(gs(gl(3)), gs(gl(8))); } }
// the traits class: every static member against std::char_traits
MON_TEST(traits) { typedef sprout::char_traits<T> A; typedef std::char_traits<T> Q; typedef sprout::char_traits_helper<A> H; auto sgn = [](int x) { return (x > 0) - (x < 0); };
	for (std::uint64_t r = 0; r < reps(600); ++r) { M x = gs(rng().below(9), false), y = rng().coin() ? x : gs(rng().below(9), false); if (!y.empty() && rng().coin()) y[rng().below(y.size())] = gc(false); std::size_t n = rng().below(std::min(x.size(), y.size()) + 1); T ch = gc(), c2 = gc(); Buf<T> bx(M(x + T())), by(M(y + T())); MON_CASE(c, nm(0, "traits"), std::vector<long>(x.begin(), x.end()), std::vector<long>(y.begin(), y.end()), n, (long)ch); T const* p = bx.begin(); T const* q = by.begin();
		c.eq((long)A::length(p), (long)Q::length(p), "length"); c.eq(sgn(A::compare(p, q, n)), sgn(Q::compare(p, q, n)), "compare"); c.ok(A::find(p, x.size(), ch) == Q::find(p, x.size(), ch), "find"); c.ok(A::eq(ch, c2) == Q::eq(ch, c2) && A::lt(ch, c2) == Q::lt(ch, c2), "eq lt"); c.ok(A::to_int_type(ch) == Q::to_int_type(ch) && A::to_char_type(A::to_int_type(ch)) == ch && A::eof() == Q::eof() && A::eq_int_type(A::not_eof(A::to_int_type(ch)), A::to_int_type(ch)) && !A::eq_int_type(A::not_eof(A::eof()), A::eof()) && A::eq_int_type(A::to_int_type(ch), A::to_int_type(c2)) == (ch == c2), "int_type");
		T a1 = c2; A::assign(a1, ch); c.ok(a1 == ch, "assign a character"); std::size_t f = rng().below(x.size() + 1), k = rng().below(x.size() - f + 1), to = rng().below(x.size() - k + 1); M e = x, g; Q::move(&e[0] + to, &e[0] + f, k); Buf<T> m1(M(x + T())); c.ok(A::move(m1.begin() + to, m1.begin() + f, k) == m1.begin() + to, "move returns the target"); c.eq(M(m1.begin(), m1.begin() + x.size()), e, "move of overlapping ranges"); e = x; Q::assign(&e[0] + f, k, ch); Buf<T> m2(M(x + T())); c.ok(A::assign(m2.begin() + f, k, ch) == m2.begin() + f, "assign returns the target"); c.eq(M(m2.begin(), m2.begin() + x.size()), e, "assign"); Buf<T> m3(M(x.size(), T('-'))); A::copy(m3.begin(), p, x.size()); c.eq(M(m3.begin(), m3.end()), x, "copy");
		std::list<T> lx(bx.begin(), bx.end()), ly(by.begin(), by.end()); c.eq(sgn(A::compare(lx.begin(), ly.begin(), n)), sgn(Q::compare(p, q, n)), "compare of iterators"); c.eq(sgn(A::compare(p, ly.begin(), n)), sgn(Q::compare(p, q, n)), "compare pointer iterator"); c.eq(sgn(A::compare(lx.begin(), q, n)), sgn(Q::compare(p, q, n)), "compare iterator pointer"); c.eq((long)A::length(lx.begin()), (long)Q::length(p), "length of iterators"); T const* fp = Q::find(p, x.size(), ch); std::size_t fi = fp ? fp - p : x.size(); c.eq((long)std::distance(lx.begin(), A::find(lx.begin(), x.size(), ch)), (long)fi, "find in iterators"); c.ok(H::find(p, x.size(), ch) == p + fi && H::is_found(H::find(p, x.size(), ch), p + x.size()) == (fp != nullptr), "helper find"); c.eq((long)H::length(p, n), (long)std::min<std::size_t>(n, x.size()), "helper length"); count("traits", 30); } }
