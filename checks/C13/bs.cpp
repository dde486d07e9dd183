// C13: sprout::bitset<N> against std::bitset<N>, at widths around every word boundary.
#include <spr.hpp>
#include <sprout/bitset.hpp>
#include <bitset>
#include <sstream>
using namespace mon;
template<std::size_t N> struct W { typedef sprout::bitset<N> A; typedef std::bitset<N> M; };
static std::string nm(std::size_t n, char const* op) { return std::to_string(n) + " " + op; }
template<std::size_t N> std::bitset<N> gen() { std::bitset<N> m; switch (rng().below(8)) { case 0: break; case 1: m.set(); break; case 2: if (N) m.set(rng().below(N)); break; case 3: m.set(); if (N) m.reset(rng().below(N)); break; case 4: for (std::size_t i = 0; i < N; ++i) if (i / 64 == N / 128) m.set(i); break; default: for (std::size_t i = 0; i < N; ++i) if (rng().coin()) m.set(i); } return m; }
template<std::size_t N> sprout::bitset<N> to(std::bitset<N> const& m) { return sprout::bitset<N>(m.to_string()); }
template<class F> std::string ov(F f) { try { return std::to_string(f()); } catch (std::overflow_error const&) { return "overflow_error"; } catch (std::exception const& e) { return e.what(); } }
template<class C, std::size_t N> void state(C& c, sprout::bitset<N> const& a, std::bitset<N> const& m, char const* w) {
	c.eq(a.to_string(), m.to_string(), w); c.ok(a.size() == N, "size"); c.eq(a.count(), m.count(), "count"); c.eq(a.all(), m.all(), "all"); c.eq(a.any(), m.any(), "any"); c.eq(a.none(), m.none(), "none");
	std::string b; for (std::size_t i = 0; i < N; ++i) { c.ok(a[i] == m[i] && a.test(i) == m[i], "operator[]/test"); }
	c.eq(ov([&] { return a.to_ulong(); }), ov([&] { return m.to_ulong(); }), "to_ulong"); c.eq(ov([&] { return a.to_ullong(); }), ov([&] { return m.to_ullong(); }), "to_ullong");
	std::size_t f = N; for (std::size_t i = 0; i < N && f == N; ++i) if (m[i]) f = i; c.eq(a.find_first(), f, "find_first");
	sprout::bitset<N> z(m.to_string()); c.ok(a == z && !(a != z) && sprout::to_hash(a) == sprout::to_hash(z) && std::hash<sprout::bitset<N> >()(a) == std::hash<sprout::bitset<N> >()(z), "equal to the same bits built afresh (no hidden bits)");
}
template<std::size_t N> void ops(std::bitset<N> const& m, std::bitset<N> const& y) {
	typedef sprout::bitset<N> A; typedef std::bitset<N> M; A const a = to(m), b = to(y);
	{ MON_CASE(c, nm(N, "observe"), m.to_string()); state(c, a, m, "from string"); for (std::size_t p = 0; p <= N; ++p) { std::size_t f = N; for (std::size_t i = p + 1; i < N && f == N; ++i) if (m[i]) f = i; c.eq(a.find_next(p), f, "find_next"); } c.eq(a.find_next(N + 200), N, "find_next far"); throws<std::out_of_range>(c, [&] { (void)a.test(N); }); throws<std::out_of_range>(c, [&] { (void)a.test(~std::size_t(0)); });
		c.eq(a.template to_string<char>('o', 'x'), m.template to_string<char>('o', 'x'), "to_string(zero,one)"); c.eq(a.to_string('.'), m.to_string('.'), "to_string(zero)"); c.eq(a.template to_string<wchar_t>(), m.template to_string<wchar_t>(), "wide to_string"); typedef std::char_traits<char> ct; c.eq(a.template to_string<char, ct>('p', 'q'), m.template to_string<char, ct>('p', 'q'), "to_string<c,t>"); }
	{ MON_CASE(c, nm(N, "bitwise"), m.to_string(), y.to_string()); state(c, a & b, m & y, "&"); state(c, a | b, m | y, "|"); state(c, a ^ b, m ^ y, "^"); state(c, ~a, ~m, "~"); A t(a); c.ok(&(t &= b) == &t, "ref"); state(c, t, m & y, "&="); t = a; t |= b; state(c, t, m | y, "|="); t = a; t ^= b; state(c, t, m ^ y, "^="); c.eq(a == b, m == y, "=="); c.eq(a != b, m != y, "!="); }
	{ MON_CASE(c, nm(N, "set/reset/flip all"), m.to_string()); M s; s.set(); state(c, a.set(), s, "set() const"); state(c, a.reset(), M(), "reset() const"); state(c, a.flip(), ~m, "flip() const"); A t(a); t.set(); state(c, t, s, "set()"); t = a; t.reset(); state(c, t, M(), "reset()"); t = a; t.flip(); state(c, t, ~m, "flip()"); state(c, a, m, "source"); }
	std::vector<std::size_t> sh; for (std::size_t i : {0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129}) sh.push_back(i); sh.push_back(N); sh.push_back(N + 1); if (N) sh.push_back(N - 1); sh.push_back(~std::size_t(0)); sh.push_back(rng().below(N + 2));
	for (std::size_t s : sh) { MON_CASE(c, nm(N, "shift"), m.to_string(), s); M l = s < N ? m << s : M(), r = s < N ? m >> s : M(); state(c, a << s, l, "<<"); state(c, a >> s, r, ">>"); A t(a); c.ok(&(t <<= s) == &t, "ref"); state(c, t, l, "<<="); t = a; c.ok(&(t >>= s) == &t, "ref"); state(c, t, r, ">>="); }
}
template<std::size_t N, class B> void oor(std::bitset<N> const& m, B) { typedef sprout::bitset<N> A; A const a = to(m); A t(a); std::size_t p = N + rng().below(70); MON_CASE(c, nm(N, "position out of range"), m.to_string(), p);
	throws<std::out_of_range>(c, [&] { (void)a.set(p); }); throws<std::out_of_range>(c, [&] { (void)a.reset(p); }); throws<std::out_of_range>(c, [&] { (void)a.flip(p); }); throws<std::out_of_range>(c, [&] { t.set(p, false); }); throws<std::out_of_range>(c, [&] { t.reset(p); }); throws<std::out_of_range>(c, [&] { t.flip(p); }); state(c, t, m, "unchanged"); }
template<class C, std::size_t N> void bit(C& c, sprout::bitset<N> const& a, std::bitset<N> const& m, std::size_t p, std::size_t q, bool v, std::true_type) { sprout::bitset<N> t(a); std::bitset<N> w(m); t[p] = v; w[p] = v; state(c, t, w, "[p]=v"); t[p] = t[q]; w[p] = w[q]; state(c, t, w, "[p]=[q]"); c.ok(~t[q] == ~w[q] && bool(t[q]) == bool(w[q]), "reference read"); t[q].flip(); w[q].flip(); state(c, t, w, "[q].flip()"); }
template<class C, std::size_t N> void bit(C&, sprout::bitset<N> const&, std::bitset<N> const&, std::size_t, std::size_t, bool, std::false_type) {}
template<std::size_t N> void pos(std::bitset<N> const& m) {
	typedef sprout::bitset<N> A; typedef std::bitset<N> M; A const a = to(m);
	if (N) for (int k = 0; k < 6; ++k) { std::size_t p = k == 0 ? 0 : k == 1 ? N - 1 : rng().below(N); bool v = rng().coin(); MON_CASE(c, nm(N, "single bit"), m.to_string(), p, v); M w = m; A t(a);
		w.set(p, v); state(c, a.set(p, v), w, "set(p,v) const"); t.set(p, v); state(c, t, w, "set(p,v)"); w = m; w.set(p); state(c, a.set(p), w, "set(p) const"); t = a; t.set(p); state(c, t, w, "set(p)"); w = m; w.reset(p); state(c, a.reset(p), w, "reset(p) const"); t = a; t.reset(p); state(c, t, w, "reset(p)"); w = m; w.flip(p); state(c, a.flip(p), w, "flip(p) const"); t = a; t.flip(p); state(c, t, w, "flip(p)");
		std::size_t q = rng().below(N); bit(c, a, m, p, q, v, std::integral_constant<bool, (N > 0)>()); }
	oor<N>(m, std::integral_constant<bool, (N > 0)>());
}
template<std::size_t N> void ctor() {
	typedef sprout::bitset<N> A; typedef std::bitset<N> M;
	{ MON_CASE(c, nm(N, "default")); state(c, A(), M(), "default"); }
	for (std::uint64_t r = 0; r < reps(40); ++r) { unsigned long long v = rng()() >> rng().below(64); if (rng().coin(1, 5)) v = ~0ull; MON_CASE(c, nm(N, "ctor(ullong)"), v); state(c, A(v), M(v), "ullong"); A cp((A(v))); state(c, cp, M(v), "copy"); A as; as = cp; state(c, as, M(v), "assign"); }
	for (std::uint64_t r = 0; r < reps(40); ++r) { std::string s; std::size_t n = rng().below(N + 5); char z = '0', o = '1'; bool alt = rng().coin(); if (alt) { z = 'n'; o = 'y'; } for (std::size_t i = 0; i < n; ++i) s += rng().coin(1, 60) ? '?' : rng().coin() ? z : o; std::size_t p = rng().below(n + 2), k = rng().coin(1, 3) ? std::string::npos : rng().below(n + 2);
		MON_CASE(c, nm(N, "ctor(string)"), s, p, k, alt); auto go = [&](std::function<std::string()> f) { try { return f(); } catch (std::out_of_range const&) { return std::string("out_of_range"); } catch (std::invalid_argument const&) { return std::string("invalid_argument"); } };
		if (alt) { c.eq(go([&] { return A(s, p, k, z, o).to_string(); }), go([&] { return M(s, p, k, z, o).to_string(); }), "string,pos,n,zero,one"); c.eq(go([&] { return A(s.c_str(), std::min(k, n), z, o).to_string(); }), go([&] { return M(s.c_str(), std::min(k, n), z, o).to_string(); }), "cstr,n,zero,one"); }
		else { c.eq(go([&] { return A(s, p, k).to_string(); }), go([&] { return M(s, p, k).to_string(); }), "string,pos,n"); c.eq(go([&] { return A(s, p).to_string(); }), go([&] { return M(s, p).to_string(); }), "string,pos"); c.eq(go([&] { return A(s.c_str()).to_string(); }), go([&] { return M(s.c_str()).to_string(); }), "cstr"); c.eq(go([&] { return A(s.c_str(), std::min(k, n)).to_string(); }), go([&] { return M(s.c_str(), std::min(k, n)).to_string(); }), "cstr,n"); std::wstring ws(s.begin(), s.end()); c.eq(go([&] { return A(ws, p, k).to_string(); }), go([&] { return M(ws, p, k).to_string(); }), "wstring"); c.eq(go([&] { return A(ws.c_str()).to_string(); }), go([&] { return M(ws.c_str()).to_string(); }), "wide cstr"); } }
	for (std::uint64_t r = 0; r < reps(40); ++r) { std::string s; if (rng().coin(1, 4)) s = "  "; std::size_t n = rng().below(N + 4); for (std::size_t i = 0; i < n; ++i) s += rng().coin(1, 25) ? (rng().coin() ? ' ' : 'x') : char('0' + rng().below(2)); M m = gen<N>(); A a = to(m); MON_CASE(c, nm(N, "stream"), s, m.to_string()); std::istringstream i1(s), i2(s); if (rng().coin(1, 12)) { i1.setstate(std::ios::failbit); i2.setstate(std::ios::failbit); } i1 >> a; i2 >> m; c.eq((int)i1.rdstate(), (int)i2.rdstate(), "stream state"); state(c, a, m, "stream input"); i1.clear(); i2.clear(); c.eq((long)i1.tellg(), (long)i2.tellg(), "stream position");
		std::ostringstream o1, o2; int w = (int)rng().below(N + 5); o1.width(w); o2.width(w); o1 << a << '|'; o2 << m << '|'; c.eq(o1.str(), o2.str(), "stream output"); std::wostringstream w1, w2; w1 << a; w2 << m; c.eq(w1.str(), w2.str(), "wide stream output"); }
}
template<std::size_t N> void history() { // mutation histories
	typedef sprout::bitset<N> A; typedef std::bitset<N> M; A a; M m;
	for (std::uint64_t st_ = 0; st_ < reps(150); ++st_) { std::size_t p = N ? rng().below(N) : 0, s = rng().below(N + 3); unsigned op = (unsigned)rng().below(N ? 11 : 7); M y = gen<N>(); A b = to(y); M o = m;
		MON_CASE(c, nm(N, "history"), o.to_string(), y.to_string(), op, p, s);
		switch (op) { case 0: a <<= s; m = s < N ? m << s : M(); break; case 1: a >>= s; m = s < N ? m >> s : M(); break; case 2: a.flip(); m.flip(); break; case 3: a ^= b; m ^= y; break; case 4: a |= b; m |= y; break; case 5: if (rng().coin(1, 3)) { a &= b; m &= y; } else { a = ~a; m = ~m; } break; case 6: a.set(); m.set(); break; case 7: a.flip(p); m.flip(p); break; case 8: a.set(p); m.set(p); break; case 9: a.reset(p); m.reset(p); break; case 10: a = (a << s) | (a >> (N - s % (N + 1))); m = (s < N ? m << s : M()) | (N - s % (N + 1) < N ? m >> (N - s % (N + 1)) : M()); break; }
		state(c, a, m, "after the operation"); if (rng().coin(1, 12)) { m = gen<N>(); a = to(m); } }
}
template<std::size_t N> void all_() {
	if (N <= 5) { for (unsigned long i = 0; i < (1ul << N); ++i) for (unsigned long j = 0; j < (1ul << N); ++j) ops<N>(std::bitset<N>(i), std::bitset<N>(j)); }
	for (std::uint64_t r = 0; r < reps(20); ++r) ops<N>(gen<N>(), gen<N>());
	for (std::uint64_t r = 0; r < reps(15); ++r) pos<N>(gen<N>());
	ctor<N>(); history<N>();
}
#define W_(N) MON_TEST(w##N) { all_<N>(); }
#if MON_PART(0)
W_(0) W_(1) W_(2) W_(5) W_(8) W_(31)
#endif
#if MON_PART(1)
W_(32) W_(33) W_(63) W_(64) W_(65)
#endif
#if MON_PART(2)
W_(96) W_(127) W_(128) W_(129)
#endif
#if MON_PART(3)
W_(191) W_(192) W_(193) W_(260)
#endif
