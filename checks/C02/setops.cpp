#define MON_FINE_TAG
#include <src.hpp>
#include <spr.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/iterator.hpp>
#include <sprout/functional.hpp>
using namespace mon;
typedef std::vector<int> V; typedef std::vector<Tag> T;
#define OPN(n) (n + tag)
struct KeyLess { int pad; explicit KeyLess(int) : pad(0) {} bool operator()(Tag const& a, Tag const& b) const { return a.key < b.key; } };
struct KeyDesc { int pad; explicit KeyDesc(int) : pad(0) {} bool operator()(Tag const& a, Tag const& b) const { return b.key < a.key; } };
template<class F> void pairs(F f) {
	std::vector<V> sm; for (int n = 0; n <= 3; ++n) all_seqs(n, 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) sm.push_back(v); });
	sm.push_back(V{0,0,0,0}); sm.push_back(V{0,1,1,2}); sm.push_back(V{1,1,1,2,2}); sm.push_back(V{0,1,2,3,4});
	for (auto& a : sm) for (auto& b : sm) f(a, b);
	for (std::uint64_t i = 0; i < reps(250); ++i) { int hi = (int)rng().pick(std::vector<int>{2, 5, 20, 100}); V a = rand_seq(rand_len(rng().coin() ? 7 : 120), 0, hi), b = rand_seq(rand_len(rng().coin() ? 7 : 120), 0, hi); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (rng().coin(1, 4)) { b = a; if (!b.empty() && rng().coin()) b.erase(b.begin() + rng().below(b.size())); } f(a, b); }
}
#if MON_PART(0)
template<class S> void bounds() {
	std::string tag = "<" + S::name() + ">";
	auto body = [&](V const& v, int k) {
		V dv(v); std::reverse(dv.begin(), dv.end()); S s(v), d(dv); Desc ds(1);
		{ MON_CASE(c, OPN("lower_bound"), v, k); c.eq(s.off(sprout::lower_bound(s.cb(), s.ce(), k)), std::lower_bound(v.begin(), v.end(), k) - v.begin()); c.eq(d.off(sprout::lower_bound(d.cb(), d.ce(), k, ds)), std::lower_bound(dv.begin(), dv.end(), k, ds) - dv.begin(), "desc"); }
		{ MON_CASE(c, OPN("upper_bound"), v, k); c.eq(s.off(sprout::upper_bound(s.cb(), s.ce(), k)), std::upper_bound(v.begin(), v.end(), k) - v.begin()); c.eq(d.off(sprout::upper_bound(d.cb(), d.ce(), k, ds)), std::upper_bound(dv.begin(), dv.end(), k, ds) - dv.begin(), "desc"); }
		{ MON_CASE(c, OPN("equal_range"), v, k); auto r = sprout::equal_range(s.cb(), s.ce(), k); auto x = std::equal_range(v.begin(), v.end(), k); c.eq(s.off(r.first), x.first - v.begin(), "first"); c.eq(s.off(r.second), x.second - v.begin(), "second");
		  auto r2 = sprout::equal_range(d.cb(), d.ce(), k, ds); auto x2 = std::equal_range(dv.begin(), dv.end(), k, ds); c.eq(d.off(r2.first), x2.first - dv.begin(), "first desc"); c.eq(d.off(r2.second), x2.second - dv.begin(), "second desc"); }
		{ MON_CASE(c, OPN("binary_search"), v, k); c.eq(sprout::binary_search(s.cb(), s.ce(), k), std::binary_search(v.begin(), v.end(), k)); c.eq(sprout::binary_search(d.cb(), d.ce(), k, ds), std::binary_search(dv.begin(), dv.end(), k, ds), "desc"); }
		{ MON_CASE(c, OPN("partition_point"), v, k); auto p = [&](int x) { return x < k; }; c.eq(s.off(sprout::partition_point(s.cb(), s.ce(), p)), std::partition_point(v.begin(), v.end(), p) - v.begin()); }
	};
	for (int n = 0; n <= 6; ++n) all_seqs(n, 3, [&](V const& v) { if (std::is_sorted(v.begin(), v.end())) for (int k = -1; k <= 3; ++k) body(v, k); });
	for (std::uint64_t i = 0; i < reps(600); ++i) { int hi = (int)rng().pick(std::vector<int>{2, 10, 300, 1000}); V v = rand_seq(rand_len(300), 0, hi); std::sort(v.begin(), v.end()); body(v, rng().coin() && !v.empty() ? rng().pick(v) : (int)rng().range(-1, hi + 1)); }
	// heterogeneous comparators (value type differs from element type)
	for (std::uint64_t i = 0; i < reps(200); ++i) { V v = rand_seq(rand_len(60), 0, 9); std::sort(v.begin(), v.end()); long long k = rng().range(-1, 10); S s(v);
		MON_CASE(c, OPN("bounds hetero"), v, k); auto lc = [](int a, long long b) { return a < b; }; auto uc = [](long long a, int b) { return a < b; };
		c.eq(s.off(sprout::lower_bound(s.cb(), s.ce(), k, lc)), std::lower_bound(v.begin(), v.end(), k, lc) - v.begin(), "lower"); c.eq(s.off(sprout::upper_bound(s.cb(), s.ce(), k, uc)), std::upper_bound(v.begin(), v.end(), k, uc) - v.begin(), "upper"); }
}
MON_SRC_TESTS_FW(bounds, int)
template<class S, class S2> void incl(bool) {
	std::string tag = "<" + S::name() + "," + S2::name() + ">";
	pairs([&](V const& a, V const& b) { S s(a); S2 t(b); V da(a.rbegin(), a.rend()), db(b.rbegin(), b.rend()); S ds(da); S2 dt(db); Desc d(1);
		MON_CASE(c, OPN("includes"), a, b); c.eq(sprout::includes(s.cb(), s.ce(), t.cb(), t.ce()), std::includes(a.begin(), a.end(), b.begin(), b.end())); c.eq(sprout::includes(ds.cb(), ds.ce(), dt.cb(), dt.ce(), d), std::includes(da.begin(), da.end(), db.begin(), db.end(), d), "desc"); });
}
#define IN2(n, A, B) MON_TEST(includes_##n) { incl<A, B>(true); }

typedef Src<In, int> SI; typedef Src<Fw, int, NonLit> SFN; typedef Src<Ra, int> SR; typedef Src<Fw, int> SF; typedef Ptr<int> SP;
IN2(in_in, SI, SI) IN2(ra_ra, SR, SR) IN2(fn_fn, SFN, SFN) IN2(ptr_ptr, SP, SP) IN2(ra_fw, SR, SF) IN2(ptr_in, SP, SI)
#endif

typedef Src<In, Tag> TI; typedef Src<Fw, Tag> TF; typedef Src<Fw, Tag, NonLit> TFN; typedef Src<Ra, Tag> TR; typedef Src<Ra, Tag, NonLit> TRN; typedef Ptr<Tag> TP; typedef Src<Bi, Tag> TB;
#if MON_PART(1)
// step functions against the definition
template<class S, class S2> void steps(bool) {
	std::string tag = "<" + S::name() + "," + S2::name() + ">";
	auto run = [&](T const& a, T const& b, char const* nm, std::function<bool(Tag const&, Tag const&)> lt, int which) {
		S s(a); S2 t(b); KeyLess kl(1); KeyDesc kd(1); typedef decltype(s.cb()) I1; typedef decltype(t.cb()) I2; typedef sprout::pair<I1, I2> PR; I1 e1 = s.ce(); I2 e2 = t.ce();
		std::size_t n1 = a.size(), n2 = b.size();
		auto call = [&](int fn, I1 x, I2 y) -> PR {
			switch (fn * 3 + which) {
#define CALLS(k, F) case k * 3: return sprout::F(x, e1, y, e2); case k * 3 + 1: return sprout::F(x, e1, y, e2, kl); case k * 3 + 2: return sprout::F(x, e1, y, e2, kd);
			CALLS(0, find_intersection) CALLS(1, find_difference) CALLS(2, find_symmetric_difference) CALLS(3, next_union) CALLS(4, next_intersection) CALLS(5, next_difference) CALLS(6, next_symmetric_difference)
			} std::abort(); };
		typedef std::pair<std::size_t, std::size_t> P;
		auto fi = [&](P p) { while (p.first < n1 && p.second < n2) { if (lt(a[p.first], b[p.second])) ++p.first; else if (lt(b[p.second], a[p.first])) ++p.second; else return p; } return P(n1, n2); };
		auto fd = [&](P p) { while (p.first < n1) { if (p.second == n2 || lt(a[p.first], b[p.second])) return p; if (lt(b[p.second], a[p.first])) ++p.second; else { ++p.first; ++p.second; } } return P(n1, n2); };
		auto fs = [&](P p) { while (p.first < n1 && p.second < n2 && !lt(a[p.first], b[p.second]) && !lt(b[p.second], a[p.first])) { ++p.first; ++p.second; } return p; };
		for (std::size_t i = 0; i <= n1; i += 1 + n1 / 6) for (std::size_t j = 0; j <= n2; j += 1 + n2 / 6) {
			P p(i, j); auto chk = [&](char const* name, PR const& r, P const& w) { MON_CASE(c, OPN(std::string(name)), idsof(a), idsof(b), (int)i, (int)j, std::string(nm)); c.eq(P(s.off(r.first), t.off(r.second)), w); };
			I1 x = s.cat(i); I2 y = t.cat(j); bool e = i < n1 && j < n2; bool l = e && lt(a[i], b[j]), g = e && lt(b[j], a[i]);
			chk("find_intersection", call(0, x, y), fi(p)); chk("find_difference", call(1, x, y), fd(p)); chk("find_symmetric_difference", call(2, x, y), fs(p));
			P un = i < n1 ? (j < n2 ? (l ? P(i + 1, j) : g ? P(i, j + 1) : P(i + 1, j + 1)) : P(i + 1, j)) : j < n2 ? P(i, j + 1) : P(n1, n2);
			chk("next_union", call(3, x, y), un);
			if (e && !l && !g) chk("next_intersection", call(4, x, y), fi(P(i + 1, j + 1)));
			if (i < n1 && (j == n2 || l)) chk("next_difference", call(5, x, y), fd(P(i + 1, j)));
			if (l || g || !e) chk("next_symmetric_difference", call(6, x, y), i == n1 && j == n2 ? p : i == n1 ? fs(P(i, j + 1)) : j == n2 ? fs(P(i + 1, j)) : l ? fs(P(i + 1, j)) : fs(P(i, j + 1)));
		}
		if (n1 == 0 || n2 == 0) { MON_CASE(c, OPN("next at end"), (int)n1, (int)n2, std::string(nm)); c.eq(P(s.off(call(4, s.ce(), t.ce()).first), t.off(call(4, s.ce(), t.ce()).second)), P(n1, n2), "next_intersection"); c.eq(P(s.off(call(5, s.ce(), t.ce()).first), t.off(call(5, s.ce(), t.ce()).second)), P(n1, n2), "next_difference"); }
	};
	pairs([&](V const& a, V const& b) { if (a.size() + b.size() > 60) return; T ta = tags(a, 0), tb = tags(b, 1000);
		auto l = [](Tag const& x, Tag const& y) { return x.key < y.key; }; auto g = [](Tag const& x, Tag const& y) { return y.key < x.key; };
		run(ta, tb, "default", l, 0); run(ta, tb, "less", l, 1);
		V da(a.rbegin(), a.rend()), db(b.rbegin(), b.rend()); run(tags(da, 0), tags(db, 1000), "desc", g, 2); });
}
#define ST(n, A, B) MON_TEST(steps_##n) { steps<A, B>(true); }
ST(in_in, TI, TI) ST(ra_ra, TR, TR) ST(fn_fn, TFN, TFN) ST(ptr_ptr, TP, TP) ST(ra_fw, TR, TF)
#endif

// merge and set operations: iterator output, fixed result, fit result
template<int Op> struct OpOf;
#define SETOP(i, name) template<> struct OpOf<i> { static char const* nm() { return #name; } \
	template<class... A> static auto spr(A const&... a) -> decltype(sprout::name(a...)) { return sprout::name(a...); } \
	template<class... A> static auto fix(A const&... a) -> decltype(sprout::fixed::name(a...)) { return sprout::fixed::name(a...); } \
	template<class R, class... A> static auto fixt(A const&... a) -> decltype(sprout::fixed::name<R>(a...)) { return sprout::fixed::name<R>(a...); } \
	template<class R, class... A> static auto sprt(A const&... a) -> decltype(sprout::name<R>(a...)) { return sprout::name<R>(a...); } \
	template<class... A> static auto fit(A const&... a) -> decltype(sprout::fit::name(a...)) { return sprout::fit::name(a...); } \
	template<class I, class J, class O, class C> static O std_(I a, I b, J c, J d, O o, C lt) { return std::name(a, b, c, d, o, lt); } };
SETOP(0, merge) SETOP(1, set_union) SETOP(2, set_intersection) SETOP(3, set_difference) SETOP(4, set_symmetric_difference)

template<int Op> T want(T const& a, T const& b, bool desc) { T w; if (desc) OpOf<Op>::std_(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w), KeyDesc(1)); else OpOf<Op>::std_(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(w), KeyLess(1)); return w; }

#if MON_PART(2)
template<int Op, class S, class S2, class O> void outop() {
	std::string tag = "<" + S::name() + "," + S2::name() + "->" + O::name() + ">";
	auto body = [&](T const& a, T const& b, bool desc) {
		T w = want<Op>(a, b, desc); S s(a); S2 t(b); KeyLess kl(1); KeyDesc kd(1); 
		for (int form = 0; form < (desc ? 1 : 2); ++form) { T filler(w.size() + 2, Tag(-7, -7)); O o(filler); auto ob = o.mat(1); // one guard element each side
			auto r = desc ? OpOf<Op>::spr(s.cb(), s.ce(), t.cb(), t.ce(), ob, kd) : form ? OpOf<Op>::spr(s.cb(), s.ce(), t.cb(), t.ce(), ob, kl) : OpOf<Op>::spr(s.cb(), s.ce(), t.cb(), t.ce(), ob);
			MON_CASE(c, OPN(std::string(OpOf<Op>::nm())), idsof(a), idsof(b), desc, form); c.eq(o.off(r), (std::ptrdiff_t)w.size() + 1, "returned end"); T g = o.buf.vec(), full(1, Tag(-7, -7)); full.insert(full.end(), w.begin(), w.end()); full.push_back(Tag(-7, -7)); c.eq(idsof(g), idsof(full), "output");
			c.eq(idsof(s.buf.vec()), idsof(a), "source unchanged"); }
	};
	pairs([&](V const& a, V const& b) { body(tags(a, 0), tags(b, 1000), false); V da(a.rbegin(), a.rend()), db(b.rbegin(), b.rend()); body(tags(da, 0), tags(db, 1000), true); });
}
#define OUTS(i, n) MON_TEST(out_##n##_ptr) { outop<i, TP, TP, TP>(); } MON_TEST(out_##n##_in) { outop<i, TI, TI, TF>(); } MON_TEST(out_##n##_ra) { outop<i, TR, TR, TR>(); } MON_TEST(out_##n##_mixed) { outop<i, TFN, TR, TP>(); }
OUTS(0, merge) OUTS(1, set_union) OUTS(2, set_intersection) OUTS(3, set_difference) OUTS(4, set_symmetric_difference)
#endif
#if MON_PART(3) || MON_PART(4) || MON_PART(5)
template<int Op, class S, std::size_t N, class A> void fitpart(T const&, T const&, bool, T const&, T const&, A const&, T const&, std::false_type) {}
template<int Op, class S, std::size_t N, class A> void fitpart(T const& a, T const& b, bool desc, T const& fitw, T const&, A const& res, T const& init, std::true_type) {
	S s(a), t(b); KeyLess kl(1); KeyDesc kd(1);
	MON_CASE(c, std::string("fit::") + OpOf<Op>::nm() + "<" + S::name() + ">", idsof(a), idsof(b), desc, (int)N);
	if (desc) { auto r = OpOf<Op>::fit(s.cb(), s.ce(), t.cb(), t.ce(), res, kd); c.eq(idsof(r), idsof(fitw), "desc"); }
	else { auto r = OpOf<Op>::fit(s.cb(), s.ce(), t.cb(), t.ce(), res); c.eq(idsof(r), idsof(fitw)); auto r2 = OpOf<Op>::fit(s.cb(), s.ce(), t.cb(), t.ce(), res, kl); c.eq(idsof(r2), idsof(fitw), "comp"); c.eq(r.size(), fitw.size(), "size"); }
	// a window of a larger array as the result container
	if (N >= 4) { std::size_t i = rng().below(3), j = N - rng().below(2); sprout::sub_array<A> win(res, (std::ptrdiff_t)i, (std::ptrdiff_t)j); std::size_t m = j - i;
		T w2(init.begin() + i, init.begin() + j); for (std::size_t k = 0; k < std::min(m, fitw.size()); ++k) w2[k] = fitw[k]; T f2(fitw.begin(), fitw.begin() + std::min(m, fitw.size()));
		MON_CASE(c2, std::string("sub_array ") + OpOf<Op>::nm() + "<" + S::name() + ">", idsof(a), idsof(b), desc, (int)i, (int)j);
		if (desc) { auto r = OpOf<Op>::fit(s.cb(), s.ce(), t.cb(), t.ce(), win, kd); c2.eq(idsof(r), idsof(f2), "fit desc"); auto q = OpOf<Op>::fix(s.cb(), s.ce(), t.cb(), t.ce(), win, kd); c2.eq(idsof(q), idsof(w2), "fixed desc"); }
		else { auto r = OpOf<Op>::fit(s.cb(), s.ce(), t.cb(), t.ce(), win); c2.eq(idsof(r), idsof(f2), "fit"); auto q = OpOf<Op>::fix(s.cb(), s.ce(), t.cb(), t.ce(), win); c2.eq(idsof(q), idsof(w2), "fixed"); } }
}
template<int Op, class S, std::size_t N> void fixop() {
	std::string tag = "<" + S::name() + ">"; typedef sprout::array<Tag, N> A;
	auto body = [&](T const& a, T const& b, bool desc) {
		T w = want<Op>(a, b, desc); S s(a), t(b); KeyLess kl(1); KeyDesc kd(1); T init; for (std::size_t i = 0; i < N; ++i) init.push_back(Tag(50 + (int)i, 5000 + (int)i)); A res = arr<Tag, N>(init);
		T full(init); for (std::size_t i = 0; i < std::min(N, w.size()); ++i) full[i] = w[i]; T zero(N); for (std::size_t i = 0; i < std::min(N, w.size()); ++i) zero[i] = w[i];
		T fitw(w.begin(), w.begin() + std::min(N, w.size()));
		MON_CASE(c, std::string("fixed::") + OpOf<Op>::nm() + tag, idsof(a), idsof(b), desc, (int)N);
		if (desc) { c.eq(idsof(OpOf<Op>::fix(s.cb(), s.ce(), t.cb(), t.ce(), res, kd)), idsof(full), "desc"); c.eq(idsof(OpOf<Op>::template fixt<A>(s.cb(), s.ce(), t.cb(), t.ce(), kd)), idsof(zero), "desc typed"); c.eq(idsof(OpOf<Op>::spr(s.cb(), s.ce(), t.cb(), t.ce(), res, kd)), idsof(full), "desc sprout::"); }
		else { c.eq(idsof(OpOf<Op>::fix(s.cb(), s.ce(), t.cb(), t.ce(), res)), idsof(full)); c.eq(idsof(OpOf<Op>::fix(s.cb(), s.ce(), t.cb(), t.ce(), res, kl)), idsof(full), "comp"); c.eq(idsof(OpOf<Op>::template fixt<A>(s.cb(), s.ce(), t.cb(), t.ce())), idsof(zero), "typed"); c.eq(idsof(OpOf<Op>::template sprt<A>(s.cb(), s.ce(), t.cb(), t.ce())), idsof(zero), "typed sprout::"); c.eq(idsof(OpOf<Op>::spr(s.cb(), s.ce(), t.cb(), t.ce(), res)), idsof(full), "sprout::"); }
		c.eq(idsof(s.buf.vec()), idsof(a), "source unchanged"); c.eq(idsof(res), idsof(init), "result argument unchanged");
		fitpart<Op, S, N>(a, b, desc, fitw, full, res, init, std::integral_constant<bool, !std::is_same<S, TI>::value>());
	};
	pairs([&](V const& a, V const& b) { if (a.size() > 12 || b.size() > 12) return; body(tags(a, 0), tags(b, 1000), false); V da(a.rbegin(), a.rend()), db(b.rbegin(), b.rend()); body(tags(da, 0), tags(db, 1000), true); });
}
#define FIXS(i, n) MON_TEST(fix_##n##_ptr) { fixop<i, TP, 8>(); } MON_TEST(fix_##n##_in) { fixop<i, TI, 6>(); } MON_TEST(fix_##n##_ra) { fixop<i, TR, 5>(); fixop<i, TR, 1>(); } MON_TEST(fix_##n##_fn) { fixop<i, TFN, 9>(); }
#if MON_PART(3)
FIXS(0, merge) FIXS(1, set_union)
#endif
#if MON_PART(4)
FIXS(2, set_intersection) FIXS(3, set_difference)
#endif
#if MON_PART(5)
FIXS(4, set_symmetric_difference)
template<class S> void inplace() {
	std::string tag = "<" + S::name() + ">";
	pairs([&](V const& a, V const& b) { for (int form = 0; form < 3; ++form) { bool desc = form == 2; V x(a), y(b); if (desc) { std::reverse(x.begin(), x.end()); std::reverse(y.begin(), y.end()); }
		T ta = tags(x, 0), tb = tags(y, 1000), all(ta); all.insert(all.end(), tb.begin(), tb.end()); T g(1, Tag(-7, -7)); g.insert(g.end(), all.begin(), all.end()); g.push_back(Tag(-7, -7)); S s(g); KeyLess kl(1); KeyDesc kd(1);
		auto f = s.mat(1), m = s.mat(1 + ta.size()), l = s.mat(1 + all.size()); if (form == 0) sprout::inplace_merge(f, m, l); else if (form == 1) sprout::inplace_merge(f, m, l, kl); else sprout::inplace_merge(f, m, l, kd);
		T w(all); if (desc) std::inplace_merge(w.begin(), w.begin() + ta.size(), w.end(), kd); else std::inplace_merge(w.begin(), w.begin() + ta.size(), w.end(), kl); T full(1, Tag(-7, -7)); full.insert(full.end(), w.begin(), w.end()); full.push_back(Tag(-7, -7));
		MON_CASE(c, OPN("inplace_merge"), idsof(ta), idsof(tb), form); c.eq(idsof(s.buf.vec()), idsof(full)); } });
}
MON_SRC_TESTS_BI(inplace, Tag)
template<std::size_t N> void fixed_inplace() { typedef sprout::array<Tag, N> A;
	for (std::uint64_t i = 0; i < reps(150); ++i) { std::size_t m = rng().below(N + 1); V v = rand_seq(N, 0, 4); bool desc = rng().coin(1, 3); KeyDesc kd(1); KeyLess kl(1);
		std::sort(v.begin(), v.begin() + m); std::sort(v.begin() + m, v.end()); if (desc) { std::reverse(v.begin(), v.begin() + m); std::reverse(v.begin() + m, v.end()); } T t = tags(v, 0); A a = arr<Tag, N>(t), keep = a; T w(t);
		if (desc) std::inplace_merge(w.begin(), w.begin() + m, w.end(), kd); else std::inplace_merge(w.begin(), w.begin() + m, w.end(), kl);
		MON_CASE(c, std::string("fixed::inplace_merge"), v, (int)m, desc);
		if (desc) { c.eq(idsof(sprout::fixed::inplace_merge(a, a.cbegin() + m, kd)), idsof(w), "desc"); c.eq(idsof(sprout::fit::inplace_merge(a, a.cbegin() + m, kd)), idsof(w), "fit desc"); }
		else { c.eq(idsof(sprout::fixed::inplace_merge(a, a.cbegin() + m)), idsof(w)); c.eq(idsof(sprout::fixed::inplace_merge(a, a.cbegin() + m, kl)), idsof(w), "comp"); c.eq(idsof(sprout::inplace_merge(a, a.cbegin() + m)), idsof(w), "sprout::"); c.eq(idsof(sprout::fit::inplace_merge(a, a.cbegin() + m)), idsof(w), "fit"); }
		c.eq(idsof(a), idsof(keep), "source unchanged"); } }
MON_TEST(fixed_inplace_merge) { fixed_inplace<1>(); fixed_inplace<2>(); fixed_inplace<7>(); fixed_inplace<12>(); }
#endif
#endif
