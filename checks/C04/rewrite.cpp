#include <src.hpp>
#include <spr.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/functional.hpp>
using namespace mon;
typedef std::vector<int> V; typedef std::vector<Tag> T; typedef std::vector<std::pair<int, int> > P;
#define OPN(n) (n + tag)
// element that can only be moved; a moved-from element has key -999, a self-moved one loses its value as std::string does
struct Mv { int key, id; Mv(int k, int i) : key(k), id(i) {} explicit Mv(Tag const& t) : key(t.key), id(t.id) {} Mv(Mv&& o) : key(o.key), id(o.id) { o.key = -999; } Mv& operator=(Mv&& o) { int k = o.key, i = o.id; o.key = -999; if (this != &o) { key = k; id = i; } return *this; }
	Mv(Mv const& o) = delete; Mv& operator=(Mv const&) = delete; void chk() const { if (key == -999) mon::fail("a moved-from element was inspected"); }
	friend bool operator==(Mv const& a, Mv const& b) { a.chk(); b.chk(); return a.key == b.key; } friend bool operator!=(Mv const& a, Mv const& b) { return !(a == b); } friend bool operator<(Mv const& a, Mv const& b) { a.chk(); b.chk(); return a.key < b.key; } };
inline T snap(Buf<Tag> const& b) { return b.vec(); }
inline T snap(Buf<Mv> const& b) { T r; for (std::size_t i = 0; i < b.n; ++i) r.push_back(Tag(b.p[i].key, b.p[i].id)); return r; }
template<class E> struct EN { static char const* nm() { return "tag"; } }; template<> struct EN<Mv> { static char const* nm() { return "move-only"; } };
// functors that log their calls
struct Log { std::vector<int> ids; };
struct KGeq { int k; Log* l; template<class E> bool operator()(E const& e) const { l->ids.push_back(e.id); return e.key >= k; } };
struct KMod { int m; Log* l; template<class A, class B> bool operator()(A const& a, B const& b) const { l->ids.push_back(b.id); return a.key % m == b.key % m; } };
struct KDesc { int pad; explicit KDesc(int) : pad(0) {} bool operator()(Tag const& a, Tag const& b) const { return b.key < a.key; } };
struct Bump { int d; Log* l; Tag operator()(Tag const& t) const { l->ids.push_back(t.id); return Tag(t.key + d, t.id + 50000); } };
struct Comb { int d; Log* l; Tag operator()(Tag const& t, Tag const& u) const { l->ids.push_back(t.id); l->ids.push_back(u.id); return Tag(t.key * 31 + u.key + d, t.id * 7 - u.id); } };
struct Gen { int n; int* calls; Tag operator()() { ++*calls; ++n; return Tag(n * 3, n); } };
struct Visit { int sum; Log* l; template<class E> void operator()(E& e) { l->ids.push_back(e.id); sum += e.key; e.key += 100; } };
struct Vis { int sum; Log* l; template<class E> void operator()(E const& e) { l->ids.push_back(e.id); sum += e.key; } };
template<class E> T guard(T t) { t.insert(t.begin(), Tag(-7, -7)); t.push_back(Tag(-8, -8)); return t; }
inline P cut(T const& t, std::size_t a, std::size_t b) { return idsof(T(t.begin() + a, t.begin() + b)); }
// in-place check: want = expected elements of the first part of [1,n+1), everything outside [1,n+1) unchanged
template<class C, class B> void inplace(C& c, B const& buf, T const& g, T const& want, std::size_t off = 1, std::size_t len = 0) { T r = snap(buf); c.eq(cut(r, off, off + want.size()), idsof(want), "elements"); if (!len) len = g.size() - 2; (void)len; c.ok(r.front().id == -7 && r.front().key == -7 && r.back().id == -8 && r.back().key == -8, "nothing written outside the range"); }
template<class S> struct DstName { static std::string nm() { return S::name(); } };
typedef std::output_iterator_tag Ot;
struct OutS : Rg<Ot, Tag> { template<class C> explicit OutS(C const& c) : Rg<Ot, Tag>(c) {} static std::string name() { return "out"; } };
inline T dst(std::size_t n) { T t(n + 2, Tag(777, 7777)); t.front() = Tag(-7, -7); t.back() = Tag(-8, -8); return t; }
// destination check: exactly want written at 1.., returned iterator behind it, rest untouched
template<class C, class D, class I> void outp(C& c, D const& d, I const& r, T const& want) { c.eq(d.off(r), (std::ptrdiff_t)want.size() + 1, "returned iterator"); T v = snap(d.buf); T w = dst(v.size() - 2); std::copy(want.begin(), want.end(), w.begin() + 1); c.eq(idsof(v), idsof(w), "destination"); }
template<class C, class B> void unchanged(C& c, B const& buf, T const& g) { c.eq(idsof(snap(buf)), idsof(g), "source unchanged"); }
template<class F> void inputs(F f, int nmax, std::uint64_t n, std::size_t mx) { workload(nmax, 3, reps(n), mx, f); }

#if MON_PART(0) || MON_PART(1)
template<class S, class D> void copies() {
	std::string tag = "<" + S::name() + "->" + D::name() + ">";
	inputs([&](V const& v) {
		T t = tags(v, 0); std::size_t n = v.size(); int k = (int)rng().range(0, 3), m = (int)rng().range(1, 4); Log l, lw; T w; KGeq pred = {k, &l}, predw = {k, &lw}; T g = guard<Tag>(t);
		S s(g); auto b = s.cat(1), e = s.cat(n + 1); std::size_t room = n + rng().below(3);
#if MON_PART(0)
		{ D d(dst(room)); auto r = sprout::copy(b, e, d.mat(1)); MON_CASE(c, OPN("copy"), v); outp(c, d, r, t); unchanged(c, s.buf, g); }
		{ D d(dst(room)); auto r = sprout::move(b, e, d.mat(1)); MON_CASE(c, OPN("move"), v); outp(c, d, r, t); }
		{ std::size_t q = rng().below(n + 1); D d(dst(room)); T x(t.begin(), t.begin() + q); MON_CASE(c, OPN("copy_n"), v, (int)q);
		  switch (rng().below(3)) { case 0: outp(c, d, sprout::copy_n(b, (int)q, d.mat(1)), x); break; case 1: outp(c, d, sprout::copy_n(b, q, d.mat(1)), x); break; default: outp(c, d, sprout::copy_n(b, (unsigned char)q, d.mat(1)), x); } }
		{ D d(dst(room)); auto r = sprout::copy_n(b, -(int)rng().below(3), d.mat(1)); MON_CASE(c, OPN("copy_n none"), v); outp(c, d, r, T()); }
		{ l.ids.clear(); lw.ids.clear(); w.clear(); std::copy_if(t.begin(), t.end(), std::back_inserter(w), predw); D d(dst(room)); auto r = sprout::copy_if(b, e, d.mat(1), pred); MON_CASE(c, OPN("copy_if"), v, k); outp(c, d, r, w); c.eq(l.ids, lw.ids, "predicate calls"); }
		for (int until = 0; until < 2; ++until) { l.ids.clear(); w.clear(); std::size_t q = 0; while (q < n && (t[q].key >= k) == !until) w.push_back(t[q++]); V calls; for (std::size_t i = 0; i < std::min(n, q + 1); ++i) calls.push_back((int)i); D d(dst(room));
		  auto r = until ? sprout::copy_until(b, e, d.mat(1), pred) : sprout::copy_while(b, e, d.mat(1), pred); MON_CASE(c, OPN(std::string(until ? "copy_until" : "copy_while")), v, k); outp(c, d, r.second, w); c.eq(s.off(r.first), (std::ptrdiff_t)q + 1, "returned source iterator"); c.eq(l.ids, calls, "predicate calls"); }
		{ w.clear(); std::remove_copy(t.begin(), t.end(), std::back_inserter(w), Tag(k)); D d(dst(room)); auto r = sprout::remove_copy(b, e, d.mat(1), Tag(k)); MON_CASE(c, OPN("remove_copy"), v, k); outp(c, d, r, w); }
		{ l.ids.clear(); lw.ids.clear(); w.clear(); std::remove_copy_if(t.begin(), t.end(), std::back_inserter(w), predw); D d(dst(room)); auto r = sprout::remove_copy_if(b, e, d.mat(1), pred); MON_CASE(c, OPN("remove_copy_if"), v, k); outp(c, d, r, w); c.eq(l.ids, lw.ids, "predicate calls"); }
		{ w.clear(); std::replace_copy(t.begin(), t.end(), std::back_inserter(w), Tag(k), Tag(88, 99)); D d(dst(room)); auto r = sprout::replace_copy(b, e, d.mat(1), Tag(k), Tag(88, 99)); MON_CASE(c, OPN("replace_copy"), v, k); outp(c, d, r, w); }
		{ l.ids.clear(); lw.ids.clear(); w.clear(); std::replace_copy_if(t.begin(), t.end(), std::back_inserter(w), predw, Tag(88, 99)); D d(dst(room)); auto r = sprout::replace_copy_if(b, e, d.mat(1), pred, Tag(88, 99)); MON_CASE(c, OPN("replace_copy_if"), v, k); outp(c, d, r, w); c.eq(l.ids, lw.ids, "predicate calls"); }
#endif
#if MON_PART(1)
		{ w.clear(); std::unique_copy(t.begin(), t.end(), std::back_inserter(w)); D d(dst(room)); auto r = sprout::unique_copy(b, e, d.mat(1)); MON_CASE(c, OPN("unique_copy"), v); outp(c, d, r, w); }
		{ KMod q = {m, &l}, qw = {m, &lw}; l.ids.clear(); lw.ids.clear(); w.clear(); std::unique_copy(t.begin(), t.end(), std::back_inserter(w), qw); D d(dst(room)); auto r = sprout::unique_copy(b, e, d.mat(1), q); MON_CASE(c, OPN("unique_copy pred"), v, m); outp(c, d, r, w); c.eq(l.ids.size(), n ? n - 1 : 0, "number of predicate calls"); }
		{ Bump f = {k, &l}, fw = {k, &lw}; l.ids.clear(); lw.ids.clear(); w.clear(); std::transform(t.begin(), t.end(), std::back_inserter(w), fw); D d(dst(room)); auto r = sprout::transform(b, e, d.mat(1), f); MON_CASE(c, OPN("transform"), v, k); outp(c, d, r, w); c.eq(l.ids, lw.ids, "calls"); }
		{ Comb f = {k, &l}, fw = {k, &lw}; T u = tags(rand_seq(n, 0, 50), 3000); S s2(guard<Tag>(u)); l.ids.clear(); lw.ids.clear(); w.clear(); std::transform(t.begin(), t.end(), u.begin(), std::back_inserter(w), fw); D d(dst(room)); auto r = sprout::transform(b, e, s2.cat(1), d.mat(1), f); MON_CASE(c, OPN("transform binary"), v, k); outp(c, d, r, w); c.eq(l.ids, lw.ids, "calls"); }
		{ int lo = (int)rng().range(0, 3), hi = lo + (int)rng().below(4); w.clear(); for (auto const& x : t) w.push_back(x.key < lo ? Tag(lo, -1) : hi < x.key ? Tag(hi, -2) : x); D d(dst(room)); auto r = sprout::clamp_range(b, e, d.mat(1), Tag(lo, -1), Tag(hi, -2)); MON_CASE(c, OPN("clamp_range"), v, lo, hi); outp(c, d, r, w);
		  w.clear(); for (auto const& x : t) w.push_back(x.key > hi ? Tag(hi, -1) : lo > x.key ? Tag(lo, -2) : x); D d2(dst(room)); auto r2 = sprout::clamp_range(b, e, d2.mat(1), Tag(hi, -1), Tag(lo, -2), KDesc(1)); MON_CASE(c2, OPN("clamp_range comp"), v, lo, hi); outp(c2, d2, r2, w); }
		{ int q = (int)rng().below(room + 1); D d(dst(room)); auto r = sprout::fill_n(d.mat(1), q, Tag(k, 5)); MON_CASE(c, OPN("fill_n"), (int)room, q); outp(c, d, r, T(q, Tag(k, 5))); D d2(dst(room)); auto r2 = sprout::fill_n(d2.mat(1), -(int)rng().below(3), Tag(k, 5)); outp(c, d2, r2, T()); D d3(dst(room)); auto r3 = sprout::fill_n(d3.mat(1), (unsigned char)q, Tag(k, 5)); outp(c, d3, r3, T(q, Tag(k, 5))); }
		{ int q = (int)rng().below(room + 1), calls = 0, callsw = 0; Gen ge = {k, &calls}, gw = {k, &callsw}; w.clear(); std::generate_n(std::back_inserter(w), q, gw); D d(dst(room)); auto r = sprout::generate_n(d.mat(1), q, ge); MON_CASE(c, OPN("generate_n"), (int)room, q); outp(c, d, r, w); c.eq(calls, q, "number of calls"); D d2(dst(room)); calls = 0; auto r2 = sprout::generate_n(d2.mat(1), -(int)rng().below(3), ge); outp(c, d2, r2, T()); c.eq(calls, 0, "number of calls"); D d3(dst(room)); auto r3 = sprout::generate_n(d3.mat(1), std::size_t(q), ge); outp(c, d3, r3, w); }
		{ Vis f = {3, &l}; l.ids.clear(); V all, some; int sum = 3; for (std::size_t i = 0; i < n; ++i) { all.push_back((int)i); sum += t[i].key; } auto r = sprout::for_each(b, e, f); MON_CASE(c, OPN("for_each"), v); c.eq(l.ids, all, "calls in order"); c.eq(r.sum, sum, "returned function"); std::size_t q = rng().below(n + 1); l.ids.clear(); auto r2 = sprout::for_each_n(b, q, f); MON_CASE(c2, OPN("for_each_n"), v, (int)q); c2.eq(s.off(r2), (std::ptrdiff_t)q + 1, "returned iterator"); c2.eq(l.ids, V(all.begin(), all.begin() + q), "calls in order"); l.ids.clear(); auto r3 = sprout::for_each_n(b, -(int)rng().below(2), f); c2.eq(s.off(r3), 1, "returned iterator"); c2.ok(l.ids.empty(), "no calls"); }
#endif
	}, 5, 150, 120);
}
#define CP(NAME, S, D) MON_TEST(copies_##NAME) { copies<S, D>(); }
typedef Src<In, Tag> Sin; typedef Src<In, Tag, NonLit> SinN; typedef Src<Fw, Tag> Sfw; typedef Src<Ra, Tag> Sra; typedef Src<Ra, Tag, NonLit> SraN; typedef Ptr<Tag> Sp; typedef Src<Bi, Tag> Sbi;
CP(in_out, Sin, OutS) CP(innl_fw, SinN, Sfw) CP(fw_out, Sfw, OutS) CP(ra_ra, Sra, Sra) CP(ranl_ptr, SraN, Sp) CP(ptr_ptr, Sp, Sp) CP(ptr_out, Sp, OutS)
#endif

#if MON_PART(2)
template<class S, class E> void inpl_fw() {
	std::string tag = "<" + S::name() + "," + EN<E>::nm() + ">";
	inputs([&](V const& v) {
		T t = tags(v, 0), g = guard<E>(t); std::size_t n = v.size(); int k = (int)rng().range(0, 3), m = (int)rng().range(1, 4); Log l, lw; KGeq pred = {k, &l}, predw = {k, &lw};
		auto ids_of_all = [&] { V a; for (std::size_t i = 0; i < n; ++i) a.push_back((int)i); return a; };
		{ S s(g); T w(t); w.erase(std::remove_if(w.begin(), w.end(), predw), w.end()); auto r = sprout::remove_if(s.mat(1), s.mat(n + 1), pred); MON_CASE(c, OPN("remove_if"), v, k); c.eq(s.off(r), (std::ptrdiff_t)w.size() + 1, "returned iterator"); inplace(c, s.buf, g, w); c.eq(l.ids, ids_of_all(), "predicate calls"); }
		{ S s(g); T w(t); w.erase(std::remove(w.begin(), w.end(), Tag(k)), w.end()); auto r = sprout::remove(s.mat(1), s.mat(n + 1), E(Tag(k, 0))); MON_CASE(c, OPN("remove"), v, k); c.eq(s.off(r), (std::ptrdiff_t)w.size() + 1, "returned iterator"); inplace(c, s.buf, g, w); }
		{ S s(g); T w(t); w.erase(std::unique(w.begin(), w.end()), w.end()); auto r = sprout::unique(s.mat(1), s.mat(n + 1)); MON_CASE(c, OPN("unique"), v); c.eq(s.off(r), (std::ptrdiff_t)w.size() + 1, "returned iterator"); inplace(c, s.buf, g, w); }
		{ S s(g); T w(t); KMod q = {m, &l}, qw = {m, &lw}; l.ids.clear(); w.erase(std::unique(w.begin(), w.end(), qw), w.end()); auto r = sprout::unique(s.mat(1), s.mat(n + 1), q); MON_CASE(c, OPN("unique pred"), v, m); c.eq(s.off(r), (std::ptrdiff_t)w.size() + 1, "returned iterator"); inplace(c, s.buf, g, w); c.eq(l.ids.size(), n ? n - 1 : 0, "number of predicate calls"); }
		for (std::size_t q = 0; q <= n; q += n > 12 ? 1 + rng().below(n) : 1) { S s(g); T w(t); auto x = std::rotate(w.begin(), w.begin() + q, w.end()); auto r = sprout::rotate(s.mat(1), s.mat(1 + q), s.mat(n + 1)); MON_CASE(c, OPN("rotate"), v, (int)q); c.eq(s.off(r), x - w.begin() + 1, "returned iterator"); inplace(c, s.buf, g, w); }
		{ T u = tags(rand_seq(n + rng().below(2), 0, 50), 3000), gu = guard<E>(u); S s(g), s2(gu); T w(t), x(u); std::swap_ranges(w.begin(), w.end(), x.begin()); auto r = sprout::swap_ranges(s.mat(1), s.mat(n + 1), s2.mat(1)); MON_CASE(c, OPN("swap_ranges"), v); c.eq(s2.off(r), (std::ptrdiff_t)n + 1, "returned iterator"); inplace(c, s.buf, g, w); inplace(c, s2.buf, gu, x); }
		if (n) { S s(g); T w(t); std::size_t i = rng().below(n), j = rng().below(n); if (i != j) { std::swap(w[i], w[j]); sprout::iter_swap(s.mat(1 + i), s.mat(1 + j)); MON_CASE(c, OPN("iter_swap"), v, (int)i, (int)j); inplace(c, s.buf, g, w); } }
		{ Visit f = {3, &l}; l.ids.clear(); S s(g); T w(t); for (auto& x : w) x.key += 100; auto r = sprout::for_each(s.mat(1), s.mat(n + 1), f); MON_CASE(c, OPN("for_each mutating"), v); c.eq(l.ids, ids_of_all(), "calls in order"); (void)r; inplace(c, s.buf, g, w); }
		{ Visit f = {3, &l}; std::size_t q = rng().below(n + 1); S s(g); T w(t); for (std::size_t i = 0; i < q; ++i) w[i].key += 100; sprout::for_each_n(s.mat(1), (int)q, f); MON_CASE(c, OPN("for_each_n mutating"), v, (int)q); inplace(c, s.buf, g, w); }
		{ std::size_t a = rng().below(n + 1), b = rng().range(a, n), o = rng().below(a + 1); S s(g); T w(t); std::move(w.begin() + a, w.begin() + b, w.begin() + o); auto r = o == a ? s.mat(1 + b) : sprout::move(s.mat(1 + a), s.mat(1 + b), s.mat(1 + o)); MON_CASE(c, OPN("move overlapping"), v, (int)a, (int)b, (int)o); c.eq(s.off(r), (std::ptrdiff_t)(o + (b - a)) + 1, "returned iterator"); inplace(c, s.buf, g, T(w.begin(), w.begin() + o + (b - a))); }
	}, 5, 150, 120);
}
#define T2(NAME, ...) MON_TEST(inpl_fw_##NAME##_tag) { typedef Tag E; inpl_fw<__VA_ARGS__, E>(); } MON_TEST(inpl_fw_##NAME##_mv) { typedef Mv E; inpl_fw<__VA_ARGS__, E>(); }
T2(fw, Src<Fw, E>) T2(fwnl, Src<Fw, E, NonLit>) T2(bi, Src<Bi, E>) T2(ra, Src<Ra, E>) T2(ptr, Ptr<E>)
#endif

#if MON_PART(3)
template<class S, class E> void inpl_bi() {
	std::string tag = "<" + S::name() + "," + EN<E>::nm() + ">";
	inputs([&](V const& v) {
		T t = tags(v, 0), g = guard<E>(t); std::size_t n = v.size(); int k = (int)rng().range(0, 3); Log l, lw; KGeq pred = {k, &l}, predw = {k, &lw};
		{ S s(g); T w(t); std::reverse(w.begin(), w.end()); sprout::reverse(s.mat(1), s.mat(n + 1)); MON_CASE(c, OPN("reverse"), v); inplace(c, s.buf, g, w); }
		for (std::size_t q = 0; q <= n; q += n > 12 ? 1 + rng().below(n) : 1) { l.ids.clear(); S s(g); T w(t); auto a = std::stable_partition(w.begin(), w.begin() + q, [&](Tag const& x) { return x.key < k; }); auto b = std::stable_partition(w.begin() + q, w.end(), predw); auto r = sprout::gather(s.mat(1), s.mat(n + 1), s.mat(1 + q), pred); MON_CASE(c, OPN("gather"), v, k, (int)q); c.eq(s.off(r.first), a - w.begin() + 1, "gathered begin"); c.eq(s.off(r.second), b - w.begin() + 1, "gathered end"); inplace(c, s.buf, g, w); std::sort(l.ids.begin(), l.ids.end()); bool once = l.ids.size() == n; for (std::size_t i = 0; once && i < n; ++i) once = l.ids[i] == (int)i; c.ok(once, "predicate applied once to each element"); }
		{ std::size_t a = rng().below(n + 1), b = rng().range(a, n), o = rng().range(b, n); if (o > b) { S s(g); T w(t); std::move_backward(w.begin() + a, w.begin() + b, w.begin() + o); auto r = sprout::move_backward(s.mat(1 + a), s.mat(1 + b), s.mat(1 + o)); MON_CASE(c, OPN("move_backward overlapping"), v, (int)a, (int)b, (int)o); std::size_t f = o - (b - a); c.eq(s.off(r), (std::ptrdiff_t)f + 1, "returned iterator"); inplace(c, s.buf, g, T(w.begin() + f, w.begin() + o), 1 + f); T now = snap(s.buf); c.eq(cut(now, 1, 1 + a), cut(g, 1, 1 + a), "in front"); c.eq(cut(now, 1 + o, 1 + n), cut(g, 1 + o, 1 + n), "behind"); } }
		{ S s(g); S d(dst(n + 1)); auto r = sprout::move_backward(s.mat(1), s.mat(n + 1), d.mat(n + 2)); MON_CASE(c, OPN("move_backward"), v); c.eq(d.off(r), 2, "returned iterator"); T x = snap(d.buf); c.eq(cut(x, 2, n + 2), idsof(t), "elements"); c.ok(x[1].id == 7777 && x[0].id == -7 && x[n + 2].id == -8, "rest"); }
	}, 5, 150, 120);
}
template<class S> void inpl_tag() {
	std::string tag = "<" + S::name() + ">";
	inputs([&](V const& v) {
		T t = tags(v, 0), g = guard<Tag>(t); std::size_t n = v.size(); int k = (int)rng().range(0, 3); Log l, lw; KGeq pred = {k, &l}, predw = {k, &lw};
		{ S s(g); T w(n, Tag(k, 4)); sprout::fill(s.mat(1), s.mat(n + 1), Tag(k, 4)); MON_CASE(c, OPN("fill"), v, k); inplace(c, s.buf, g, w); }
		{ S s(g); T w(t); int ca = 0, cw = 0; Gen a = {k, &ca}, b = {k, &cw}; std::generate(w.begin(), w.end(), b); sprout::generate(s.mat(1), s.mat(n + 1), a); MON_CASE(c, OPN("generate"), v, k); inplace(c, s.buf, g, w); c.eq(ca, (int)n, "number of calls"); }
		{ S s(g); T w(t); std::replace(w.begin(), w.end(), Tag(k), Tag(88, 99)); sprout::replace(s.mat(1), s.mat(n + 1), Tag(k), Tag(88, 99)); MON_CASE(c, OPN("replace"), v, k); inplace(c, s.buf, g, w); }
		{ S s(g); T w(t); std::replace_if(w.begin(), w.end(), predw, Tag(88, 99)); sprout::replace_if(s.mat(1), s.mat(n + 1), pred, Tag(88, 99)); MON_CASE(c, OPN("replace_if"), v, k); inplace(c, s.buf, g, w); c.eq(l.ids, lw.ids, "predicate calls"); }
		{ S s(g); T w(t); l.ids.clear(); lw.ids.clear(); Bump f = {k, &l}, fw = {k, &lw}; std::transform(w.begin(), w.end(), w.begin(), fw); auto r = sprout::transform(s.mat(1), s.mat(n + 1), s.mat(1), f); MON_CASE(c, OPN("transform in place"), v, k); c.eq(s.off(r), (std::ptrdiff_t)n + 1, "returned iterator"); inplace(c, s.buf, g, w); }
		{ std::size_t a = rng().below(n + 1), b = rng().range(a, n), o = rng().below(a + 1); S s(g); T w(t); if (o < a) { std::copy(w.begin() + a, w.begin() + b, w.begin() + o); auto r = sprout::copy(s.mat(1 + a), s.mat(1 + b), s.mat(1 + o)); MON_CASE(c, OPN("copy overlapping"), v, (int)a, (int)b, (int)o); c.eq(s.off(r), (std::ptrdiff_t)(o + (b - a)) + 1, "returned iterator"); inplace(c, s.buf, g, w); } }
		{ std::size_t q = rng().below(n + 1); S s(g); T w; std::rotate_copy(t.begin(), t.begin() + q, t.end(), std::back_inserter(w)); S d(dst(n + 1)); auto r = sprout::rotate_copy(s.cat(1), s.cat(1 + q), s.cat(n + 1), d.mat(1)); MON_CASE(c, OPN("rotate_copy"), v, (int)q); outp(c, d, r, w); unchanged(c, s.buf, g); OutS d2(dst(n)); auto r2 = sprout::rotate_copy(s.cat(1), s.cat(1 + q), s.cat(n + 1), d2.mat(1)); outp(c, d2, r2, w); }
		{ S s(g); l.ids.clear(); T w(t); std::remove_if(w.begin(), w.end(), predw); (void)w; }
	}, 5, 150, 120);
}
template<class S> void inpl_tag_bi() {
	std::string tag = "<" + S::name() + ">";
	inputs([&](V const& v) {
		T t = tags(v, 0), g = guard<Tag>(t); std::size_t n = v.size();
		{ S s(g); T w(t.rbegin(), t.rend()); S d(dst(n + 1)); auto r = sprout::reverse_copy(s.cat(1), s.cat(n + 1), d.mat(1)); MON_CASE(c, OPN("reverse_copy"), v); outp(c, d, r, w); unchanged(c, s.buf, g); OutS d2(dst(n)); outp(c, d2, sprout::reverse_copy(s.cat(1), s.cat(n + 1), d2.mat(1)), w); }
		{ S s(g); S d(dst(n + 1)); auto r = sprout::copy_backward(s.cat(1), s.cat(n + 1), d.mat(n + 2)); MON_CASE(c, OPN("copy_backward"), v); c.eq(d.off(r), 2, "returned iterator"); T x = snap(d.buf); c.eq(cut(x, 2, n + 2), idsof(t), "elements"); c.ok(x[1].id == 7777 && x[0].id == -7 && x[n + 2].id == -8, "rest"); unchanged(c, s.buf, g); }
		{ std::size_t a = rng().below(n + 1), b = rng().range(a, n), o = rng().range(b, n); if (o > b) { S s(g); T w(t); std::copy_backward(w.begin() + a, w.begin() + b, w.begin() + o); auto r = sprout::copy_backward(s.mat(1 + a), s.mat(1 + b), s.mat(1 + o)); MON_CASE(c, OPN("copy_backward overlapping"), v, (int)a, (int)b, (int)o); c.eq(s.off(r), (std::ptrdiff_t)(o - (b - a)) + 1, "returned iterator"); inplace(c, s.buf, g, w); } }
	}, 5, 150, 120);
}
#define T3(NAME, ...) MON_TEST(inpl_bi_##NAME##_tag) { typedef Tag E; inpl_bi<__VA_ARGS__, E>(); } MON_TEST(inpl_bi_##NAME##_mv) { typedef Mv E; inpl_bi<__VA_ARGS__, E>(); } MON_TEST(inpl_tag_bi_##NAME) { typedef Tag E; inpl_tag_bi<__VA_ARGS__ >(); }
T3(bi, Src<Bi, E>) T3(ra, Src<Ra, E>) T3(ptr, Ptr<E>)
#define T4(NAME, ...) MON_TEST(inpl_tag_##NAME) { typedef Tag E; inpl_tag<__VA_ARGS__ >(); }
T4(fw, Src<Fw, E>) T4(fwnl, Src<Fw, E, NonLit>) T4(bi, Src<Bi, E>) T4(ra, Src<Ra, E>) T4(ptr, Ptr<E>)
#endif
