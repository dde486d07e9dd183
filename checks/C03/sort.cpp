#define MON_FINE_TAG
#include <src.hpp>
#include <spr.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/algorithm/fixed/make_partial_heap.hpp>
#include <sprout/functional.hpp>
using namespace mon;
typedef std::vector<int> V; typedef std::vector<Tag> T;
#define OPN(n) (n + tag)
struct NTag : Tag { NTag(int k = 0, int i = 0) : Tag(k, i), self(this) {} NTag(Tag const& t) : Tag(t), self(this) {} NTag(NTag const& o) : Tag(o), self(this) { o.chk(); } NTag& operator=(NTag const& o) { o.chk(); chk(); key = o.key; id = o.id; return *this; } ~NTag() { self = 0; }
	void chk() const { if (self != this) mon::fail("use of a dead or bitwise-copied element"); } NTag const* self; };
template<class E> struct EN { static char const* nm() { return "int-like"; } }; template<> struct EN<NTag> { static char const* nm() { return "non-trivial"; } };
struct KeyLess { int pad; explicit KeyLess(int) : pad(0) {} bool operator()(Tag const& a, Tag const& b) const { return a.key < b.key; } };
struct KeyDesc { int pad; explicit KeyDesc(int) : pad(0) {} bool operator()(Tag const& a, Tag const& b) const { return b.key < a.key; } };
template<class C> std::vector<std::pair<int, int> > multi(C const& c) { auto r = idsof(c); std::sort(r.begin(), r.end()); return r; }
// int patterns that drive quicksort/heap code into its branches
inline V pattern(std::size_t n) {
	V v(n); int m = (int)rng().below(9);
	for (std::size_t i = 0; i < n; ++i) switch (m) { case 0: v[i] = (int)i; break; case 1: v[i] = (int)(n - i); break; case 2: v[i] = 7; break; case 3: v[i] = (int)std::min(i, n - i); break; case 4: v[i] = (int)(i % 7); break; case 5: v[i] = (int)rng().below(2); break; case 6: v[i] = (int)rng().below(10); break; case 7: v[i] = (int)rng().below(100000); break; default: v[i] = (int)std::max(i, n - i); }
	if (n > 1 && rng().coin(1, 3)) for (int k = (int)rng().range(1, 3); k; --k) std::swap(v[rng().below(n)], v[rng().below(n)]);
	if (n && rng().coin(1, 5)) v[rng().below(n)] = -1; if (n && rng().coin(1, 5)) v.back() = v[rng().below(n)];
	return v;
}
template<class F> void inputs(F f, int nmax, std::uint64_t n, std::size_t mx) { for (int k = 0; k <= nmax; ++k) all_seqs(k, 3, f); for (std::uint64_t i = 0; i < reps(n); ++i) f(pattern(rand_len(mx))); }
template<class E> std::vector<E> guarded(T const& t) { std::vector<E> g(1, E(Tag(-7, -7))); for (auto const& x : t) g.push_back(E(x)); g.push_back(E(Tag(-8, -8))); return g; }
// checks a rearrangement of [1, n+1) in a guarded buffer
template<class C, class S> T inner(C& c, S const& s, T const& orig) {
	auto v = s.buf.vec(); c.ok(v.front().id == -7 && v.back().id == -8, "elements outside the range untouched"); T r; for (std::size_t i = 1; i + 1 < v.size(); ++i) r.push_back(Tag(v[i].key, v[i].id)); c.eq(multi(r), multi(orig), "multiset of elements"); return r;
}
template<class Cmp> bool sorted(T const& t, Cmp c) { return std::is_sorted(t.begin(), t.end(), c); }

#if MON_PART(0)
template<class S, class E> void sorts() {
	std::string tag = "<" + S::name() + "," + EN<E>::nm() + ">"; KeyLess kl(1); KeyDesc kd(1);
	auto body = [&](V const& v) {
		T t = tags(v, 0); auto g = guarded<E>(t); std::size_t n = v.size();
		for (int form = 0; form < 3; ++form) {
			bool desc = form == 2; auto srt = [&](T const& r) { return desc ? sorted(r, kd) : sorted(r, kl); };
			{ S s(g); auto b = s.mat(1), e = s.mat(n + 1); if (form == 0) sprout::sort(b, e); else if (form == 1) sprout::sort(b, e, kl); else sprout::sort(b, e, kd); MON_CASE(c, OPN("sort"), v, form); c.ok(srt(inner(c, s, t)), "sorted"); }
			{ S s(g); auto b = s.mat(1), e = s.mat(n + 1); if (form == 0) sprout::stable_sort(b, e); else if (form == 1) sprout::stable_sort(b, e, kl); else sprout::stable_sort(b, e, kd); MON_CASE(c, OPN("stable_sort"), v, form); T w(t); if (desc) std::stable_sort(w.begin(), w.end(), kd); else std::stable_sort(w.begin(), w.end(), kl); c.eq(idsof(inner(c, s, t)), idsof(w)); }
			T w(t); if (desc) std::stable_sort(w.begin(), w.end(), kd); else std::stable_sort(w.begin(), w.end(), kl);
			std::size_t k = rng().below(n + 1);
			{ S s(g); auto b = s.mat(1), m = s.mat(1 + k), e = s.mat(n + 1); if (form == 0) sprout::partial_sort(b, m, e); else if (form == 1) sprout::partial_sort(b, m, e, kl); else sprout::partial_sort(b, m, e, kd); MON_CASE(c, OPN("partial_sort"), v, (int)k, form); T r = inner(c, s, t); bool ok = true; for (std::size_t i = 0; i < k; ++i) ok = ok && r[i].key == w[i].key; c.ok(ok, "sorted prefix"); }
			{ S s(g); auto b = s.mat(1), m = s.mat(1 + k), e = s.mat(n + 1); if (form == 0) sprout::nth_element(b, m, e); else if (form == 1) sprout::nth_element(b, m, e, kl); else sprout::nth_element(b, m, e, kd); MON_CASE(c, OPN("nth_element"), v, (int)k, form); T r = inner(c, s, t);
			  if (k < n) { bool ok = r[k].key == w[k].key; for (std::size_t i = 0; i < n; ++i) { Tag const& x = i < k ? r[k] : r[i]; Tag const& y = i < k ? r[i] : r[k]; if (desc ? kd(x, y) : kl(x, y)) ok = false; } c.ok(ok, "nth element in place, rest partitioned"); } }
			{ std::size_t m = rng().below(n + 3); S s(g); std::vector<E> o; o.push_back(E(Tag(-7, -7))); for (std::size_t i = 0; i < m; ++i) o.push_back(E(Tag(900, 9000))); o.push_back(E(Tag(-8, -8))); S d(o); auto b = s.mat(1), e = s.mat(n + 1); auto rb = d.mat(1), re = d.mat(1 + m);
			  auto r = form == 0 ? sprout::partial_sort_copy(b, e, rb, re) : form == 1 ? sprout::partial_sort_copy(b, e, rb, re, kl) : sprout::partial_sort_copy(b, e, rb, re, kd);
			  MON_CASE(c, OPN("partial_sort_copy"), v, (int)m, form); std::size_t q = std::min(m, n); c.eq(d.off(r), (std::ptrdiff_t)q + 1, "returned end"); auto dv = d.buf.vec(); bool ok = dv.front().id == -7 && dv.back().id == -8; std::vector<int> idl; for (std::size_t i = 0; i < q; ++i) { ok = ok && dv[i + 1].key == w[i].key; idl.push_back(dv[i + 1].id); } for (std::size_t i = q; i < m; ++i) ok = ok && dv[i + 1].id == 9000; c.ok(ok, "sorted prefix, rest untouched"); std::sort(idl.begin(), idl.end()); c.ok(std::adjacent_find(idl.begin(), idl.end()) == idl.end(), "each source element copied once"); c.eq(idsof(s.buf.vec()), idsof(g), "source unchanged"); }
		}
	};
	inputs(body, 5, 60, 130); for (std::uint64_t i = 0; i < reps(6); ++i) body(pattern(200 + rng().below(2200)));
	std::vector<int> p; for (int n = 1; n <= 7; ++n) { p.resize(n); for (int i = 0; i < n; ++i) p[i] = i; if (n >= 5) do { if (n < 7 || rng().coin(1, 10)) body(p); } while (std::next_permutation(p.begin(), p.end())); }
}
MON_TEST(sorts_ptr) { sorts<Ptr<Tag>, Tag>(); } MON_TEST(sorts_ra) { sorts<Src<Ra, Tag>, Tag>(); } MON_TEST(sorts_ra_nt) { sorts<Src<Ra, NTag>, NTag>(); } MON_TEST(sorts_ptr_nt) { sorts<Ptr<NTag>, NTag>(); }
#endif
#if MON_PART(1)
template<class S, class E> void heaps() {
	std::string tag = "<" + S::name() + "," + EN<E>::nm() + ">"; KeyLess kl(1); KeyDesc kd(1);
	auto body = [&](V const& v) {
		T t = tags(v, 0); std::size_t n = v.size();
		for (int form = 0; form < 3; ++form) { bool desc = form == 2; auto ish = [&](T const& r) { return desc ? std::is_heap(r.begin(), r.end(), kd) : std::is_heap(r.begin(), r.end(), kl); };
			{ auto g = guarded<E>(t); S s(g); auto b = s.mat(1), e = s.mat(n + 1); if (form == 0) sprout::make_heap(b, e); else if (form == 1) sprout::make_heap(b, e, kl); else sprout::make_heap(b, e, kd); MON_CASE(c, OPN("make_heap"), v, form); c.ok(ish(inner(c, s, t)), "heap"); }
			T h(t); if (desc) std::make_heap(h.begin(), h.end(), kd); else std::make_heap(h.begin(), h.end(), kl);
			auto gh = guarded<E>(h);
			if (n) { S s(gh); auto b = s.mat(1), e = s.mat(n + 1); if (form == 0) sprout::pop_heap(b, e); else if (form == 1) sprout::pop_heap(b, e, kl); else sprout::pop_heap(b, e, kd); MON_CASE(c, OPN("pop_heap"), idsof(h), form); T r = inner(c, s, h); c.eq(r.back().key, h.front().key, "largest moved to the end"); r.pop_back(); c.ok(ish(r), "rest is a heap"); }
			{ S s(gh); auto b = s.mat(1), e = s.mat(n + 1); if (form == 0) sprout::sort_heap(b, e); else if (form == 1) sprout::sort_heap(b, e, kl); else sprout::sort_heap(b, e, kd); MON_CASE(c, OPN("sort_heap"), idsof(h), form); T r = inner(c, s, h); c.ok(desc ? sorted(r, kd) : sorted(r, kl), "sorted"); }
			{ T p(h); p.push_back(Tag((int)rng().range(-1, 4), 7777)); if (n && rng().coin()) p.back().key = h[rng().below(n)].key + (int)rng().range(-1, 1); auto g = guarded<E>(p); S s(g); auto b = s.mat(1), e = s.mat(n + 2); if (form == 0) sprout::push_heap(b, e); else if (form == 1) sprout::push_heap(b, e, kl); else sprout::push_heap(b, e, kd); MON_CASE(c, OPN("push_heap"), idsof(p), form); c.ok(ish(inner(c, s, p)), "heap"); }
		}
	};
	inputs(body, 6, 150, 130);
}
MON_TEST(heaps_ptr) { heaps<Ptr<Tag>, Tag>(); } MON_TEST(heaps_ra) { heaps<Src<Ra, Tag>, Tag>(); } MON_TEST(heaps_ra_nt) { heaps<Src<Ra, NTag>, NTag>(); }
template<class S, class E> void parts() {
	std::string tag = "<" + S::name() + "," + EN<E>::nm() + ">";
	auto body = [&](V const& v) {
		T t = tags(v, 0); auto g = guarded<E>(t); std::size_t n = v.size(); int k = (int)rng().range(0, 3); auto pr = [k](Tag const& x) { return x.key >= k; };
		std::size_t nt = std::count_if(t.begin(), t.end(), pr);
		{ S s(g); auto r = sprout::partition(s.mat(1), s.mat(n + 1), pr); MON_CASE(c, OPN("partition"), v, k); c.eq(s.off(r), (std::ptrdiff_t)nt + 1, "partition point"); T w = inner(c, s, t); c.ok(std::is_partitioned(w.begin(), w.end(), pr), "partitioned"); }
		{ S s(g); auto r = sprout::stable_partition(s.mat(1), s.mat(n + 1), pr); MON_CASE(c, OPN("stable_partition"), v, k); c.eq(s.off(r), (std::ptrdiff_t)nt + 1, "partition point"); T w(t); std::stable_partition(w.begin(), w.end(), pr); c.eq(idsof(inner(c, s, t)), idsof(w)); }
		{ S s(g); std::vector<E> o1(nt, E()), o2(n - nt, E()); S a(o1), b(o2); auto r = sprout::partition_copy(s.mat(1), s.mat(n + 1), a.mb(), b.mb(), pr); MON_CASE(c, OPN("partition_copy"), v, k); c.ok(r.first == a.me() && r.second == b.me(), "ends"); T w(t), got; std::stable_partition(w.begin(), w.end(), pr); for (auto& x : a.buf) got.push_back(x); for (auto& x : b.buf) got.push_back(x); c.eq(idsof(got), idsof(w)); }
		for (int form = 0; form < 3; ++form) for (int nx = 0; nx < 2; ++nx) { KeyLess kl(1); KeyDesc kd(1); S s(g); auto b = s.mat(1), e = s.mat(n + 1); T w(t); bool r, x;
			if (nx) { r = form == 0 ? sprout::next_permutation(b, e) : form == 1 ? sprout::next_permutation(b, e, kl) : sprout::next_permutation(b, e, kd); x = form < 2 ? std::next_permutation(w.begin(), w.end(), kl) : std::next_permutation(w.begin(), w.end(), kd); }
			else { r = form == 0 ? sprout::prev_permutation(b, e) : form == 1 ? sprout::prev_permutation(b, e, kl) : sprout::prev_permutation(b, e, kd); x = form < 2 ? std::prev_permutation(w.begin(), w.end(), kl) : std::prev_permutation(w.begin(), w.end(), kd); }
			MON_CASE(c, OPN(std::string(nx ? "next_permutation" : "prev_permutation")), v, form); c.eq(r, x, "flag"); c.eq(idsof(inner(c, s, t)), idsof(w)); }
	};
	inputs(body, 6, 150, 130);
}
MON_TEST(parts_bi) { parts<Src<Bi, Tag>, Tag>(); } MON_TEST(parts_ra) { parts<Src<Ra, Tag>, Tag>(); } MON_TEST(parts_ptr) { parts<Ptr<Tag>, Tag>(); } MON_TEST(parts_ra_nt) { parts<Src<Ra, NTag>, NTag>(); }
// forward iterators for partition
MON_TEST(partition_fw) { auto body = [&](V const& v) { T t = tags(v, 0); auto g = guarded<Tag>(t); Src<Fw, Tag> s(g); int k = (int)rng().range(0, 3); auto pr = [k](Tag const& x) { return x.key >= k; }; auto r = sprout::partition(s.mat(1), s.mat(v.size() + 1), pr); MON_CASE(c, "partition<fw>", v, k); c.eq(s.off(r), (std::ptrdiff_t)std::count_if(t.begin(), t.end(), pr) + 1, "partition point"); T w = inner(c, s, t); c.ok(std::is_partitioned(w.begin(), w.end(), pr), "partitioned"); }; inputs(body, 6, 200, 100); }
#endif
#if MON_PART(2) || MON_PART(3)
template<class C> T totags(C const& c) { T r; for (auto i = c.begin(); i != c.end(); ++i) r.push_back(*i); return r; }
// value-returning forms on a container C holding t; mk builds it
#define FORMS(fn, ...) (form == 0 ? sprout::fixed::fn(__VA_ARGS__) : form == 1 ? sprout::fixed::fn(__VA_ARGS__, kl) : sprout::fixed::fn(__VA_ARGS__, kd))
#define FITS(fn, ...) (form == 0 ? sprout::fit::fn(__VA_ARGS__) : form == 1 ? sprout::fit::fn(__VA_ARGS__, kl) : sprout::fit::fn(__VA_ARGS__, kd))
template<class C> void fixed_sorts(C const& a, T const& t, std::string tag) {
	KeyLess kl(1); KeyDesc kd(1); std::size_t n = t.size(); auto ids = idsof(t); std::size_t k = rng().below(n + 1);
	for (int form = 0; form < 3; ++form) { bool desc = form == 2; T w(t); if (desc) std::stable_sort(w.begin(), w.end(), kd); else std::stable_sort(w.begin(), w.end(), kl);
		auto keys = [](T const& x) { V r; for (auto const& q : x) r.push_back(q.key); return r; };
		auto perm = [&](T const& r, char const* nm) -> bool { MON_CASE(c, OPN(std::string(nm)), ids, form, (int)k); return c.eq(multi(r), multi(t), "multiset of elements"); };
		{ T r = totags(FORMS(sort, a)); perm(r, "fixed::sort"); MON_CASE(c, OPN("fixed::sort"), ids, form); c.eq(keys(r), keys(w)); T f = totags(FITS(sort, a)); c.eq(keys(f), keys(w), "fit"); c.eq(multi(f), multi(t), "fit multiset"); }
		{ T r = totags(FORMS(stable_sort, a)); MON_CASE(c, OPN("fixed::stable_sort"), ids, form); c.eq(idsof(r), idsof(w)); c.eq(idsof(FITS(stable_sort, a)), idsof(w), "fit"); }
		{ T r = totags(FORMS(partial_sort, a, a.cbegin() + k)); perm(r, "fixed::partial_sort"); MON_CASE(c, OPN("fixed::partial_sort"), ids, (int)k, form); V kr = keys(r), kw = keys(w); c.eq(V(kr.begin(), kr.begin() + k), V(kw.begin(), kw.begin() + k)); V kf = keys(totags(FITS(partial_sort, a, a.cbegin() + k))); c.eq(kf, V(kw.begin(), kw.begin() + k), "fit"); }
		if (n) { std::size_t q = k < n ? k : n - 1; T r = totags(FORMS(nth_element, a, a.cbegin() + q)); perm(r, "fixed::nth_element"); MON_CASE(c, OPN("fixed::nth_element"), ids, (int)q, form); bool ok = r[q].key == w[q].key; for (std::size_t i = 0; i < n; ++i) { Tag const& x = i < q ? r[q] : r[i]; Tag const& y = i < q ? r[i] : r[q]; if (desc ? kd(x, y) : kl(x, y)) ok = false; } c.ok(ok, "nth element in place, rest partitioned");
			T f = totags(FITS(nth_element, a, a.cbegin() + q)); c.eq(f.size(), q + 1, "fit size"); if (f.size() == q + 1) c.eq(f[q].key, w[q].key, "fit nth"); }
		if (rng().coin(1, 8)) { cur() = &op("fixed::nth_element(end)" + tag); T r = totags(FORMS(nth_element, a, a.cend())); MON_CASE(c, OPN("fixed::nth_element(end)"), ids, form); c.eq(multi(r), multi(t), "multiset of elements"); }
		auto ish = [&](T const& r) { return desc ? std::is_heap(r.begin(), r.end(), kd) : std::is_heap(r.begin(), r.end(), kl); };
		{ T r = totags(FORMS(make_heap, a)); perm(r, "fixed::make_heap"); MON_CASE(c, OPN("fixed::make_heap"), ids, form); c.ok(ish(r), "heap"); T f = totags(FITS(make_heap, a)); c.ok(ish(f), "fit heap"); c.eq(multi(f), multi(t), "fit multiset"); }
		{ T r = totags(FORMS(make_partial_heap, a, a.cbegin() + k)); perm(r, "fixed::make_partial_heap"); MON_CASE(c, OPN("fixed::make_partial_heap"), ids, (int)k, form); T p(r.begin(), r.begin() + k); c.ok(ish(p), "prefix heap"); V kp = keys(p), kw = keys(w); std::sort(kp.begin(), kp.end()); V kx(kw.begin(), kw.begin() + k); std::sort(kx.begin(), kx.end()); c.eq(kp, kx, "prefix holds the smallest"); c.eq(idsof(FITS(make_partial_heap, a, a.cbegin() + k)), idsof(p), "fit"); }
	}
}
template<class C> void fixed_heaps(C const& a, T const& t, std::string tag, bool desc) { // a is a heap already (t its contents)
	KeyLess kl(1); KeyDesc kd(1); auto ids = idsof(t); std::size_t n = t.size(); auto ish = [&](T const& r) { return desc ? std::is_heap(r.begin(), r.end(), kd) : std::is_heap(r.begin(), r.end(), kl); };
	for (int form = desc ? 2 : 0; form < (desc ? 3 : 2); ++form) {
		{ T r = totags(FORMS(sort_heap, a)); MON_CASE(c, OPN("fixed::sort_heap"), ids, form); c.eq(multi(r), multi(t), "multiset"); c.ok(desc ? sorted(r, kd) : sorted(r, kl), "sorted"); T f = totags(FITS(sort_heap, a)); c.eq(idsof(f), idsof(r), "fit"); }
		if (n) { T r = totags(FORMS(pop_heap, a)); MON_CASE(c, OPN("fixed::pop_heap"), ids, form); c.eq(multi(r), multi(t), "multiset"); T h(r.begin(), r.end() - 1); c.eq(r.back().key, t.front().key, "largest moved to the end"); c.ok(ish(h), "rest is a heap"); T f = totags(FITS(pop_heap, a)); c.eq(idsof(f), idsof(h), "fit"); }
	}
}
template<class C> void fixed_push(C const& a, T const& t, std::string tag, bool desc) { // all but the last form a heap
	KeyLess kl(1); KeyDesc kd(1); auto ids = idsof(t); for (int form = desc ? 2 : 0; form < (desc ? 3 : 2); ++form) { T r = totags(FORMS(push_heap, a)); MON_CASE(c, OPN("fixed::push_heap"), ids, form); c.eq(multi(r), multi(t), "multiset"); c.ok(desc ? std::is_heap(r.begin(), r.end(), kd) : std::is_heap(r.begin(), r.end(), kl), "heap"); c.eq(idsof(FITS(push_heap, a)), idsof(r), "fit"); }
}
template<class C> void fixed_parts(C const& a, T const& t, std::string tag) {
	KeyLess kl(1); KeyDesc kd(1); auto ids = idsof(t); int k = (int)rng().range(0, 3); auto pr = [k](Tag const& x) { return x.key >= k; }; std::size_t nt = std::count_if(t.begin(), t.end(), pr); T w(t); std::stable_partition(w.begin(), w.end(), pr); T wt(w.begin(), w.begin() + nt);
	{ T r = totags(sprout::fixed::partition(a, pr)); MON_CASE(c, OPN("fixed::partition"), ids, k); c.eq(multi(r), multi(t), "multiset"); c.ok(std::is_partitioned(r.begin(), r.end(), pr), "partitioned"); T f = totags(sprout::fit::partition(a, pr)); c.eq(multi(f), multi(wt), "fit: exactly the elements satisfying the predicate"); }
	{ T r = totags(sprout::fixed::stable_partition(a, pr)); MON_CASE(c, OPN("fixed::stable_partition"), ids, k); c.eq(idsof(r), idsof(w)); c.eq(idsof(sprout::fit::stable_partition(a, pr)), idsof(wt), "fit"); }
	{ MON_CASE(c, OPN("fixed::partition_copy"), ids, k); T r = totags(sprout::fixed::partition_copy(a.begin(), a.end(), a, pr)); c.eq(multi(r), multi(t), "multiset"); c.ok(std::is_partitioned(r.begin(), r.end(), pr), "partitioned"); c.eq(multi(sprout::fit::partition_copy(a.begin(), a.end(), a, pr)), multi(wt), "fit"); }
	{ MON_CASE(c, OPN("fixed::stable_partition_copy"), ids, k); c.eq(idsof(sprout::fixed::stable_partition_copy(a.begin(), a.end(), a, pr)), idsof(w)); c.eq(idsof(sprout::fit::stable_partition_copy(a.begin(), a.end(), a, pr)), idsof(wt), "fit"); }
	for (int form = 0; form < 3; ++form) { T x(t), y(t); bool fx = form < 2 ? std::next_permutation(x.begin(), x.end(), kl) : std::next_permutation(x.begin(), x.end(), kd), fy = form < 2 ? std::prev_permutation(y.begin(), y.end(), kl) : std::prev_permutation(y.begin(), y.end(), kd);
		{ auto r = FORMS(next_permutation, a); MON_CASE(c, OPN("fixed::next_permutation"), ids, form); c.eq(r.second, fx, "flag"); c.eq(idsof(r.first), idsof(x)); auto f = FITS(next_permutation, a); c.eq(f.second, fx, "fit flag"); c.eq(idsof(f.first), idsof(x), "fit"); }
		{ auto r = FORMS(prev_permutation, a); MON_CASE(c, OPN("fixed::prev_permutation"), ids, form); c.eq(r.second, fy, "flag"); c.eq(idsof(r.first), idsof(y)); auto f = FITS(prev_permutation, a); c.eq(f.second, fy, "fit flag"); c.eq(idsof(f.first), idsof(y), "fit"); } }
}
template<std::size_t N, class G> void on_containers(V const& v, G g) { // whole array, and a window of a larger array
	T t = tags(v, 0); sprout::array<Tag, N> a = arr<Tag, N>(t); g(a, t, std::string("<array>"));
	T big; std::size_t off = 2; for (std::size_t i = 0; i < off; ++i) big.push_back(Tag(-5, -5)); big.insert(big.end(), t.begin(), t.end()); big.push_back(Tag(99, 99)); sprout::array<Tag, N + 3> b = arr<Tag, N + 3>(big); sprout::sub_array<sprout::array<Tag, N + 3> > s(b, off, off + N); g(s, t, std::string("<sub_array>"));
}
struct GS { template<class C> void operator()(C const& a, T const& t, std::string tag) const { fixed_sorts(a, t, tag); } };
struct GP { template<class C> void operator()(C const& a, T const& t, std::string tag) const { fixed_parts(a, t, tag); } };
struct GH { bool d; template<class C> void operator()(C const& a, T const& t, std::string tag) const { fixed_heaps(a, t, tag, d); } };
struct GU { bool d; template<class C> void operator()(C const& a, T const& t, std::string tag) const { fixed_push(a, t, tag, d); } };
template<std::size_t N> V one() { return rng().coin() ? pattern(N) : rand_seq(N, 0, 3); }
#if MON_PART(2)
template<std::size_t N> void fs(std::uint64_t n) { for (std::uint64_t i = 0; i < reps(n); ++i) on_containers<N>(one<N>(), GS()); }
MON_TEST(fixed_sorts_s) { fs<1>(10); fs<2>(30); fs<3>(40); fs<4>(60); } MON_TEST(fixed_sorts_m) { fs<7>(80); } MON_TEST(fixed_sorts_l) { fs<16>(60); } 
#endif
#if MON_PART(3)
template<std::size_t N> void fp(std::uint64_t n) { for (std::uint64_t i = 0; i < reps(n); ++i) { on_containers<N>(one<N>(), GP());
	for (int d = 0; d < 2; ++d) { V v = one<N>(); if (d) std::make_heap(v.begin(), v.end(), std::greater<int>()); else std::make_heap(v.begin(), v.end()); GH h = {d == 1}; on_containers<N>(v, h); V u = one<N>(); if (d) std::make_heap(u.begin(), u.end() - 1, std::greater<int>()); else std::make_heap(u.begin(), u.end() - 1); GU p = {d == 1}; on_containers<N>(u, p); } } }
MON_TEST(fixed_parts_s) { fp<1>(10); fp<2>(30); fp<3>(60); fp<4>(80); } MON_TEST(fixed_parts_l) { fp<7>(100); fp<12>(60); }
MON_TEST(fixed_permutation_cycle) { // all permutations of a multiset in order
	V vs[] = {{0, 1, 2, 3, 4}, {0, 0, 1, 1, 2}, {1, 1, 1, 1, 1}}; for (auto const& v : vs) { sprout::array<Tag, 5> a = arr<Tag, 5>(tags(v, 0)); V x(v); std::size_t n = 0; bool m; do { auto r = sprout::next_permutation(a); m = std::next_permutation(x.begin(), x.end()); MON_CASE(c, "next_permutation cycle", x, (int)n++); c.eq(r.second, m, "flag"); a = r.first; V k; for (auto const& t : a) k.push_back(t.key); c.eq(k, x); auto q = sprout::prev_permutation(a); c.eq(q.second, m, "prev flag"); } while (m && n < 1000); } }
#endif
#endif
