#include <kinds.hpp>
#include <sprout/algorithm.hpp>
#include <sprout/functional.hpp>
using namespace mon;
template<class F> void inputs(F f) { int nmax = thorough() ? 5 : 4; for (int n = 0; n <= nmax; ++n) all_seqs(n, 3, f); for (std::uint64_t i = 0; i < reps(60); ++i) f(rand_seq(rng().below(13), 0, (int)rng().range(1, 9))); }
#define WANT0 typedef typename K::elem E; typedef typename K::R R; typedef std::vector<E> T; std::string tag = "<" + S::name() + "->" + K::name() + ">";
#define WANT1 T t = els<E>(v, 0); S s(t); auto b = s.cb(), e = s.ce(); K k; int a1 = (int)rng().range(0, 3), a2 = (int)rng().range(1, 4); KGeq pred = {a1}; (void)pred; (void)e;

#if MON_PART(0) || MON_PART(1)
template<class S, class K, bool FWD> struct A { static void go() { WANT0
	inputs([&](V const& v) { WANT1
		T w;
		ALG(copy, "copy", t, (b, e), (), false)
		{ std::size_t n = rng().below(t.size() + 1); ALG(copy_n, "copy_n", T(t.begin(), t.begin() + n), (b, (long)n), (), false) }
		w.clear(); std::copy_if(t.begin(), t.end(), std::back_inserter(w), pred); ALG(copy_if, "copy_if", w, (b, e), (, pred), false)
		w.assign(t.begin(), std::find_if(t.begin(), t.end(), pred)); ALG(copy_until, "copy_until", w, (b, e), (, pred), false)
		w.assign(t.begin(), std::find_if_not(t.begin(), t.end(), pred)); ALG(copy_while, "copy_while", w, (b, e), (, pred), false)
		E x = El<E>::mk(a1, -5), y = El<E>::mk(a2 + 4, -6);
		w.clear(); std::remove_copy(t.begin(), t.end(), std::back_inserter(w), x); ALG(remove_copy, "remove_copy", w, (b, e), (, x), false)
		w.clear(); std::remove_copy_if(t.begin(), t.end(), std::back_inserter(w), pred); ALG(remove_copy_if, "remove_copy_if", w, (b, e), (, pred), false)
		w.clear(); std::replace_copy(t.begin(), t.end(), std::back_inserter(w), x, y); ALG(replace_copy, "replace_copy", w, (b, e), (, x, y), false)
		w.clear(); std::replace_copy_if(t.begin(), t.end(), std::back_inserter(w), pred, y); ALG(replace_copy_if, "replace_copy_if", w, (b, e), (, pred, y), false)
		w.clear(); std::unique_copy(t.begin(), t.end(), std::back_inserter(w)); ALG(unique_copy, "unique_copy", w, (b, e), (), false)
		{ KMod q = {a2}; w.clear(); std::unique_copy(t.begin(), t.end(), std::back_inserter(w), q); ALG(unique_copy, "unique_copy pred", w, (b, e), (, q), false) }
		{ Bump f = {a1}; w.clear(); std::transform(t.begin(), t.end(), std::back_inserter(w), f); ALG(transform, "transform", w, (b, e), (, f), false) }
		{ Comb f = {a1}; T u = els<E>(rand_seq(t.size(), 0, 9), 900); S s2(u); w.clear(); std::transform(t.begin(), t.end(), u.begin(), std::back_inserter(w), f); ALG(transform, "transform binary", w, (b, e, s2.cb()), (, f), false) }
		{ E lo = El<E>::mk(a1, -1), hi = El<E>::mk(a1 + a2 - 1, -2); w.clear(); for (auto const& z : t) w.push_back(z < lo ? lo : hi < z ? hi : z); ALG(clamp_range_copy, "clamp_range_copy", w, (b, e), (, lo, hi), false)
		  w.clear(); for (auto const& z : t) w.push_back(hi < z ? hi : z < lo ? lo : z); ALG(clamp_range_copy, "clamp_range_copy comp", w, (b, e), (, hi, lo, KDesc(1)), false) }
	}); } };
template<class S, class K> struct AF { static void go() { WANT0
	inputs([&](V const& v) { WANT1
		T w;
		ALGFIT(copy, "copy", t, (b, e), (), false)
		{ std::size_t n = rng().below(t.size() + 1); ALGFIT(copy_n, "copy_n", T(t.begin(), t.begin() + n), (b, (long)n), (), false) }
		w.clear(); std::copy_if(t.begin(), t.end(), std::back_inserter(w), pred); ALGFIT(copy_if, "copy_if", w, (b, e), (, pred), false)
		w.assign(t.begin(), std::find_if(t.begin(), t.end(), pred)); ALGFIT(copy_until, "copy_until", w, (b, e), (, pred), false)
		w.assign(t.begin(), std::find_if_not(t.begin(), t.end(), pred)); ALGFIT(copy_while, "copy_while", w, (b, e), (, pred), false)
		E x = El<E>::mk(a1, -5), y = El<E>::mk(a2 + 4, -6);
		w.clear(); std::remove_copy(t.begin(), t.end(), std::back_inserter(w), x); ALGFIT(remove_copy, "remove_copy", w, (b, e), (, x), false)
		w.clear(); std::remove_copy_if(t.begin(), t.end(), std::back_inserter(w), pred); ALGFIT(remove_copy_if, "remove_copy_if", w, (b, e), (, pred), false)
		w.clear(); std::replace_copy(t.begin(), t.end(), std::back_inserter(w), x, y); ALGFIT(replace_copy, "replace_copy", w, (b, e), (, x, y), false)
		w.clear(); std::replace_copy_if(t.begin(), t.end(), std::back_inserter(w), pred, y); ALGFIT(replace_copy_if, "replace_copy_if", w, (b, e), (, pred, y), false)
		w.clear(); std::unique_copy(t.begin(), t.end(), std::back_inserter(w)); ALGFIT(unique_copy, "unique_copy", w, (b, e), (), false)
		{ KMod q = {a2}; w.clear(); std::unique_copy(t.begin(), t.end(), std::back_inserter(w), q); ALGFIT(unique_copy, "unique_copy pred", w, (b, e), (, q), false) }
		{ Bump f = {a1}; w.clear(); std::transform(t.begin(), t.end(), std::back_inserter(w), f); ALGFIT(transform, "transform", w, (b, e), (, f), false) }
		{ Comb f = {a1}; T u = els<E>(rand_seq(t.size(), 0, 9), 900); S s2(u); w.clear(); std::transform(t.begin(), t.end(), u.begin(), std::back_inserter(w), f); ALGFIT(transform, "transform binary", w, (b, e, s2.cb()), (, f), false) }
		{ E lo = El<E>::mk(a1, -1), hi = El<E>::mk(a1 + a2 - 1, -2); w.clear(); for (auto const& z : t) w.push_back(z < lo ? lo : hi < z ? hi : z); ALGFIT(clamp_range_copy, "clamp_range_copy", w, (b, e), (, lo, hi), false)
		  w.clear(); for (auto const& z : t) w.push_back(hi < z ? hi : z < lo ? lo : z); ALGFIT(clamp_range_copy, "clamp_range_copy comp", w, (b, e), (, hi, lo, KDesc(1)), false) }
	}); } };
#endif
typedef KArr<Tag, 5> Ka; typedef KSub<Tag, 6> Ks; typedef KStr<char, 6> Kc; typedef KArr<Tag, 1> K1; typedef KStd<Tag, 4> Kd; typedef KSub<char, 5> Ksc;
template<class Cat, class L, class K> struct SO { typedef Src<Cat, typename K::elem, L> type; }; template<class K> struct SP { typedef Ptr<typename K::elem> type; };
#define RUN(T, NAME, S, ...) MON_TEST(NAME) { T<S, __VA_ARGS__>::go(); }
#define SRC(Cat, L, K) SO<Cat, L, K>::type
#define S_(Cat, L, K) SO<Cat, L, K>::type
#if MON_PART(0)
#define RA_(NAME, Cat, L, K) MON_TEST(NAME) { A<SO<Cat, L, K>::type, K, false>::go(); }
RA_(a_in_arr, In, Lit, Ka) RA_(a_innl_sub, In, NonLit, Ks) RA_(a_fw_str, Fw, Lit, Kc) RA_(a_fw_one, Fw, Lit, K1) RA_(a_ra_arr, Ra, Lit, Ka) RA_(a_ranl_sub, Ra, NonLit, Ks) RA_(a_ra_str, Ra, Lit, Kc) RA_(a_fw_std, Fw, NonLit, Kd)
MON_TEST(a_ptr_sub) { A<Ptr<Tag>, Ks, false>::go(); } MON_TEST(a_ptr_one) { A<Ptr<Tag>, K1, false>::go(); } MON_TEST(a_ptr_std) { A<Ptr<Tag>, Kd, false>::go(); } MON_TEST(a_ptr_subc) { A<Ptr<char>, Ksc, false>::go(); }
#endif
#if MON_PART(1)
#define RF_(NAME, Cat, L, K) MON_TEST(NAME) { AF<SO<Cat, L, K>::type, K>::go(); }
RF_(f_fw_arr, Fw, Lit, Ka) RF_(f_fwnl_sub, Fw, NonLit, Ks) RF_(f_bi_one, Bi, Lit, K1) RF_(f_ra_arr, Ra, Lit, Ka) RF_(f_ra_sub, Ra, Lit, Ks) RF_(f_fw_subc, Fw, Lit, Ksc)
MON_TEST(f_ptr_sub) { AF<Ptr<Tag>, Ks>::go(); } MON_TEST(f_ptr_arr) { AF<Ptr<Tag>, Ka>::go(); } MON_TEST(f_ptr_std) { AF<Ptr<Tag>, Kd>::go(); } MON_TEST(f_ptr_str) { AF<Ptr<char>, Kc>::go(); }
#endif
#if MON_PART(2)
// bidirectional / forward sources with positions
template<class S, class K> struct B { static void go() { WANT0
	inputs([&](V const& v) { WANT1
		ALG2(copy_backward, "copy_backward", t, (b, e), (), true)
		ALG2(reverse_copy, "reverse_copy", T(t.rbegin(), t.rend()), (b, e), (), false)
	}); } };
template<class S, class K> struct Fs { static void go() { WANT0
	inputs([&](V const& v) { WANT1
		for (std::size_t m = 0; m <= t.size(); ++m) { T w; std::rotate_copy(t.begin(), t.begin() + m, t.end(), std::back_inserter(w)); a1 = (int)m; ALG2(rotate_copy, "rotate_copy", w, (b, s.cat(m), e), (), false) }
		if (!t.empty()) { std::size_t i = rng().below(t.size()), j = rng().below(t.size()); T w(t); std::swap(w[i], w[j]); a1 = (int)i; a2 = (int)j; ALG2(swap_element_copy, "swap_element_copy", w, (b, e), (, s.cat(i), s.cat(j)), false) }
	}); } };
#define RB_(NAME, Cat, L, K) MON_TEST(NAME) { B<SO<Cat, L, K>::type, K>::go(); }
#define RG_(NAME, Cat, L, K) MON_TEST(NAME) { Fs<SO<Cat, L, K>::type, K>::go(); }
RB_(b_bi_arr, Bi, Lit, Ka) RB_(b_binl_sub, Bi, NonLit, Ks) RB_(b_ra_arr, Ra, Lit, Ka) RB_(b_ra_sub, Ra, NonLit, Ks) RB_(b_bi_str, Bi, Lit, Kc) RB_(b_ra_str, Ra, Lit, Kc) RB_(b_ra_one, Ra, Lit, K1)
MON_TEST(b_ptr_sub) { B<Ptr<Tag>, Ks>::go(); } MON_TEST(b_ptr_arr) { B<Ptr<Tag>, Ka>::go(); }
RG_(g_fw_arr, Fw, Lit, Ka) RG_(g_fwnl_sub, Fw, NonLit, Ks) RG_(g_bi_one, Bi, Lit, K1) RG_(g_ra_arr, Ra, Lit, Ka) RG_(g_ra_sub, Ra, NonLit, Ks) RG_(g_ra_str, Ra, Lit, Kc) RG_(g_fw_str, Fw, Lit, Kc)
MON_TEST(g_ptr_sub) { Fs<Ptr<Tag>, Ks>::go(); } MON_TEST(g_ptr_one) { Fs<Ptr<Tag>, K1>::go(); }
#endif

#if MON_PART(3)
// container forms: NAME(cont, extra...)
#define CALG(NAME, LABEL, WANT, POST) { auto w_ = WANT; MON_CASE(c, OPN(LABEL), dump(k.full), (int)k.off, (int)k.len, a1, a2); chk(c, k, sprout::fixed::NAME(k.r UNP(POST)), w_); chk(c, k, sprout::NAME(k.r UNP(POST)), w_); MON_CASE(d, OPN("fit::" LABEL), dump(k.full), (int)k.off, (int)k.len, a1, a2); chkfit(d, k, sprout::fit::NAME(k.r UNP(POST)), w_); }
template<class K> struct Cn { static void go() { typedef typename K::elem E; typedef typename K::R R; typedef std::vector<E> T; std::string tag = "<" + K::name() + ">";
	for (std::uint64_t it = 0; it < reps(500); ++it) {
		K k; if (rng().coin()) { for (auto& x : k.full) x = El<E>::mk(key(x) % 3, idt(x)); remk(k); }
		T t(k.full.begin() + k.off, k.full.begin() + k.off + k.len), w; int a1 = (int)rng().range(0, 4), a2 = (int)rng().range(1, 4); KGeq pred = {a1}; KMod q = {a2}; E x = El<E>::mk(a1, -5), y = El<E>::mk(a2 + 4, -6);
		w = t; std::reverse(w.begin(), w.end()); CALG(reverse, "reverse", w, ())
		w = t; w.erase(std::remove(w.begin(), w.end(), x), w.end()); CALG(remove, "remove", w, (, x))
		w = t; w.erase(std::remove_if(w.begin(), w.end(), pred), w.end()); CALG(remove_if, "remove_if", w, (, pred))
		w = t; std::replace(w.begin(), w.end(), x, y); CALG(replace, "replace", w, (, x, y))
		w = t; std::replace_if(w.begin(), w.end(), pred, y); CALG(replace_if, "replace_if", w, (, pred, y))
		w = t; w.erase(std::unique(w.begin(), w.end()), w.end()); CALG(unique, "unique", w, ())
		w = t; w.erase(std::unique(w.begin(), w.end(), q), w.end()); CALG(unique, "unique pred", w, (, q))
		{ std::size_t m = rng().below(t.size() + 1); w = t; std::rotate(w.begin(), w.begin() + m, w.end()); a1 = (int)m; CALG(rotate, "rotate", w, (, sprout::next(sprout::cbegin(k.r), m))) }
		if (!t.empty()) { std::size_t i = rng().below(t.size()), j = rng().below(t.size()); w = t; std::swap(w[i], w[j]); a1 = (int)i; a2 = (int)j; CALG(swap_element, "swap_element", w, (, sprout::next(sprout::cbegin(k.r), i), sprout::next(sprout::cbegin(k.r), j))) }
		{ E lo = El<E>::mk(a1, -1), hi = El<E>::mk(a1 + a2 - 1, -2); w.clear(); for (auto const& z : t) w.push_back(z < lo ? lo : hi < z ? hi : z); CALG(clamp_range, "clamp_range", w, (, lo, hi))
		  w.clear(); for (auto const& z : t) w.push_back(hi < z ? hi : z < lo ? lo : z); CALG(clamp_range, "clamp_range comp", w, (, hi, lo, KDesc(1))) }
		CALG(fill, "fill", T(k.len, x), (, x))
		{ int n = (int)rng().below(k.len + 1); a2 = n; CALG(fill_n, "fill_n", T(n, x), (, n, x)) }
	}
	K k; int a1 = 0, a2 = 3; E x = El<E>::mk(2, -5); { MON_CASE(c, OPN("fill<R>"), a1, a2); chkpit<decltype(c), K>(c, sprout::fixed::fill<R>(x), T(K::cap, x)); }
	for (std::size_t n = 0; n <= K::cap; ++n) { MON_CASE(c, OPN("fill_n<R>"), (int)n); chkpit<decltype(c), K>(c, sprout::fixed::fill_n<R>((int)n, x), T(n, x)); }
	}
	template<class E, std::size_t N> static void remk(KArr<E, N>& k) { k.r = arr<E, N>(k.full); } template<class E, std::size_t N> static void remk(KStd<E, N>& k) { std::copy(k.full.begin(), k.full.end(), k.r.begin()); } template<class E, std::size_t N> static void remk(KSub<E, N>& k) { k.r = typename KSub<E, N>::R(arr<E, N>(k.full), k.off, k.off + k.len); } template<class E, std::size_t N> static void remk(KStr<E, N>& k) { k.r = typename KStr<E, N>::R(std::basic_string<E>(k.full.begin(), k.full.end()).c_str()); }
};
#define RC_(NAME, K) MON_TEST(c_##NAME) { Cn<K>::go(); }
RC_(arr, Ka) RC_(sub, Ks) RC_(str, Kc) RC_(one, K1) RC_(std, Kd) RC_(subc, Ksc)
#endif
#if MON_PART(4)
// generators: a value-semantic generator returns (value, next generator)
template<class E> struct G { int s; sprout::pair<E, G> operator()() const { G n = {s * 5 % 101}; return sprout::pair<E, G>(El<E>::mk(s % 7, s), n); } };
template<class E> struct Seed { int s; };
template<class E> struct U { sprout::pair<E, int> operator()(int s) const { return sprout::pair<E, int>(El<E>::mk(s % 7, s), s * 5 % 101); } };
template<class E> struct R0 { E operator()() const { return El<E>::mk(3, 33); } };
template<class E> struct R1 { E operator()(E const& a) const { return El<E>::mk((key(a) * 2 + 1) % 11, idt(a) + 1); } };
template<class E> struct R2 { E operator()(E const& a, E const& b) const { return El<E>::mk((key(a) * 2 + key(b)) % 13, idt(a) * 3 - idt(b)); } };
template<class E> struct R3 { E operator()(E const& a, E const& b, E const& d) const { return El<E>::mk((key(a) * 2 + key(b) + key(d) * 3) % 13, idt(a) * 3 - idt(b) + idt(d)); } };
#define GALG(NAME, LABEL, WANT, ARGS) { auto w_ = WANT; MON_CASE(c, OPN(LABEL), dump(k.full), (int)k.off, (int)k.len, a1); chk(c, k, sprout::fixed::NAME(k.r UNP(ARGS)), w_); chk(c, k, sprout::NAME(k.r UNP(ARGS)), w_); MON_CASE(d, OPN("fit::" LABEL), dump(k.full), (int)k.off, (int)k.len, a1); chkfit(d, k, sprout::fit::NAME(k.r UNP(ARGS)), w_); }
template<class K> struct Gn { static void go() { typedef typename K::elem E; typedef typename K::R R; typedef std::vector<E> T; std::string tag = "<" + K::name() + ">";
	for (std::uint64_t it = 0; it < reps(300); ++it) {
		K k; int a1 = (int)rng().range(1, 100); T all; { G<E> g = {a1}; for (int i = 0; i < 20; ++i) { auto p = g(); all.push_back(p.first); g = p.second; } } int n = (int)rng().below(k.len + 1);
		G<E> g = {a1}; U<E> u;
		GALG(generate, "generate", T(all.begin(), all.begin() + k.len), (, g))
		GALG(unfold, "unfold", T(all.begin(), all.begin() + k.len), (, u, a1))
		GALG(generate_n, "generate_n", T(all.begin(), all.begin() + n), (, n, g))
		GALG(unfold_n, "unfold_n", T(all.begin(), all.begin() + n), (, n, u, a1))
		T r1(1, El<E>::mk(a1 % 9, 1)), r2, r3; r2 = r1; r2.push_back(El<E>::mk(a1 % 5, 2)); r3 = r2; r3.push_back(El<E>::mk(a1 % 4, 3)); T i3(r3);
		while (r1.size() < 20) r1.push_back(R1<E>()(r1.back())); while (r2.size() < 20) r2.push_back(R2<E>()(r2[r2.size() - 2], r2.back())); while (r3.size() < 20) r3.push_back(R3<E>()(r3[r3.size() - 3], r3[r3.size() - 2], r3.back()));
		for (int full = 0; full < 2; ++full) { std::size_t m = full ? k.len : (std::size_t)n;
			{ T w(m, R0<E>()()); if (full) GALG(recurrence, "recurrence/0", w, (, R0<E>())) else GALG(recurrence_n, "recurrence_n/0", w, (, n, R0<E>())) }
			{ T w(r1.begin(), r1.begin() + m); if (full) GALG(recurrence, "recurrence/1", w, (, R1<E>(), i3[0])) else GALG(recurrence_n, "recurrence_n/1", w, (, n, R1<E>(), i3[0])) }
			{ T w(r2.begin(), r2.begin() + m); if (full) GALG(recurrence, "recurrence/2", w, (, R2<E>(), i3[0], i3[1])) else GALG(recurrence_n, "recurrence_n/2", w, (, n, R2<E>(), i3[0], i3[1])) }
			{ T w(r3.begin(), r3.begin() + m); if (full) GALG(recurrence, "recurrence/3", w, (, R3<E>(), i3[0], i3[1], i3[2])) else GALG(recurrence_n, "recurrence_n/3", w, (, n, R3<E>(), i3[0], i3[1], i3[2])) }
		}
		{ std::size_t m = rng().below(K::cap + 1); MON_CASE(c, OPN("generate<R> etc"), a1, (int)m); T w(all.begin(), all.begin() + K::cap), wn(all.begin(), all.begin() + m); chkpit<decltype(c), K>(c, sprout::fixed::generate<R>(g), w); chkpit<decltype(c), K>(c, sprout::fixed::unfold<R>(u, a1), w); chkpit<decltype(c), K>(c, sprout::fixed::generate_n<R>((int)m, g), wn); chkpit<decltype(c), K>(c, sprout::fixed::unfold_n<R>((int)m, u, a1), wn); chkpit<decltype(c), K>(c, sprout::fixed::recurrence<R>(R2<E>(), i3[0], i3[1]), T(r2.begin(), r2.begin() + K::cap)); chkpit<decltype(c), K>(c, sprout::fixed::recurrence_n<R>((int)m, R2<E>(), i3[0], i3[1]), T(r2.begin(), r2.begin() + m)); }
	} } };
#define RN_(NAME, K) MON_TEST(n_##NAME) { Gn<K>::go(); }
typedef KArr<Tag, 3> K3;
RN_(arr, Ka) RN_(arr3, K3) RN_(sub, Ks) RN_(str, Kc) RN_(one, K1) RN_(std, Kd) RN_(subc, Ksc)
#endif
