// Iterator-law monitor: walks every position (and pair of positions) of [first, last) and compares with the expected sequence.
#include <spr.hpp>
#include <src.hpp>
#include <sprout/iterator.hpp>
#include <sprout/iterator/operation.hpp>
namespace mon {
	template<class I> auto swp(I& a, I& b, int) -> decltype((void)a.swap(b)) { a.swap(b); } template<class I> void swp(I& a, I& b, long) { std::swap(a, b); }
	struct Cap { bool back; explicit Cap(bool b = true) : back(b) {} };
	template<class C, class I, class E> bool deref(C& c, I const& i, E const& e, char const* w) { return c.ok(*i == e, w); }
	template<class C, class I, class E> bool fwd(C& c, I const& f, I const& l, std::vector<E> const& x, std::vector<I>& pos) {
		I i = f; pos.push_back(i); std::size_t k = 0;
		while (i != l) { if (k >= x.size()) { c.ok(false, "the sequence is longer than its definition"); return false; } if (!deref(c, i, x[k], "element")) return false; I j = i; I before = i; I& r = ++i; c.ok(&r == &i, "++ returns itself"); I old = j++; if (!c.ok(old == before && j == i && !(j != i), "post-increment")) return false; if (!c.ok(sprout::next(before) == i, "next")) return false; deref(c, before, x[k], "a copy keeps its place"); ++k; pos.push_back(i); if (!c.ok(!(before == i) && before != i, "++ moves")) return false; }
		if (!c.ok(k == x.size(), "the sequence is shorter than its definition")) return false;
		for (std::size_t a = 0; a <= k; ++a) for (std::size_t b = 0; b <= k; ++b) if (!c.ok((pos[a] == pos[b]) == (a == b) && (pos[a] != pos[b]) == (a != b), "equality of positions")) return false;
		c.ok(l == pos[k] && pos[k] == l, "end"); c.ok((std::ptrdiff_t)sprout::distance(f, l) == (std::ptrdiff_t)k, "distance"); std::vector<E> again; for (I q = f; q != l; ++q) again.push_back(*q); c.ok(again == x, "second pass");
		for (std::size_t a = 0; a <= k; ++a) { if (!c.ok(sprout::next(f, (std::ptrdiff_t)a) == pos[a], "next(n)")) return false; I t = f; sprout::advance(t, (std::ptrdiff_t)a); if (!c.ok(t == pos[a], "advance")) return false; }
		I u = f, v = l; swp(u, v, 0); c.ok(u == l && v == f, "swap"); u = v; c.ok(u == f, "assign"); if (k) { deref(c, u, x[0], "assign"); deref(c, v, x[0], "swap"); } return true; }
	template<class C, class I, class E> bool bwd(C& c, I const& f, I const& l, std::vector<E> const& x, std::vector<I> const& pos) {
		I i = l; for (std::size_t k = x.size(); k-- > 0; ) { I before = i; I j = i; I& r = --i; c.ok(&r == &i, "-- returns itself"); if (!c.ok(i == pos[k] && !(i != pos[k]), "--")) return false; if (!deref(c, i, x[k], "element after --")) return false; I old = j--; if (!c.ok(old == before && j == i, "post-decrement")) return false; if (!c.ok(sprout::prev(before) == i, "prev")) return false; deref(c, sprout::prev(before), x[k], "prev element"); I t = i; ++t; if (!c.ok(t == before, "-- then ++")) return false; }
		c.ok(i == f, "-- to begin"); for (std::size_t a = 0; a <= x.size(); ++a) if (!c.ok(sprout::prev(l, (std::ptrdiff_t)(x.size() - a)) == pos[a], "prev(n)")) return false; return true; }
	template<class C, class I, class E> void rac(C& c, std::vector<I> const& pos, std::vector<E> const& x, Cap cap) { std::ptrdiff_t n = (std::ptrdiff_t)x.size();
		for (std::ptrdiff_t a = 0; a <= n; ++a) for (std::ptrdiff_t b = 0; b <= n; ++b) { I const p = pos[a], q = pos[b]; if (!cap.back && a == n) continue; 
			if (!c.ok((p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b), "relational")) return; if (!c.ok((std::ptrdiff_t)(q - p) == b - a, "difference")) return; if (!(std::is_pointer<I>::value && b < a) && !c.ok((std::ptrdiff_t)sprout::distance(p, q) == b - a, "distance between positions")) return; std::ptrdiff_t d = b - a; I t = p + d; if (!c.ok(t == q, "+")) return; if (!c.ok(p - -d == q, "-")) return; if (!c.ok(d + p == q, "n + it")) return; I s = p; I& r = (s += d); if (!c.ok(&r == &s && s == q, "+=")) return; I m = p; m -= -d; if (!c.ok(m == q, "-=")) return; if (!c.ok(sprout::next(p, d) == q && sprout::prev(p, -d) == q, "next/prev(n)")) return; I ad = p; sprout::advance(ad, d); if (!c.ok(ad == q, "advance(n)")) return;
			if (b < n) { if (!c.ok(p[d] == x[b], "[]")) return; if (!c.ok(*t == x[b] && *s == x[b] && *m == x[b], "element after arithmetic")) return; if (t != pos[n]) { ++t; if (!c.ok(t == pos[b + 1], "arithmetic then ++")) return; } } if (b > 0 && (cap.back || b < n)) { I w = p + d; --w; if (!c.ok(w == pos[b - 1] && *w == x[b - 1], "arithmetic then --")) return; } } }
	template<class C, class I, class E> void go(C& c, I f, I l, std::vector<E> const& x, Cap, std::vector<I>& pos, std::forward_iterator_tag) { fwd(c, f, l, x, pos); }
	template<class C, class I, class E> void go(C& c, I f, I l, std::vector<E> const& x, Cap cap, std::vector<I>& pos, std::bidirectional_iterator_tag) { if (fwd(c, f, l, x, pos) && cap.back) bwd(c, f, l, x, pos); }
	template<class C, class I, class E> void go(C& c, I f, I l, std::vector<E> const& x, Cap cap, std::vector<I>& pos, std::random_access_iterator_tag) { if (!fwd(c, f, l, x, pos)) return; if (cap.back && !bwd(c, f, l, x, pos)) return; pos.back() = l; rac(c, pos, x, cap); }
	template<class C, class I, class E> void laws(C& c, I f, I l, std::vector<E> const& x, Cap cap = Cap()) { std::vector<I> pos; pos.reserve(x.size() + 1); try { go(c, f, l, x, cap, pos, typename std::iterator_traits<I>::iterator_category()); } catch (bounds_error const&) {} count("positions", pos.size()); }
	template<class I> std::string cat() { typedef typename std::iterator_traits<I>::iterator_category K; return std::is_base_of<Ra, K>::value ? "ra" : std::is_base_of<Bi, K>::value ? "bi" : std::is_base_of<Fw, K>::value ? "fw" : "in"; }
}
using namespace mon; typedef std::vector<int> V;
#define LAWS(NAME, F, L, X, ...) do { auto f_ = (F); decltype(f_) l_ = (L); MON_CASE(c_, std::string(NAME) + "/" + S::name(), v, ##__VA_ARGS__); laws(c_, f_, l_, X); } while (0)
