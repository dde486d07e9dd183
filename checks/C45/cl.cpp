// C45: sprout::forward_clist, an intrusive list of items the user owns, against a list of item numbers.
#include <mon.hpp>
#include <algorithm>
#include <memory>
#include <sprout/forward_clist.hpp>
#include <sprout/iterator.hpp>
#include <vector>
#include <list>
using namespace mon; typedef std::vector<long> W;
template<class T> T mk(long v); template<> int mk<int>(long v) { return (int)v; } template<> std::string mk<std::string>(long v) { return "a string that does not fit the small buffer " + std::to_string(v); } template<> double mk<double>(long v) { return v + .5; }
template<class T> struct M {
	typedef sprout::forward_clist<T> L; typedef typename L::item I; std::vector<std::unique_ptr<I> > own; std::vector<T> vals; L l[2]; W m[2];
	M(int n) { for (int i = 0; i < n; ++i) { vals.push_back(mk<T>(i)); own.emplace_back(new I(vals.back())); } }
	long id(T const& x) const { for (std::size_t i = 0; i < own.size(); ++i) if (sprout::addressof(own[i]->get()) == sprout::addressof(x)) return (long)i; return -1; }
	std::vector<long> spare() const { W f; for (std::size_t i = 0; i < own.size(); ++i) if (std::find(m[0].begin(), m[0].end(), (long)i) == m[0].end() && std::find(m[1].begin(), m[1].end(), (long)i) == m[1].end()) f.push_back((long)i); return f; }
	template<class C> void state(C& c, int k) { L& a = l[k]; L const& q = a; W g, h, f; std::size_t lim = own.size() + 2; for (auto i = a.begin(); i != a.end() && g.size() < lim; ++i) g.push_back(id(*i)); for (auto i = q.begin(); i != q.end() && h.size() < lim; i++) h.push_back(id(*i)); for (auto i = q.cbegin(); i != q.cend() && f.size() < lim; i = sprout::next(i)) f.push_back(id(*i));
		c.eq(g, m[k], "iteration"); c.eq(h, m[k], "const iteration"); c.eq(f, m[k], "cbegin"); c.ok(a.empty() == m[k].empty(), "empty"); c.ok(q.max_size() > own.size(), "max_size"); if (!m[k].empty()) c.ok(id(a.front()) == m[k][0] && id(q.front()) == m[k][0], "front"); c.ok(sprout::next(a.before_begin()) == a.begin() && sprout::next(q.before_begin()) == q.begin() && sprout::next(q.cbefore_begin()) == q.cbegin() && a.begin() == q.begin() && a.end() == q.end() && (a.begin() == a.end()) == m[k].empty(), "positions");
		if (!m[k].empty()) { auto i = a.begin(); c.ok(i.operator->() == sprout::addressof(*i), "->"); auto j = i; ++j; using std::swap; swap(i, j); c.ok(j == a.begin() && i == sprout::next(a.begin()), "swap of iterators"); typename L::const_iterator ci = j; c.ok(ci == j && !(ci != j), "const_iterator from iterator"); } }
	template<class C> void all(C& c) { state(c, 0); state(c, 1); for (std::size_t i = 0; i < own.size(); ++i) { c.ok(own[i]->get() == vals[i], "value of an item"); bool in = false, last = false; for (int k = 0; k < 2; ++k) { auto p = std::find(m[k].begin(), m[k].end(), (long)i); if (p != m[k].end()) { in = true; last = p + 1 == m[k].end(); } } c.ok(own[i]->is_linked() == (in && !last), "is_linked"); } }
	typename L::iterator at(int k, std::size_t p) { auto i = l[k].before_begin(); while (p--) ++i; return i; }	// 0: before the first
};
template<class I> struct RefIt { typename std::vector<std::reference_wrapper<I> >::iterator i; typedef std::forward_iterator_tag iterator_category; typedef I value_type; typedef std::ptrdiff_t difference_type; typedef I* pointer; typedef I& reference; I& operator*() const { return *i; } RefIt& operator++() { ++i; return *this; } bool operator!=(RefIt const& o) const { return i != o.i; } bool operator==(RefIt const& o) const { return i == o.i; } };
template<class T> void history() { for (std::uint64_t r = 0; r < reps(150); ++r) { M<T> a(1 + (int)rng().below(10)); typedef typename M<T>::L L; typedef typename M<T>::I I;
	for (int st = 0; st < 30; ++st) { int k = (int)rng().below(2); W f = a.spare(); W& m = a.m[k]; L& l = a.l[k]; unsigned op = (unsigned)rng().below(14); std::size_t p = rng().below(m.size() + 1), n = rng().below(f.size() + 1); for (std::size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[rng().below(i)]); f.resize(std::min(f.size(), std::max<std::size_t>(n, op < 2 || op == 4 ? 1 : 0))); W g(f.begin(), f.end()); std::vector<std::reference_wrapper<I> > ref; for (long i : g) ref.push_back(*a.own[i]); W before = m;
		MON_CASE(c, std::string("history op ") + std::to_string(op), before, a.m[1 - k], g, p);
		switch (op) {
		case 0: case 1: if (g.empty()) break; l.push_front(*a.own[g[0]]); m.insert(m.begin(), g[0]); break;
		case 2: if (m.empty()) break; l.pop_front(); m.erase(m.begin()); break;
		case 3: { std::vector<I*> q; switch (rng().below(4)) { case 0: l.push_front(RefIt<I>{ref.begin()}, RefIt<I>{ref.end()}); m.insert(m.begin(), g.begin(), g.end()); break; case 1: { auto it = l.insert_after(a.at(k, p), RefIt<I>{ref.begin()}, RefIt<I>{ref.end()}); m.insert(m.begin() + p, g.begin(), g.end()); c.ok(it == a.at(k, p + g.size()), "insert_after returns the last inserted"); break; } case 2: l.assign(RefIt<I>{ref.begin()}, RefIt<I>{ref.end()}); m = g; break; default: { if (!m.empty()) { l.clear(); m.clear(); } l = L(RefIt<I>{ref.begin()}, RefIt<I>{ref.end()}); m = g; } } break; }
		case 4: { if (g.empty()) break; auto it = l.insert_after(a.at(k, p), *a.own[g[0]]); m.insert(m.begin() + p, g[0]); c.ok(it == a.at(k, p + 1), "insert_after returns the inserted"); break; }
		case 5: { if (p == m.size()) break; auto it = l.erase_after(a.at(k, p)); m.erase(m.begin() + p); c.ok(p == m.size() ? it == l.end() : it == a.at(k, p + 1), "erase_after returns the next"); break; }
		case 6: { std::size_t e = p + rng().below(m.size() - p + 1); typename L::const_iterator last = e == m.size() ? l.end() : a.at(k, e + 1); auto it = l.erase_after(a.at(k, p), last); m.erase(m.begin() + p, m.begin() + e); c.ok(it == last, "erase_after returns last"); break; }
		case 7: a.l[0].swap(a.l[1]); std::swap(a.m[0], a.m[1]); break;
		case 8: l.clear(); m.clear(); break;
		case 9: { if (m.empty()) break; long x = m[rng().below(m.size())]; if (rng().coin()) { l.unlink(*a.own[x]); m.erase(std::find(m.begin(), m.end(), x)); break; } W xs; for (long y : m) if (rng().coin()) xs.push_back(y); for (std::size_t i = xs.size(); i > 1; --i) std::swap(xs[i - 1], xs[rng().below(i)]); std::vector<std::reference_wrapper<I> > xr; for (long y : xs) { xr.push_back(*a.own[y]); m.erase(std::find(m.begin(), m.end(), y)); } l.unlink(RefIt<I>{xr.begin()}, RefIt<I>{xr.end()}); break; }
		case 10: { if (f.empty()) break; l.unlink(*a.own[f[0]]); break; }	// not in the list
		case 11: { L t(std::move(l)); c.ok(l.empty(), "a moved-from list is empty"); W g2; for (auto& x : t) g2.push_back(a.id(x)); c.eq(g2, m, "move construction"); l = std::move(t); break; }
		case 12: { if (m.empty()) break; std::size_t i = rng().below(m.size()); T v = mk<T>((long)rng().below(99)); *a.at(k, i + 1) = v; a.vals[m[i]] = v; break; }
		default: { std::size_t i = rng().below(a.own.size()); T v = mk<T>((long)rng().below(99)); if (rng().coin()) *a.own[i] = v; else { T u = v; *a.own[i] = std::move(u); } a.vals[i] = v; c.ok(**a.own[i] == v && *a.own[i]->get_pointer() == v && a.own[i]->operator->() == a.own[i]->get_pointer() && L::item::get(*a.own[i]) == v, "assignment to an item"); break; }
		}
		a.all(c); count("list operations", 1); } } }
#if MON_PART(0)
MON_TEST(ints) { history<int>(); }
MON_TEST(doubles) { history<double>(); }
#endif
#if MON_PART(1)
MON_TEST(strings) { history<std::string>(); }
#endif
