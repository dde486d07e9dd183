// C15: histories over sprout::optional<T> (values and references) against a (flag, value) model.
#include <iostream>
#define SPROUT_ENABLE_ASSERT_HANDLER
#include <spr.hpp>
#include <sprout/optional.hpp>
#include <sprout/optional/hash.hpp>
#include <sprout/optional/io.hpp>
#include <sstream>
struct assert_hit {}; static int hits = 0;
namespace sprout { void assertion_failed(sprout::assertion_info const&) { ++hits; throw assert_hit(); } void assertion_failed_msg(sprout::assertion_info_msg const&) { ++hits; throw assert_hit(); } }
using namespace mon;
template<class T> struct Mk; 
template<> struct Mk<int> { static int f(int i) { return i; } static char const* n() { return "int"; } };
template<> struct Mk<std::string> { static std::string f(int i) { return std::string(i + 12, 'a') + std::to_string(i); } static char const* n() { return "string"; } };
template<> struct Mk<long> { static long f(int i) { return i; } static char const* n() { return "long"; } };
template<> struct Mk<Tag> { static Tag f(int i) { return Tag(i, i + 1); } static char const* n() { return "Tag"; } };
static bool same_(Tag const& a, Tag const& b) { return a.key == b.key && a.id == b.id; }
template<class T> bool same_(T const& a, T const& b) { return a == b; }
template<class T> struct M { bool on; T v; };
template<class C, class T> void state(C& c, sprout::optional<T>& o, M<T> const& m, char const* w) {
	typedef sprout::optional<T> O; O const& k = o; c.ok(o.is_initialized() == m.on && bool(o) == m.on && !o == !m.on && (o ? true : false) == m.on, w); c.ok(k.size() == (m.on ? 1u : 0u) && k.empty() == !m.on && k.max_size() == k.size(), "size/empty"); if (o.is_initialized() != m.on) return;
	T fb = Mk<T>::f(77); T const cfb = Mk<T>::f(78); std::vector<T> it(o.begin(), o.end()), ci(k.begin(), k.end()), cc(k.cbegin(), k.cend()), ri(o.rbegin(), o.rend()), cr(k.rbegin(), k.rend()), crc(k.crbegin(), k.crend()); std::size_t n = m.on ? 1 : 0; c.ok(it.size() == n && ci.size() == n && cc.size() == n && ri.size() == n && cr.size() == n && crc.size() == n, "iteration length");
	if (m.on) { T* p = &*o; c.ok(same_(*k, m.v) && same_(*o, m.v), w); c.ok(&*k == p && o.operator->() == p && k.operator->() == p && o.get_pointer() == p && k.get_pointer() == p && o.get_ptr() == p && k.get_ptr() == p && &o.get() == p && &k.get() == p && &o.value() == p && &k.value() == p, "all accesses reach the stored object"); c.ok(&o.value_or(fb) == p && &k.value_or(cfb) == p && &o.get_value_or(fb) == p && &k.get_value_or(cfb) == p, "value_or");
		c.ok(&o[0] == p && &k[0] == p && &o.at(0) == p && &k.at(0) == p && &o.front() == p && &k.front() == p && &o.back() == p && &k.back() == p, "element access"); throws<std::out_of_range>(c, [&] { (void)o.at(1); }, "at(1)"); throws<std::out_of_range>(c, [&] { (void)k.at(1); }, "const at(1)"); c.ok(&*o.begin() == p && same_(it[0], m.v) && same_(ci[0], m.v) && same_(cc[0], m.v) && same_(ri[0], m.v) && same_(cr[0], m.v) && same_(crc[0], m.v), "iteration value"); o.rangecheck(0); throws<std::out_of_range>(c, [&] { k.rangecheck(1); }, "rangecheck");
		c.ok(&sprout::get(o) == p && &sprout::get(k) == p && sprout::get(&o) == p && sprout::get(&k) == p && sprout::get_pointer(o) == p && sprout::get_pointer(k) == p && &sprout::get_value_or(o, fb) == p && &sprout::get_value_or(k, cfb) == p, "free get functions"); O t(o); T mv = sprout::get(std::move(t)); c.ok(same_(mv, m.v), "get(rvalue)"); O t2(o); T mv2 = sprout::get_value_or(std::move(t2), Mk<T>::f(5)); c.ok(same_(mv2, m.v), "get_value_or(rvalue)"); }
	else { c.ok(o.get_pointer() == nullptr && k.get_pointer() == nullptr && o.get_ptr() == nullptr && k.get_ptr() == nullptr, "get_pointer of empty is null"); c.ok(sprout::get_pointer(o) == nullptr && sprout::get_pointer(k) == nullptr && sprout::get(&o) == nullptr && sprout::get(&k) == nullptr, "free get_pointer of empty is null"); throws<sprout::bad_optional_access>(c, [&] { (void)o.get(); }); throws<sprout::bad_optional_access>(c, [&] { (void)k.get(); }); throws<sprout::bad_optional_access>(c, [&] { (void)o.value(); }); throws<sprout::bad_optional_access>(c, [&] { (void)k.value(); }); throws<std::logic_error>(c, [&] { (void)k.value(); }); throws<assert_hit>(c, [&] { (void)*o; }, "*empty trips the assertion"); throws<assert_hit>(c, [&] { (void)*k; }, "*empty trips the assertion"); throws<assert_hit>(c, [&] { (void)o.operator->(); }, "empty-> trips the assertion"); throws<assert_hit>(c, [&] { (void)k.operator->(); }, "empty-> trips the assertion");
		c.ok(&o.value_or(fb) == &fb && &k.value_or(cfb) == &cfb && &o.get_value_or(fb) == &fb && &k.get_value_or(cfb) == &cfb && &sprout::get_value_or(o, fb) == &fb && &sprout::get_value_or(k, cfb) == &cfb, "fallback"); T mv2 = sprout::get_value_or(O(), Mk<T>::f(5)); c.ok(same_(mv2, Mk<T>::f(5)), "fallback(rvalue)"); throws<std::out_of_range>(c, [&] { (void)o.at(0); }, "at(0)"); throws<std::out_of_range>(c, [&] { (void)k.at(0); }, "at(0)"); throws<std::out_of_range>(c, [&] { k.rangecheck(0); }, "rangecheck"); }
	c.ok((k == sprout::nullopt) == !m.on && (sprout::nullopt == k) == !m.on && (k != sprout::nullopt) == m.on && (sprout::nullopt != k) == m.on && !(k < sprout::nullopt) && (sprout::nullopt < k) == m.on && (k > sprout::nullopt) == m.on && !(sprout::nullopt > k) && (k <= sprout::nullopt) == !m.on && (sprout::nullopt <= k) && (k >= sprout::nullopt) && (sprout::nullopt >= k) == !m.on, "comparison with nullopt");
}
template<class C, class T> void cmp(C& c, sprout::optional<T> const& a, M<T> const& x, sprout::optional<T> const& b, M<T> const& y) { bool e = x.on == y.on && (!x.on || x.v == y.v), l = y.on && (!x.on || x.v < y.v), g = x.on && (!y.on || y.v < x.v); c.ok((a == b) == e && (a != b) == !e && (a < b) == l && (a > b) == g && (a <= b) == !g && (a >= b) == !l, "comparison"); }
static void hsh(...) {}
template<class T> void hist() {
	typedef sprout::optional<T> O;
	for (std::uint64_t r = 0; r < reps(40); ++r) { O o, q; M<T> m = {false, T()}, n = {false, T()};
		for (int s = 0; s < 12; ++s) { unsigned op = (unsigned)rng().below(22); int i = (int)rng().range(0, 3); T v = Mk<T>::f(i); MON_CASE(c, std::string(Mk<T>::n()) + " op" + std::to_string(op), r, s, i, m.on, n.on);
			switch (op) {
			case 0: o = sprout::nullopt; m.on = false; break; case 1: o = v; m = M<T>{true, v}; break; case 2: o = Mk<T>::f(i); m = M<T>{true, v}; break; case 3: o = q; m = n; break; case 4: o = O(q); m = n; break; case 5: o.swap(q); std::swap(m, n); break; case 6: { using sprout::swap; swap(o, q); std::swap(m, n); break; }
			case 7: o.reset(); m.on = false; break; case 8: o.reset(sprout::nullopt); m.on = false; break; case 9: o.reset(v); m = M<T>{true, v}; break; case 10: o.emplace(v); m = M<T>{true, v}; break; case 11: o.assign(v); m = M<T>{true, v}; break; case 12: o.assign(q); m = n; break; case 13: o.assign(sprout::nullopt); m.on = false; break;
			case 14: o = O(true, v); m = M<T>{true, v}; break; case 15: o = O(false, v); m.on = false; break; case 16: o = sprout::make_optional(v); m = M<T>{true, v}; break; case 17: { bool b = rng().coin(); o = sprout::make_optional(b, v); m = M<T>{b, b ? v : m.v}; break; } case 18: if (m.on) { *o = v; m.v = v; } break; case 19: if (m.on) { o.get() = v; m.v = v; } break; case 20: { O& rr = o; o = rr; break; } case 21: o = O(sprout::in_place, v); m = M<T>{true, v}; break; }
			state(c, o, m, "after the operation"); state(c, q, n, "the other one"); cmp(c, o, m, q, n); cmp(c, q, n, o, m); cmp(c, o, m, o, m); O cp(o); state(c, cp, m, "copy"); O mo((O(o))); state(c, mo, m, "move"); cmp(c, o, m, cp, m); } }
}
template<class T> void hashes() { for (int i = -3; i < 5; ++i) { T v = Mk<T>::f(i + 3); MON_CASE(c, std::string(Mk<T>::n()) + " hash", i); sprout::optional<T> a(v), b, e, f; b = v; f = v; f.reset(); c.ok(sprout::to_hash(a) == sprout::to_hash(b) && std::hash<sprout::optional<T> >()(a) == sprout::to_hash(b), "equal engaged"); c.ok(sprout::to_hash(e) == sprout::to_hash(f) && e == f, "equal disengaged"); } }
#if MON_PART(0)
MON_TEST(hist_int) { hist<int>(); hashes<int>(); }
MON_TEST(hist_string) { hist<std::string>(); }
#endif
#if MON_PART(1)
MON_TEST(hist_tag) { hist<Tag>(); }
MON_TEST(convert) { for (std::uint64_t r = 0; r < reps(40); ++r) { int i = (int)rng().range(-50, 50); bool on = rng().coin(); MON_CASE(c, "convert", i, on); sprout::optional<int> s(on, i); M<long> m = {on, i}; sprout::optional<long> a(s); state(c, a, m, "ctor const&"); sprout::optional<long> b((sprout::optional<int>(s))); state(c, b, m, "ctor &&"); sprout::optional<long> d(99L); d = s; state(c, d, m, "assign const&"); sprout::optional<long> e(99L); e = sprout::optional<int>(s); state(c, e, m, "assign &&"); sprout::optional<long> f; f = i; M<long> mi = {true, i}; state(c, f, mi, "assign U"); sprout::optional<long> g(98L); g.assign(s); state(c, g, m, "assign()"); sprout::optional<std::string> h(sprout::in_place, (std::size_t)(i & 7), 'x'); M<std::string> ms = {true, std::string(i & 7, 'x')}; state(c, h, ms, "in_place args"); h.emplace((std::size_t)3, 'y'); ms.v = "yyy"; state(c, h, ms, "emplace args"); h = "lit"; ms.v = "lit"; state(c, h, ms, "assign literal"); h.reset("other"); ms.v = "other"; state(c, h, ms, "reset(U)"); sprout::optional<std::vector<int> > il(sprout::in_place, {i, 2, 3}); c.ok(il && *il == (std::vector<int>{i, 2, 3}), "in_place initializer_list"); il.emplace({4, i}); c.ok(il && *il == (std::vector<int>{4, i}), "emplace initializer_list"); } }
MON_TEST(refs) { for (std::uint64_t r = 0; r < reps(60); ++r) { int x = (int)rng().range(-9, 9), y = (int)rng().range(-9, 9); unsigned op = (unsigned)rng().below(6); MON_CASE(c, "reference", x, y, op); typedef sprout::optional<int&> O; int const x0 = x, y0 = y; O a(x), b(y), e; int* pa = &x; c.ok(a && b && !e, "engaged"); c.ok(&*a == &x && &a.get() == &x && a.get_pointer() == &x && &*b == &y && e.get_pointer() == nullptr, "identity"); O cp(a); c.ok(&*cp == &x, "copy identity"); 
	switch (op) { case 0: a = b; pa = &y; break; case 1: a.swap(b); pa = &y; break; case 2: a = sprout::nullopt; pa = nullptr; break; case 3: a = e; pa = nullptr; break; case 4: a.reset(); pa = nullptr; break; case 5: a = O(b); pa = &y; break; }
	c.ok(x == x0 && y == y0, "the objects are not assigned"); c.ok(a.get_pointer() == pa && bool(a) == (pa != nullptr), "identity after"); if (pa) { *a = 55; c.ok(*pa == 55, "write through"); c.ok(pa == &x ? y == y0 : x == x0, "only it"); } O const k(y); c.ok(&*k == &y && &k.value() == &y && &k.value_or(x) == &y && k.get_pointer() == &y, "const identity"); throws<sprout::bad_optional_access>(c, [&] { (void)e.get(); }); sprout::optional<int const&> cr(x); c.ok(&*cr == &x, "const ref identity"); } }
template<class T, class G> void keyed(char const* nm, G g) { for (std::uint64_t r = 0; r < reps(150); ++r) { M<T> x = {rng().below(4) != 0, g()}, y = {rng().below(4) != 0, g()}; MON_CASE(c, nm, x.on, y.on, x.v, y.v); sprout::optional<T> a(x.on, x.v), b(y.on, y.v); bool e = x.on == y.on && (!x.on || x.v == y.v), l = y.on && (!x.on || x.v < y.v), g2 = x.on && (!y.on || y.v < x.v); c.ok((a == b) == e && (a != b) == !e && (a < b) == l && (a > b) == g2 && (a <= b) == !g2 && (a >= b) == !l, "comparison"); } }
MON_TEST(keys) { keyed<Fine>("keys", [] { return Fine((int)rng().below(2), (int)rng().below(3)); }); keyed<double>("NaN", [] { return rng().below(4) == 0 ? std::numeric_limits<double>::quiet_NaN() : (double)rng().range(-1, 1); }); }
MON_TEST(stream) { for (std::uint64_t r = 0; r < reps(60); ++r) { int i = (int)rng().range(-999, 999), was = (int)rng().range(1, 9); bool on = rng().coin(), won = rng().coin(); MON_CASE(c, "stream", i, on, was, won); sprout::optional<int> o(on, i); M<int> m = {on, i}; std::ostringstream s; s << o; c.eq(s.str(), on ? " " + std::to_string(i) : std::string("--"), "output"); std::istringstream in(s.str() + ";"); sprout::optional<int> q(won, was); in >> q; c.ok(!in.fail(), "read"); state(c, q, m, "round trip"); c.ok(in.get() == ';', "position"); 
	for (char const* bad : {"", "x", "-x", "- ", "-", "1"}) { std::istringstream bi(bad); sprout::optional<int> z(won, was); M<int> mz = {won, was}; bi >> z; c.ok(bi.fail(), "malformed text sets failbit"); state(c, z, mz, "malformed text leaves the optional alone"); } for (char const* bad : {" ", " x", " -"}) { std::istringstream bi(bad); sprout::optional<int> z(won, was); bi >> z; c.ok(bi.fail(), "unreadable value sets failbit"); M<int> mz = {won, was}; state(c, z, mz, "unreadable value leaves the optional alone"); } std::wostringstream ws; ws << o; c.ok(ws.str() == (on ? L" " + std::to_wstring(i) : std::wstring(L"--")), "wide output"); std::wistringstream wi(ws.str()); wi >> q; state(c, q, m, "wide round trip"); } }
#endif
