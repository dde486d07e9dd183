// C16: histories over sprout::variant against an (index, value) model; the library's own assertion handler is hooked so that wrong-alternative access is observed.
#include <iostream>
#define SPROUT_ENABLE_ASSERT_HANDLER
#include <spr.hpp>
#include <sprout/variant.hpp>
#include <sprout/optional.hpp>
#include <sstream>
struct assert_hit {}; static int hits = 0;
namespace sprout { void assertion_failed(sprout::assertion_info const&) { ++hits; throw assert_hit(); } void assertion_failed_msg(sprout::assertion_info_msg const&) { ++hits; throw assert_hit(); } }
using namespace mon;
typedef sprout::variant<int, std::string, Tag, double> V;
struct M { int w; int i; std::string s; Tag t; double d; };
static bool eqt(Tag const& a, Tag const& b) { return a.key == b.key && a.id == b.id; }
struct Names : sprout::static_visitor<std::string> { int* calls; explicit Names(int* c) : calls(c) {} std::string operator()(int const& i) const { ++*calls; return "i" + std::to_string(i); } std::string operator()(std::string const& s) const { ++*calls; return "s" + s; } std::string operator()(Tag const& t) const { ++*calls; return "t" + std::to_string(t.key) + "," + std::to_string(t.id); } std::string operator()(double const& d) const { ++*calls; return "d" + std::to_string(d); } };
struct Inc : sprout::static_visitor<> { void operator()(int& i) const { i += 3; } void operator()(std::string& s) const { s += "!"; } void operator()(Tag& t) const { t.id += 3; } void operator()(double& d) const { d += 0.5; } };
struct Self : sprout::static_variant_visitor { template<class T> T operator()(T const& t) const { return t; } };
struct Plain { template<class T> long operator()(T const&) const { return (long)sizeof(T); } };
struct Cnt { int n; Cnt() : n(0) {} typedef int result_type; template<class T> int operator()(T const&) { return ++n; } };
static std::string name(M const& m) { return m.w == 0 ? "i" + std::to_string(m.i) : m.w == 1 ? "s" + m.s : m.w == 2 ? "t" + std::to_string(m.t.key) + "," + std::to_string(m.t.id) : "d" + std::to_string(m.d); }
template<class C> void state(C& c, V& v, M const& m, char const* w) {
	V const& k = v; c.eq(v.which(), m.w, w); c.ok(!v.empty(), "never empty"); if (v.which() != m.w) return;
	auto wrong = [&](std::function<void()> f, char const* what) { int h = hits; bool t = false; try { f(); } catch (assert_hit const&) { t = true; } c.ok(t && hits == h + 1, what); };
	if (m.w == 0) { int* p = &v.get_at<0>(); c.ok(*p == m.i && &v.get<int>() == p && &k.get<int>() == p && &k.get_at<0>() == p && &sprout::get<int>(v) == p && &sprout::get<int>(k) == p && &sprout::tuples::get<0>(v) == p && &sprout::tuples::get<0>(k) == p, w); } else { wrong([&] { (void)v.get<int>(); }, "get<int> of another"); wrong([&] { (void)k.get_at<0>(); }, "get_at<0> of another"); wrong([&] { (void)sprout::get<int>(k); }, "free get<int> of another"); }
	if (m.w == 1) { std::string* p = &v.get_at<1>(); c.ok(*p == m.s && &v.get<std::string>() == p && &k.get<std::string>() == p && &k.get_at<1>() == p && &sprout::get<std::string>(v) == p && &sprout::tuples::get<1>(k) == p, w); std::string mv = sprout::tuples::get<1>(V(k)); c.eq(mv, m.s, "get of rvalue"); } else { wrong([&] { (void)k.get<std::string>(); }, "get<string> of another"); wrong([&] { (void)v.get_at<1>(); }, "get_at<1> of another"); }
	if (m.w == 2) c.ok(eqt(v.get<Tag>(), m.t) && eqt(k.get_at<2>(), m.t) && eqt(sprout::get<Tag>(k), m.t), w); else { wrong([&] { (void)k.get<Tag>(); }, "get<Tag> of another"); }
	if (m.w == 3) c.ok(v.get<double>() == m.d && k.get_at<3>() == m.d && sprout::get<double>(v) == m.d, w); else { wrong([&] { (void)v.get<double>(); }, "get<double> of another"); wrong([&] { (void)k.get_at<3>(); }, "get_at<3> of another"); }
	int calls = 0; c.eq(v.apply_visitor(Names(&calls)), name(m), "visitor on mutable"); c.eq(k.apply_visitor(Names(&calls)), name(m), "visitor on const"); Names nv(&calls); c.eq(sprout::apply_visitor(nv, k), name(m), "apply_visitor"); c.eq(sprout::apply_visitor(nv, v), name(m), "apply_visitor mutable"); c.eq(sprout::apply_visitor(nv, V(k)), name(m), "apply_visitor rvalue"); Names const cn(&calls); c.eq(sprout::apply_visitor(sprout::as_visitor(cn), k), name(m), "as_visitor"); c.eq(calls, 6, "each application calls the visitor exactly once"); Cnt cc; sprout::apply_visitor(cc, k); sprout::apply_visitor(sprout::as_visitor(cc), k); c.eq(cc.n, 2, "visitor state is kept");
	c.eq(sprout::apply_visitor(Plain(), k), (long)(m.w == 0 ? sizeof(int) : m.w == 1 ? sizeof(std::string) : m.w == 2 ? sizeof(Tag) : sizeof(double)), "visitor without result_type"); V back = sprout::apply_visitor(Self(), k); c.ok(back == k, "static_variant_visitor returns the alternative"); Self se; V back2 = sprout::apply_visitor(sprout::as_variant_visitor(se), k); c.ok(back2 == k, "as_variant_visitor");
}
static M mk(int w, int i) { M m; m.w = w; m.i = w == 0 ? i : 0; m.s = w == 1 ? std::string(i + 10, 'q') : ""; m.t = w == 2 ? Tag(i, 2 * i) : Tag(); m.d = w == 3 ? i * 0.25 : 0; return m; }
static V sv(M const& m) { return m.w == 0 ? V(m.i) : m.w == 1 ? V(m.s) : m.w == 2 ? V(m.t) : V(m.d); }
static int ord(M const& a, M const& b) { if (a.w != b.w) return a.w < b.w ? -1 : 1; switch (a.w) { case 0: return a.i < b.i ? -1 : b.i < a.i; case 1: return a.s < b.s ? -1 : b.s < a.s; case 2: return a.t < b.t ? -1 : b.t < a.t; default: return a.d < b.d ? -1 : b.d < a.d; } }
template<class C> void cmp(C& c, V const& a, M const& x, V const& b, M const& y) { int o = ord(x, y); bool e = x.w == y.w && (x.w == 0 ? x.i == y.i : x.w == 1 ? x.s == y.s : x.w == 2 ? x.t == y.t : x.d == y.d); c.ok((a == b) == e && (a != b) == !e, "== and !="); c.ok((a < b) == (o < 0) && (a > b) == (o > 0) && (a <= b) == (o <= 0) && (a >= b) == (o >= 0), "ordering"); }
MON_TEST(hist) { for (std::uint64_t r = 0; r < reps(150); ++r) { V a, b; M x = mk(0, 0), y = mk(0, 0);
	for (int s = 0; s < 10; ++s) { unsigned op = (unsigned)rng().below(13); int i = (int)rng().range(-3, 3), w = (int)rng().below(4); M n = mk(w, i); MON_CASE(c, "op" + std::to_string(op), r, s, i, w, x.w, y.w);
		switch (op) { case 0: a = sv(n); x = n; break; case 1: { V t = sv(n); a = t; x = n; break; } case 2: { V const t = sv(n); a = t; x = n; break; } case 3: if (w == 0) { a = n.i; } else if (w == 1) { a = n.s; } else if (w == 2) { a = n.t; } else { a = n.d; } x = n; break; case 4: if (w == 0) { a = int(n.i); } else if (w == 1) { a = std::string(n.s); } else if (w == 2) { a = Tag(n.t); } else { a = double(n.d); } x = n; break;
		case 5: a.swap(b); std::swap(x, y); break; case 6: { using sprout::swap; swap(a, b); std::swap(x, y); break; } case 7: a = b; x = y; break; case 8: b = static_cast<V const&>(a); y = x; break; case 9: sprout::apply_visitor(Inc(), a); if (x.w == 0) x.i += 3; else if (x.w == 1) x.s += "!"; else if (x.w == 2) x.t.id += 3; else x.d += 0.5; break; case 10: if (x.w == 1) { a.get<std::string>() = n.s; x.s = n.s; } else if (x.w == 0) { sprout::get<int>(a) = 41; x.i = 41; } else if (x.w == 3) { a.get_at<3>() = 1.5; x.d = 1.5; } break; case 11: { V& ra = a; a = ra; break; } case 12: b = V(); y = mk(0, 0); break; }
		state(c, a, x, "after the operation"); state(c, b, y, "the other one"); V cp(a); state(c, cp, x, "copy"); V const ck(cp); V c2(ck); state(c, c2, x, "copy of const"); V mo((V(a))); state(c, mo, x, "move"); cmp(c, a, x, b, y); cmp(c, b, y, a, x); cmp(c, a, x, cp, x); std::ostringstream os, ws; } } }
typedef sprout::variant<int, long, sprout::optional<int>, int> W;
MON_TEST(hash_io) { for (std::uint64_t r = 0; r < reps(80); ++r) { int i = (int)rng().range(-5, 5); MON_CASE(c, "hash/stream", i); typedef sprout::variant<int, long, unsigned char> H; H a(i), b((long)i), d((unsigned char)(i & 15)); H a2; a2 = b; a2 = a; c.ok(a2 == a && sprout::to_hash(a2) == sprout::to_hash(a) && std::hash<H>()(a) == sprout::to_hash(a2), "equal variants hash equally after different histories"); H d2; d2 = (unsigned char)(i & 15); c.ok(d2 == d && sprout::to_hash(d2) == sprout::to_hash(d), "equal variants hash equally"); c.ok(a != b && a < b && b < d, "different alternatives differ");
	std::ostringstream o; o << sprout::variant<int, std::string>(i); c.eq(o.str(), std::to_string(i), "stream int"); std::ostringstream o2; o2 << sprout::variant<int, std::string>(std::string(i + 6, 'k')); c.eq(o2.str(), std::string(i + 6, 'k'), "stream string"); std::wostringstream o3; o3 << sprout::variant<char, int>(i); c.ok(o3.str() == std::to_wstring(i), "wide stream"); } }
MON_TEST(optional_asserts) { for (std::uint64_t r = 0; r < 4; ++r) { MON_CASE(c, "constness and single", r); typedef sprout::variant<std::string> S; S s; c.ok(s.which() == 0 && s.get<std::string>().empty(), "default"); s = std::string("x"); c.eq(s.get<std::string>(), std::string("x"), "assign"); S const t(s); c.ok(t == s, "copy"); c.ok(std::tuple_size<V>::value == 4 && std::is_same<std::tuple_element<1, V>::type, std::string>::value, "tuple traits"); } }
