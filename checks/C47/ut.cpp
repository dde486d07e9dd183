// C47: utility: conditional loops, saturating arithmetic, observer pointers, holders, comparison of pointees.
#include <mon.hpp>
#include <cmath>
#include <limits>
#include <memory>
#include <sstream>
#include <sprout/utility.hpp>
#include <sprout/utility/compare_pointees.hpp>
#include <sprout/utility/limited.hpp>
#include <sprout/utility/value_holder.hpp>
#include <sprout/utility/until_loop.hpp>
#include <sprout/utility/while_loop.hpp>
#include <sprout/utility/exchange.hpp>
#include <sprout/utility/dyn_cast.hpp>
#include <sprout/utility/rel_ops.hpp>
#include <sprout/memory.hpp>
#include <sprout/functional.hpp>
#include <sprout/optional.hpp>
#include <sprout/utility/value_holder.hpp>
using namespace mon;
#if MON_PART(0)
template<class T> struct Step { T k; std::size_t* n; T operator()(T const& x) const { ++*n; return x + k; } }; template<class T> struct Below { T lim; std::size_t* past; bool operator()(T const& x) const { return x < lim; } };
template<class T> struct AtLeast { T lim; bool operator()(T const& x) const { return !(x < lim); } };
MON_TEST(loops) { for (std::uint64_t i = 0; i < reps(3000); ++i) { long a = rng().range(-20, 20), k = rng().range(1, 9), lim = i < 200 ? a + k * (long)(i) + rng().range(0, k - 1) : rng().range(-30, 400); MON_CASE(c, "while_loop", a, k, lim); std::size_t n = 0, steps = 0, z = 0; long w = a; while (w < lim) { w += k; ++steps; } count("loops", 1);
	c.ok(sprout::while_loop(a, Below<long>{lim, &z}, Step<long>{k, &n}) == w, "while_loop"); c.ok(n == steps, "steps of while_loop"); n = 0; c.ok(sprout::flat_while_loop(a, Below<long>{lim, &z}, Step<long>{k, &n}) == w && n == steps, "flat_while_loop"); n = 0; c.ok(sprout::until_loop(a, AtLeast<long>{lim}, Step<long>{k, &n}) == w, "until_loop"); c.ok(n == steps, "steps of until_loop"); n = 0; c.ok(sprout::flat_until_loop(a, AtLeast<long>{lim}, Step<long>{k, &n}) == w && n == steps, "flat_until_loop"); }
	for (int L = 0; L < 40; ++L) { MON_CASE(c, "loops over texts", L); std::size_t n = 0; std::string w(std::size_t(L), 'x'); struct P { std::size_t l; bool operator()(std::string const& s) const { return s.size() < l; } }; struct U { std::size_t* n; std::string operator()(std::string const& s) const { ++*n; return s + "x"; } }; struct Q { std::size_t l; bool operator()(std::string const& s) const { return s.size() >= l; } }; c.ok(sprout::while_loop(std::string(), P{(std::size_t)L}, U{&n}) == w && n == (std::size_t)L, "while_loop"); n = 0; c.ok(sprout::until_loop(std::string(), Q{(std::size_t)L}, U{&n}) == w && n == (std::size_t)L, "until_loop"); } }
template<class T> T val() { typedef std::numeric_limits<T> L; switch (rng().below(6)) { case 0: return (T)(L::max() - (T)rng().below(4)); case 1: return (T)(L::lowest() + (T)rng().below(4)); case 2: return (T)rng().below(8); case 3: return (T)(L::is_signed ? -(long)rng().below(8) : (long)rng().below(8)); case 4: { int b = (int)rng().below(L::digits); return (T)(((std::uint64_t)1 << b) + rng().below(3) - 1); } default: { std::uint64_t x = rng()() >> rng().below(64); return (T)x; } } }
template<class A, class B> void sat(std::uint64_t k) { typedef decltype(A() + B()) R; typedef __int128 W; W mx = std::numeric_limits<R>::max(), mn = std::numeric_limits<R>::min(); for (std::uint64_t i = 0; i < reps(k); ++i) { A a = val<A>(); B b = val<B>(); MON_CASE(c, "saturating arithmetic", (long long)a, (long long)b, std::is_signed<R>::value, sizeof(R)); count("saturating operations", 2); W p, s; s = (W)a + (W)b; bool ov = __builtin_mul_overflow((W)a, (W)b, &p); (void)ov; W sw = s > mx ? mx : s < mn ? mn : s, pw = p > mx ? mx : p < mn ? mn : p; c.ok((W)sprout::limited::plus(a, b) == sw, "limited::plus"); c.ok((W)sprout::limited::multiplies(a, b) == pw, "limited::multiplies"); } }
template<class T> void satf() { T const big = std::numeric_limits<T>::max(); for (std::uint64_t i = 0; i < reps(4000); ++i) { T a = std::ldexp((T)(rng().unit() * 2 - 1), (int)rng().range(-80, std::numeric_limits<T>::max_exponent)), b = std::ldexp((T)(rng().unit() * 2 - 1), (int)rng().range(-80, std::numeric_limits<T>::max_exponent)); if (rng().coin(1, 8)) a = rng().coin() ? big : -big; if (rng().coin(1, 8)) b = rng().coin() ? big : -big; MON_CASE(c, "saturating floating point", (double)a, (double)b, sizeof(T)); count("saturating operations", 2); __float128 m = big, e = (__float128)1e-6, s = (__float128)a + b, p = (__float128)a * b; auto judge = [&](T g, __float128 w, T plain, char const* what) { if (w > m * (1 + e)) c.ok(g == big, what); else if (w < -m * (1 + e)) c.ok(g == -big, what); else if (w < m * (1 - e) && w > -m * (1 - e)) c.ok(g == plain, what); else c.ok(std::abs(g) >= big * (T)(1 - 1e-5), what); }; judge(sprout::limited::plus(a, b), s, a + b, "limited::plus"); judge(sprout::limited::multiplies(a, b), p, a * b, "limited::multiplies"); } }
MON_TEST(saturating) { sat<int, int>(8000); sat<long, long>(8000); sat<int, long>(4000); sat<long, short>(4000); sat<short, short>(2000); sat<unsigned, unsigned>(5000); sat<signed char, int>(3000); satf<double>(); satf<float>(); { for (int a = -128; a < 128; ++a) for (int b = -128; b < 128; ++b) { MON_CASE(c, "small saturating", a, b); c.ok(sprout::limited::plus((signed char)a, (signed char)b) == a + b && sprout::limited::multiplies((signed char)a, (signed char)b) == a * b, "char operands do not overflow int"); } }
	for (std::uint64_t i = 0; i < reps(4000); ++i) { unsigned long a = val<unsigned long>(), b = val<unsigned long>(); MON_CASE(c, "saturating unsigned long", a, b); unsigned __int128 s = (unsigned __int128)a + b, p = (unsigned __int128)a * b; c.ok(sprout::limited::plus(a, b) == (s >> 64 ? ~0ul : (unsigned long)s), "limited::plus"); c.ok(sprout::limited::multiplies(a, b) == (p >> 64 ? ~0ul : (unsigned long)p), "limited::multiplies"); } }
#endif
#if MON_PART(1)
struct Ba { long x; virtual ~Ba() {} Ba(long v = 0) : x(v) {} }; struct De : Ba { long y; De(long v = 0) : Ba(v), y(~v) {} }; struct Ot { long z[3]; virtual ~Ot() {} }; struct Two : Ot, De { Two(long v = 0) : De(v) {} };
MON_TEST(observer) { for (std::uint64_t r = 0; r < reps(300); ++r) { long n = 1 + (long)rng().below(20); std::vector<long> v((std::size_t)n); for (auto& x : v) x = (long)rng().below(1000); long* B = v.data(); sprout::exempt_ptr<long> p, q(nullptr); long i = -1, j = -1; {MON_CASE(c, "null pointers", n); c.ok(!p && !q && p == nullptr && nullptr == q && !(p != nullptr) && !(nullptr != p) && p.get() == nullptr && p == q && !(p < q) && p <= q && p >= q && !(p > q) && !(p < nullptr) && !(nullptr < p) && p <= nullptr && nullptr >= p && p >= nullptr && nullptr <= p && !(p > nullptr) && !(nullptr > p), "null");}
	for (int st = 0; st < 25; ++st) { unsigned op = (unsigned)rng().below(14); long t = (long)rng().below((std::uint64_t)n); MON_CASE(c, "observer pointer op", op, i, j, t, n); count("pointer operations", 1);
		switch (op) { case 0: p.reset(B + t); i = t; break; case 1: p = B + t; i = t; break; case 2: p = nullptr; i = -1; break; case 3: { long* o = p.release(); c.ok(i < 0 ? !o : o == B + i, "release"); i = -1; break; } case 4: { using std::swap; if (rng().coin()) p.swap(q); else swap(p, q); std::swap(i, j); break; } case 5: q = sprout::make_exempt(B + t); j = t; break; case 6: q = p; j = i; break; case 7: if (i >= 0 && i + 1 < n) { ++i; if (rng().coin()) { auto& s = ++p; c.ok(&s == &p, "++"); } else { auto s = p++; c.ok(s.get() == B + i - 1, "++ after"); } } break; case 8: if (i > 0) { --i; if (rng().coin()) { auto& s = --p; c.ok(&s == &p, "--"); } else { auto s = p--; c.ok(s.get() == B + i + 1, "-- after"); } } break; case 9: if (i >= 0) { c.ok((p + (t - i)).get() == B + t && ((t - i) + p).get() == B + t && (p - (i - t)).get() == B + t && (+p).get() == B + i, "+ -"); c.ok(&p[t - i] == B + t, "[]"); sprout::exempt_ptr<long> const k = p; c.ok(&k[t - i] == B + t, "[] const"); } break; case 10: p.reset(); i = -1; break; case 11: { sprout::exempt_ptr<long const> k = p; c.ok(k == p && p == k && k.get() == p.get() && (i < 0) == !k, "to pointer to const"); k = q; c.ok(k == q, "assignment"); break; } case 12: q = sprout::make_observer(B + t); j = t; break; default: { sprout::observer_ptr<long> o(p); q = o; j = i; } }
		c.ok(p.get() == (i < 0 ? nullptr : B + i) && q.get() == (j < 0 ? nullptr : B + j), "get"); c.ok(static_cast<bool>(p) == (i >= 0) && (p == nullptr) == (i < 0) && (p != nullptr) == (i >= 0) && static_cast<long*>(p) == p.get(), "conversions"); c.ok((p == q) == (i == j) && (p != q) == (i != j), "=="); if (i >= 0) c.ok(&*p == B + i && p.operator->() == B + i && *p == v[(std::size_t)i], "*"); if ((i >= 0) == (j >= 0)) { c.ok((p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "<"); if (i >= 0) c.ok(p - q == i - j, "-"); } if (i >= 0) c.ok(nullptr < p && p > nullptr && !(p < nullptr) && !(p <= nullptr) && p >= nullptr && nullptr <= p && !(nullptr > p) && !(nullptr >= p), "< null");
		c.ok(sprout::hash<sprout::exempt_ptr<long> >()(p) == sprout::to_hash(p.get()) && std::hash<sprout::exempt_ptr<long> >()(p) == sprout::to_hash(p.get()) && (i != j || sprout::to_hash(p) == sprout::to_hash(q)), "hash"); std::ostringstream a, b; a << p; b << p.get(); c.ok(a.str() == b.str(), "output"); c.ok(sprout::get_pointer(p) == p.get(), "get_pointer"); } } }
MON_TEST(casts) { for (std::uint64_t r = 0; r < reps(200); ++r) { long v = rng().range(-999, 999); MON_CASE(c, "pointer casts", v); count("pointer casts", 1); std::unique_ptr<Two> t(new Two(v)); std::unique_ptr<Ba> b(new Ba(v)); Ba* tb = t.get(); Ot* to = t.get(); c.ok(sprout::dynamic_pointer_cast<De>(tb) == static_cast<De*>(t.get()) && sprout::dynamic_pointer_cast<Two>(to) == t.get() && sprout::dynamic_pointer_cast<De>(to) == static_cast<De*>(t.get()) && sprout::dynamic_pointer_cast<Ot>(tb) == to, "dynamic_pointer_cast"); c.ok(sprout::dynamic_pointer_cast<De>(b.get()) == nullptr && sprout::dynamic_pointer_cast<Two>(b.get()) == nullptr, "dynamic_pointer_cast of another type"); c.ok(sprout::dynamic_pointer_cast<Ba>(t.get()) == tb && sprout::static_pointer_cast<De>(tb) == static_cast<De*>(t.get()) && sprout::static_pointer_cast<Two>(tb) == t.get() && sprout::static_pointer_cast<Ba>(t.get()) == tb, "static_pointer_cast"); Ba const* cb = tb; c.ok(sprout::reinter_cast<std::uintptr_t>(tb) == (std::uintptr_t)tb && sprout::reinter_cast<Ba*>(tb) == tb && sprout::reinter_cast<long>(v) == v && *sprout::reinterpret_pointer_cast<long>(&v) == v && sprout::reinterpret_pointer_cast<void>(tb) == (void*)tb, "const_pointer_cast");
	c.ok(&sprout::dyn_cast<De&>(*tb) == static_cast<De*>(t.get()) && sprout::dyn_cast<Two*>(tb) == t.get() && sprout::dyn_cast<Ba*>(t.get()) == tb && &sprout::dyn_cast<Ba&>(*t) == tb, "dyn_cast"); throws<std::bad_cast>(c, [&] { (void)sprout::dyn_cast<De&>(*b); }, "dyn_cast to a reference of another type"); std::shared_ptr<Ba> s(new De(v)); auto d = sprout::dynamic_pointer_cast<De>(s); c.ok(d && d.get() == s.get() && s.use_count() == 2 && !sprout::dynamic_pointer_cast<Two>(s) && sprout::static_pointer_cast<De>(s) == d && sprout::const_pointer_cast<Ba const>(s).get() == s.get(), "shared_ptr casts"); auto e = sprout::reinterpret_pointer_cast<De>(s); c.ok((void*)e.get() == (void*)s.get() && s.use_count() == 3, "shared_ptr reinterpret"); } }
#endif
#if MON_PART(2)
template<class C, class T> void rd(C& c, std::istream& in, sprout::value_holder<T>, T const& other, T const& w) { sprout::value_holder<T> h(other); in >> h; c.ok(!in.fail() && *h == w, "reading back"); } template<class C, class T, class U> void rd(C&, std::istream&, sprout::value_holder<T&>, U const&, U const&) {}
template<class H, class V> void hold(V const& pool) { typedef typename V::value_type T; for (std::uint64_t r = 0; r < reps(300); ++r) { std::size_t i = rng().below(pool.size()), j = rng().below(pool.size()); MON_CASE(c, "value_holder", pool[i], pool[j]); count("holders", 1); T x = pool[i], y = pool[j]; H a(x), b(y), d(a); auto const& k = a;
	auto is = [&](H& h, T const& w, char const* what) { H const& g = h; c.ok(*h == w && *g == w && h.get() == w && g.get() == w && h.value() == w && g.value() == w && *h.operator->() == w && *g.operator->() == w && *h.get_pointer() == w && *g.get_ptr() == w && sprout::get(h) == w && sprout::get(g) == w && *sprout::get(&h) == w && *sprout::get_pointer(g) == w && H::get(g) == w && static_cast<bool>(g) && !!g && h.is_initialized(), what); };
	is(a, pool[i], "holds the value"); is(d, pool[i], "copy"); c.ok((a == b) == (pool[i] == pool[j]) && (a != b) == !(pool[i] == pool[j]) && (a < b) == (pool[i] < pool[j]) && (a > b) == (pool[j] < pool[i]) && (a <= b) == !(pool[j] < pool[i]) && (a >= b) == !(pool[i] < pool[j]), "comparison"); bool same = std::is_reference<typename H::type>::value; c.ok((k.get_pointer() == &x) == same && (sprout::addressof(*a) == &x) == same, "a reference holder refers to the object, a value holder to its own copy");
	using std::swap; swap(a, b); is(a, pool[j], "swap"); is(b, pool[i], "swap"); a.swap(b); is(a, pool[i], "swap"); d = b; is(d, pool[j], "assignment"); is(b, pool[j], "source of an assignment"); d = x; is(d, pool[i], "assignment of a value"); d = std::move(b); is(d, pool[j], "move assignment"); H e(std::move(d)); is(e, pool[j], "move"); if (same) { c.ok(sprout::addressof(*e) == &y, "still refers to the object"); } c.ok(x == pool[i] && y == pool[j], "assigning a holder does not change the objects"); std::ostringstream o, w; o << a; w << " " << pool[i]; c.ok(o.str() == w.str(), "output"); std::istringstream in(o.str()); rd(c, in, H(x), pool[j], pool[i]); c.ok(sprout::to_hash(a) == sprout::to_hash(pool[i]), "hash"); } }
MON_TEST(holders) { std::vector<long> p; for (int i = 0; i < 12; ++i) p.push_back(rng().range(-5, 5)); std::vector<std::string> s; for (int i = 0; i < 12; ++i) s.push_back(std::string(rng().below(3) * 20, 'r') + (char)('a' + rng().below(3))); hold<sprout::value_holder<long> >(p); hold<sprout::value_holder<long&> >(p); hold<sprout::value_holder<long const&> >(p); hold<sprout::value_holder<std::string> >(s); hold<sprout::value_holder<std::string&> >(s); hold<sprout::value_holder<std::string const&> >(s); { MON_CASE(c, "in place", 0); sprout::value_holder<std::string> h(sprout::in_place, (std::size_t)40, 'c'), g(sprout::in_place, {'a', 'b'}); c.ok(*h == std::string(40, 'c') && *g == "ab", "in place construction"); sprout::value_holder<long&> const e = sprout::value_holder<long&>(); c.ok(!e && !e.is_initialized() && !static_cast<bool>(e), "an empty reference holder"); sprout::value_holder<long> z; c.ok(*z == 0, "a default holder is zero"); } }
template<class P> void pt(P const& a, P const& b, bool ha, bool hb, long x, long y) { MON_CASE(c, "comparison of pointees", ha, hb, x, y); count("pointees", 1); bool eq = ha == hb && (!ha || x == y), lt = hb && (!ha || x < y), gt = ha && (!hb || y < x); c.ok(sprout::equal_pointees(a, b) == eq && sprout::equal_pointees_t<P>()(a, b) == eq, "equal_pointees"); c.ok(sprout::not_equal_pointees(a, b) == !eq && sprout::not_equal_pointees_t<P>()(a, b) == !eq, "not_equal_pointees"); c.ok(sprout::less_pointees(a, b) == lt && sprout::less_pointees_t<P>()(a, b) == lt, "less_pointees"); c.ok(sprout::greater_pointees(a, b) == gt && sprout::greater_pointees_t<P>()(a, b) == gt, "greater_pointees"); c.ok(sprout::less_equal_pointees(a, b) == !gt && sprout::less_equal_pointees_t<P>()(a, b) == !gt, "less_equal_pointees"); c.ok(sprout::greater_equal_pointees(a, b) == !lt && sprout::greater_equal_pointees_t<P>()(a, b) == !lt, "greater_equal_pointees"); }
struct Ord { long v; }; inline bool operator==(Ord const& a, Ord const& b) { return a.v == b.v; } inline bool operator<(Ord const& a, Ord const& b) { return a.v < b.v; }
MON_TEST(pointees) { for (long x = -3; x <= 3; ++x) for (long y = -3; y <= 3; ++y) for (int m = 0; m < 4; ++m) { bool ha = m & 1, hb = m & 2; long vx = x, vy = y; long const *a = ha ? &vx : nullptr, *b = hb ? &vy : nullptr; pt(a, b, ha, hb, x, y); pt(sprout::exempt_ptr<long const>(a), sprout::exempt_ptr<long const>(b), ha, hb, x, y); sprout::optional<long> oa, ob; if (ha) oa = x; if (hb) ob = y; pt(oa, ob, ha, hb, x, y); std::shared_ptr<long> sa(ha ? new long(x) : nullptr), sb(hb ? new long(y) : nullptr); pt(sa, sb, ha, hb, x, y); } 
	for (long x = -3; x <= 3; ++x) for (long y = -3; y <= 3; ++y) { MON_CASE(c, "derived comparisons", x, y); using namespace sprout::rel_ops; Ord a{x}, b{y}; c.ok((a != b) == (x != y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "rel_ops"); }
	for (std::uint64_t i = 0; i < reps(200); ++i) { std::string a(rng().below(40), 'a'), b(rng().below(40), 'b'), oa = a, ob = b; MON_CASE(c, "exchange", a, b); c.ok(sprout::exchange(a, b) == oa && a == ob && b == ob, "exchange with a copy"); c.ok(sprout::exchange(a, std::string("zz")) == ob && a == "zz", "exchange with a temporary"); int x = (int)rng().below(99), ox = x; c.ok(sprout::exchange(x, 7) == ox && x == 7, "exchange of ints"); } }
#endif
