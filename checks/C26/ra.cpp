// C26: sprout::rational against exact 128-bit fractions.
#include <mon.hpp>
#include <sstream>
#include <sprout/rational.hpp>
using namespace mon; typedef __int128 W;
template<class T> char const* tname(); template<> char const* tname<int>() { return "int"; } template<> char const* tname<long>() { return "long"; } template<> char const* tname<long long>() { return "long long"; }
inline W wabs(W x) { return x < 0 ? -x : x; } inline W wgcd(W a, W b) { a = wabs(a); b = wabs(b); while (b) { W t = a % b; a = b; b = t; } return a; }
struct Q { W n, d; Q(W a, W b = 1) : n(a), d(b) { if (d < 0) { n = -n; d = -d; } W g = wgcd(n, d); n /= g; d /= g; } };
inline std::string ws(W x) { bool n = x < 0; std::string s; do { int d = (int)(x % 10); s.insert(s.begin(), (char)('0' + (d < 0 ? -d : d))); x /= 10; } while (x); return n ? "-" + s : s; }
inline std::string str(Q const& q) { return ws(q.n) + "/" + ws(q.d); }
template<class T> bool fits(W x) { return x >= (W)std::numeric_limits<T>::min() && x <= (W)std::numeric_limits<T>::max(); }
template<class T> Q q(sprout::rational<T> const& r) { Q z(0); z.n = r.numerator(); z.d = r.denominator(); return z; }
template<class C, class T> void is(C& c, sprout::rational<T> const& g, Q const& w, char const* n) { if (g.numerator() != w.n || g.denominator() != w.d) c.failed(std::string(n) + " got=" + str(q(g)) + " want=" + str(w)); }
template<class T> bool addable(Q a, Q b, int s) { W g = wgcd(a.d, b.d), x = a.n * (b.d / g), y = b.n * (a.d / g); if (!fits<T>(x) || !fits<T>(y) || !fits<T>(x + s * y)) return false; Q r(x + s * y, a.d / g * b.d); return fits<T>(r.n) && fits<T>(r.d); }
template<class F> bool throws(F f) { try { f(); } catch (sprout::bad_rational const& e) { return std::string(e.what()).size() > 0; } return false; }
// one construction
template<class T> void ctor(T n, T d) { typedef sprout::rational<T> R; MON_CASE(c, std::string("rational(n,d)<") + tname<T>() + ">", (long long)n, (long long)d);
	if (d == 0) { c.ok(throws([&] { R r(n, d); (void)r; }), "zero denominator must throw"); R r(3, 4); c.ok(throws([&] { r.assign(n, d); }), "assign zero must throw"); is(c, r, Q(3, 4), "unchanged after throw"); return; }
	Q w(n, d); if (!fits<T>(w.n) || !fits<T>(w.d)) return; R r(n, d); is(c, r, w, "ctor"); R a; is(c, a, Q(0), "default"); c.ok(&a.assign(n, d) == &a, "assign returns *this"); is(c, a, w, "assign"); R b(r); is(c, b, w, "copy"); a = n; is(c, a, Q(n), "= n"); a = r; is(c, a, w, "= r"); is(c, R(n), Q(n), "from int"); c.eq(!r, n == 0); c.eq((bool)r, n != 0); }
template<class T> void pair(sprout::rational<T> a, sprout::rational<T> b) { typedef sprout::rational<T> R; Q x = q(a), y = q(b); std::string tn = std::string("<") + tname<T>() + ">"; T k = b.numerator();
	if (addable<T>(x, y, 1)) { MON_CASE(c, "+" + tn, str(x), str(y)); Q w(x.n * (y.d / wgcd(x.d, y.d)) + y.n * (x.d / wgcd(x.d, y.d)), x.d / wgcd(x.d, y.d) * y.d); is(c, a + b, w, "+"); R t = a; c.ok(&(t += b) == &t, "+= ref"); is(c, t, w, "+="); }
	if (addable<T>(x, y, -1)) { MON_CASE(c, "-" + tn, str(x), str(y)); Q w(x.n * (y.d / wgcd(x.d, y.d)) - y.n * (x.d / wgcd(x.d, y.d)), x.d / wgcd(x.d, y.d) * y.d); is(c, a - b, w, "-"); R t = a; t -= b; is(c, t, w, "-="); }
	{ W g1 = wgcd(x.n, y.d), g2 = wgcd(y.n, x.d); W n = (x.n / g1) * (y.n / g2), d = (x.d / g2) * (y.d / g1); if (fits<T>(n) && fits<T>(d)) { MON_CASE(c, "*" + tn, str(x), str(y)); is(c, a * b, Q(n, d), "*"); R t = a; t *= b; is(c, t, Q(n, d), "*="); } }
	if (y.n != 0) { W g1 = wgcd(x.n, y.n), g2 = wgcd(y.d, x.d); W n = (x.n / g1) * (y.d / g2), d = (x.d / g2) * (y.n / g1); if (fits<T>(n) && fits<T>(d) && fits<T>(-n) && fits<T>(-d)) { MON_CASE(c, "/" + tn, str(x), str(y)); is(c, a / b, Q(n, d), "/"); R t = a; t /= b; is(c, t, Q(n, d), "/="); } } else { MON_CASE(c, "/0" + tn, str(x)); c.ok(throws([&] { R r = a / b; (void)r; }), "division by zero"); R t = a; c.ok(throws([&] { t /= b; }) && t == a, "/= zero throws, operand unchanged"); c.ok(throws([&] { R r = a / (T)0; (void)r; }), "division by integer zero"); }
	if (addable<T>(x, Q(k), 1)) { MON_CASE(c, "+ int" + tn, str(x), (long long)k); Q w(x.n + (W)k * x.d, x.d); is(c, a + k, w, "r+i"); is(c, k + a, w, "i+r"); R t = a; t += k; is(c, t, w, "+=i"); }
	if (addable<T>(x, Q(k), -1)) { MON_CASE(c, "- int" + tn, str(x), (long long)k); Q w(x.n - (W)k * x.d, x.d); is(c, a - k, w, "r-i"); if (fits<T>(-w.n)) { is(c, k - a, Q(-w.n, w.d), "i-r"); } R t = a; t -= k; is(c, t, w, "-=i"); }
	{ W g = wgcd(k, x.d); W n = x.n * (k / g), d = x.d / g; if (fits<T>(n)) { MON_CASE(c, "* int" + tn, str(x), (long long)k); is(c, a * k, Q(n, d), "r*i"); is(c, k * a, Q(n, d), "i*r"); R t = a; t *= k; is(c, t, Q(n, d), "*=i"); } }
	if (k != 0) { W g = wgcd(x.n, k); W n = x.n / g, d = x.d * (k / g); if (fits<T>(-n) && fits<T>(n) && fits<T>(d) && fits<T>(-d)) { MON_CASE(c, "/ int" + tn, str(x), (long long)k); is(c, a / k, Q(n, d), "r/i"); R t = a; t /= k; is(c, t, Q(n, d), "/=i"); if (x.n != 0) is(c, k / a, Q(d, n), "i/r"); } }
	{ MON_CASE(c, "compare" + tn, str(x), str(y)); int s = 0; W l = x.n * y.d, r = y.n * x.d; s = l < r ? -1 : l > r; c.eq(a == b, s == 0); c.eq(a != b, s != 0); c.eq(a < b, s < 0); c.eq(a > b, s > 0); c.eq(a <= b, s <= 0); c.eq(a >= b, s >= 0); W f = (W)k * x.d; s = x.n < f ? -1 : x.n > f; c.eq(a == k, s == 0); c.eq(a != k, s != 0); c.eq(a < k, s < 0); c.eq(a > k, s > 0); c.eq(a <= k, s <= 0); c.eq(a >= k, s >= 0); c.eq(k == a, s == 0); c.eq(k != a, s != 0); c.eq(k < a, s > 0); c.eq(k > a, s < 0); c.eq(k <= a, s >= 0); c.eq(k >= a, s <= 0);
		std::hash<R> h; if (a == b) c.ok(h(a) == h(b), "hash"); } }
template<class T> void one(sprout::rational<T> a) { typedef sprout::rational<T> R; Q x = q(a); std::string tn = std::string("<") + tname<T>() + ">";
	{ MON_CASE(c, "unary" + tn, str(x)); is(c, +a, x, "+"); if (fits<T>(-x.n)) { is(c, -a, Q(-x.n, x.d), "-"); is(c, sprout::abs(a), Q(wabs(x.n), x.d), "abs"); } if (fits<T>(x.n + x.d)) { R t = a; is(c, ++t, Q(x.n + x.d, x.d), "++"); t = a; is(c, t++, x, "post++"); is(c, t, Q(x.n + x.d, x.d), "after post++"); } if (fits<T>(x.n - x.d)) { R t = a; is(c, --t, Q(x.n - x.d, x.d), "--"); t = a; is(c, t--, x, "post--"); is(c, t, Q(x.n - x.d, x.d), "after post--"); } }
	{ MON_CASE(c, "self" + tn, str(x)); if (addable<T>(x, x, 1)) { R t = a; t += t; is(c, t, Q(2 * x.n, x.d), "r+=r"); } { R t = a; t -= t; if (fits<T>(x.n) ) is(c, t, Q(0), "r-=r"); } if (fits<T>(x.n * x.n) && fits<T>(x.d * x.d)) { R t = a; t *= t; is(c, t, Q(x.n * x.n, x.d * x.d), "r*=r"); } if (x.n != 0) { R t = a; t /= t; is(c, t, Q(1), "r/=r"); } R t = a; R& u = t; t = u; is(c, t, x, "r=r"); }
	{ MON_CASE(c, "cast" + tn, str(x)); long double w = (long double)x.n / (long double)x.d; long double g = sprout::rational_cast<long double>(a); c.ok(g == w, "rational_cast<long double>"); if (wabs(x.n) < (1 << 24) && x.d < (1 << 24)) c.ok(sprout::rational_cast<double>(a) == (double)x.n / (double)x.d, "rational_cast<double>"); c.eq(sprout::rational_cast<T>(a), (T)(x.n / x.d)); c.ok(sprout::get<0>(a) == a.numerator() && sprout::get<1>(a) == a.denominator(), "get"); }
	{ MON_CASE(c, "stream" + tn, str(x)); std::ostringstream o; o << a; c.eq(o.str(), ws(x.n) + "/" + ws(x.d)); std::istringstream i("  " + o.str() + " z"); R t(7, 9); std::string z; i >> t >> z; is(c, t, x, ">>"); c.eq(z, std::string("z")); } }
template<class T> T rnd() { std::uint64_t a = rng()(); int kk = (int)rng().range(0, (int)sizeof(T) * 8 - 1); if (sizeof(T) < 8) a &= (1ull << (sizeof(T) * 8)) - 1; a >>= kk; return rng().coin() ? (T)(0ull - a) : (T)a; }
template<class T> bool mk(T n, T d, sprout::rational<T>& r) { if (d == 0) return false; Q w(n, d); if (!fits<T>(w.n) || !fits<T>(w.d)) return false; r = sprout::rational<T>((T)w.n, (T)w.d); return true; }
template<class T> void all() { typedef sprout::rational<T> R; typedef std::numeric_limits<T> L; int m = thorough() ? 40 : 24; for (int n = -m; n <= m; ++n) for (int d = -m; d <= m; ++d) ctor<T>((T)n, (T)d);
	std::vector<R> sm; int k = thorough() ? 9 : 6; for (int d = 1; d <= k; ++d) for (int n = -2 * k; n <= 2 * k; ++n) if (wgcd(n, d) == 1) sm.push_back(R(n, d)); for (R a : sm) { one(a); for (R b : sm) pair(a, b); }
	std::vector<T> ex { L::min(), (T)(L::min() + 1), (T)(L::min() / 2), (T)(L::max() / 2), (T)(L::max() / 2 + 1), (T)(L::max() - 1), L::max(), 0, 1, -1, 2, -2, 3, 6, (T)(L::max() / 3) }; std::vector<R> big; for (T n : ex) for (T d : ex) { ctor<T>(n, d); R r; if (mk(n, d, r)) big.push_back(r); } for (R a : big) { one(a); for (R b : big) if (thorough() || rng().coin(1, 2)) pair(a, b); }
	for (std::uint64_t i = 0; i < reps(5000); ++i) { R a, b; if (!mk(rnd<T>(), rnd<T>(), a) || !mk(rnd<T>(), rnd<T>(), b)) continue; one(a); pair(a, b); if (rng().coin() && fits<T>((W)a.numerator() + 1)) { R e; if (mk((T)(a.numerator() + 1), a.denominator(), e)) pair(a, e); } if (fits<T>((W)a.denominator() + 1)) { R e; if (mk(a.numerator(), (T)(a.denominator() + 1), e)) pair(a, e); } } }
// histories: a random sequence of compound operations tracks the exact value
template<class T> void hist() { typedef sprout::rational<T> R; for (std::uint64_t i = 0; i < reps(400); ++i) { R r((T)rng().range(-20, 20), (T)rng().range(1, 20)); MON_CASE(c, std::string("history<") + tname<T>() + ">", str(q(r)), (long long)i); for (int s = 0; s < 30; ++s) { R b((T)rng().range(-12, 12), (T)rng().range(1, 12)); Q x = q(r), y = q(b); switch (rng().range(0, 6)) { case 0: if (addable<T>(x, y, 1)) { r += b; is(c, r, Q(x.n * y.d + y.n * x.d, x.d * y.d), "+="); } break; case 1: if (addable<T>(x, y, -1)) { r -= b; is(c, r, Q(x.n * y.d - y.n * x.d, x.d * y.d), "-="); } break; case 2: { Q w(x.n * y.n, x.d * y.d); if (fits<T>(w.n) && fits<T>(w.d)) { r *= b; is(c, r, w, "*="); } break; } case 3: if (y.n) { Q w(x.n * y.d, x.d * y.n); if (fits<T>(w.n) && fits<T>(-w.n) && fits<T>(w.d)) { r /= b; is(c, r, w, "/="); } } break; case 4: if (fits<T>(x.n + x.d)) { ++r; is(c, r, Q(x.n + x.d, x.d), "++"); } break; case 5: if (fits<T>(x.n - x.d)) { --r; is(c, r, Q(x.n - x.d, x.d), "--"); } break; default: if (fits<T>(-x.n)) { r = -r; is(c, r, Q(-x.n, x.d), "neg"); } } c.ok(r.denominator() > 0 && wgcd(r.numerator(), r.denominator()) == 1, "normalised"); } } }
void badio() { for (char const* s : { "", "x", "1", "1x2", "1/", "1/x", "1 /2", "1/ 2", "/2", "-/3" }) { MON_CASE(c, ">> malformed", s); std::istringstream i(s); sprout::rational<int> r(5, 7); i >> r; c.ok(i.fail(), "must fail"); c.ok(r == sprout::rational<int>(5, 7), "unchanged"); } 
	{ MON_CASE(c, ">> normalises", 0); std::istringstream i("6/-4 -10/5"); sprout::rational<int> r, s; i >> r >> s; is(c, r, Q(-3, 2), "6/-4"); is(c, s, Q(-2), "-10/5"); std::istringstream j("1/0"); sprout::rational<int> t(5, 7); c.ok(throws([&] { j >> t; }), "1/0 throws"); c.ok(t == sprout::rational<int>(5, 7), "unchanged"); std::wostringstream w; w << r; c.ok(w.str() == L"-3/2", "wide"); std::ostringstream o; o << std::hex << sprout::rational<int>(31, 16) << 17; c.eq(o.str(), std::string("1f/1011")); std::istringstream k("1/2 3"); k >> r; int v = 0; k >> v; c.eq(v, 3); } }
#if MON_PART(0)
MON_TEST(r_int) { all<int>(); hist<int>(); } MON_TEST(badio) { badio(); }
#endif
#if MON_PART(1)
MON_TEST(r_long) { all<long>(); hist<long>(); } MON_TEST(r_ll) { all<long long>(); }
MON_TEST(ce) { using namespace sprout::literals::rational; constexpr auto r = sprout::rational<int>(1, 2) + sprout::rational<int>(1, 3) * 3_r / sprout::rational<int>(-2, 5); MON_CASE(c, "constexpr", 0); is(c, r, Q(-2), "expr"); constexpr bool b = sprout::rational<int>(-1, 2) < sprout::rational<int>(-1, 3); c.ok(b, "less"); }
#endif
