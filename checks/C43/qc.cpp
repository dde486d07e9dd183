// C43: quaternion algebra (reference: Hamilton's rules in long double, Boost.Math's quaternion for text and creations) and parametric curves (reference: de Casteljau / cubic Hermite).
#include <mon.hpp>
#include <fp.hpp>
#include <sprout/math/quaternion.hpp>
#include <sprout/math/curve.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/array.hpp>
#include <sprout/tuple.hpp>
#include <sprout/complex.hpp>
#include <sprout/algorithm/fixed/transform.hpp>
#include <sprout/algorithm/fixed/reverse_copy.hpp>
#include <boost/math/quaternion.hpp>
#include <sstream>
#include <cmath>
using namespace mon; typedef long double L; namespace sm = sprout::math; namespace bq = boost::math;
struct Q { L v[4]; Q(L a = 0, L b = 0, L c = 0, L d = 0) { v[0] = a; v[1] = b; v[2] = c; v[3] = d; } L n() const { L m = 0; for (L x : v) m = std::max(m, std::fabs(x)); if (m == 0) return 0; L s = 0; for (L x : v) s += (x / m) * (x / m); return m * std::sqrt(s); } };
static Q operator+(Q a, Q const& b) { for (int i = 0; i < 4; ++i) a.v[i] += b.v[i]; return a; }
static Q operator-(Q a, Q const& b) { for (int i = 0; i < 4; ++i) a.v[i] -= b.v[i]; return a; }
static Q operator*(Q const& a, Q const& b) { // e_i e_j from the table of Hamilton's units
	static int const idx[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}}, sg[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}}; Q r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.v[idx[i][j]] += sg[i][j] * a.v[i] * b.v[j]; return r; }
static Q inv(Q const& a) { L n = a.n(); Q r; for (int i = 0; i < 4; ++i) r.v[i] = (i ? -a.v[i] : a.v[i]) / n / n; return r; }
static std::ostream& operator<<(std::ostream& o, Q const& q) { return o << q.v[0] << ',' << q.v[1] << ',' << q.v[2] << ',' << q.v[3]; }
template<class T> Q mk(sm::quaternion<T> const& q) { return Q(q.R_component_1(), q.R_component_2(), q.R_component_3(), q.R_component_4()); }
template<class T> sm::quaternion<T> qq(Q const& m) { return sm::quaternion<T>((T)m.v[0], (T)m.v[1], (T)m.v[2], (T)m.v[3]); }
template<class C, class T> void is(C& c, sm::quaternion<T> const& q, Q const& m, char const* w) { c.ok((L)q.R_component_1() == m.v[0] && (L)q.R_component_2() == m.v[1] && (L)q.R_component_3() == m.v[2] && (L)q.R_component_4() == m.v[3], w); }
template<class C, class T> void nr(C& c, sm::quaternion<T> const& q, Q const& m, L scale, L k, char const* w) { L e = std::numeric_limits<T>::epsilon(), d = (mk(q) - m).n(); c.ok(d <= k * e * scale, w); }
static L I() { return (L)rng().range(-40, 40); }
static Q rq() { unsigned z = (unsigned)rng().below(5); Q q(I(), I(), I(), I()); if (z == 0) q.v[rng().below(4)] = 0; if (z == 1) { q = Q(); q.v[rng().below(4)] = I(); } return q; }
template<class T> Q rf(int ex) { Q q; for (int i = 0; i < 4; ++i) q.v[i] = (T)std::ldexp((L)rng().range(-1000000, 1000000), (int)rng().range(-ex, ex)); if (q.n() == 0) q.v[0] = 1; return q; }
#if MON_PART(0)
template<class C, class X> void l1sup(C& c, X const& x, L l, L m, std::true_type) { c.ok((L)sm::l1(x) == l, "l1"); c.ok((L)sm::sup(x) == m, "sup"); } template<class C, class X> void l1sup(C&, X const&, L, L, std::false_type) {} // sprout::math::abs takes floating types only
// exact on integer-valued components, including the generic template over int
template<class T> void exact(char const* nm) { for (std::uint64_t r = 0; r < reps(2000); ++r) { Q a = rq(), b = rq(), d = rq(); L s = I(); Q cz(I(), I()); MON_CASE(c, std::string("algebra ") + nm, a, b, s, cz); typedef sm::quaternion<T> X; X x = qq<T>(a), y = qq<T>(b), z = qq<T>(d); T t = (T)s; sprout::complex<T> w((T)cz.v[0], (T)cz.v[1]);
	is(c, x, a, "construct"); c.ok((L)x.real() == a.v[0] && (L)sm::real(x) == a.v[0], "real"); is(c, x.unreal(), Q(0, a.v[1], a.v[2], a.v[3]), "unreal"); is(c, sm::unreal(x), Q(0, a.v[1], a.v[2], a.v[3]), "unreal"); is(c, X(), Q(), "default"); is(c, X(t), Q(s), "from real"); is(c, X(t, (T)a.v[1]), Q(s, a.v[1]), "from two"); is(c, X(t, (T)a.v[1], (T)a.v[2]), Q(s, a.v[1], a.v[2]), "from three"); is(c, X(w), cz, "from complex"); is(c, X(w, sprout::complex<T>(t, (T)a.v[3])), Q(cz.v[0], cz.v[1], s, a.v[3]), "from two complex"); c.ok(x.C_component_1() == sprout::complex<T>((T)a.v[0], (T)a.v[1]) && x.C_component_2() == sprout::complex<T>((T)a.v[2], (T)a.v[3]), "complex components");
	is(c, x + y, a + b, "q+q"); is(c, x - y, a - b, "q-q"); is(c, x * y, a * b, "q*q"); is(c, +x, a, "+q"); is(c, -x, Q() - a, "-q"); is(c, x + t, a + Q(s), "q+r"); is(c, t + x, a + Q(s), "r+q"); is(c, x - t, a - Q(s), "q-r"); is(c, t - x, Q(s) - a, "r-q"); is(c, x * t, a * Q(s), "q*r"); is(c, t * x, a * Q(s), "r*q"); is(c, x + w, a + cz, "q+c"); is(c, w + x, a + cz, "c+q"); is(c, x - w, a - cz, "q-c"); is(c, w - x, cz - a, "c-q"); is(c, x * w, a * cz, "q*c"); is(c, w * x, cz * a, "c*q"); is(c, (x * y) * z, a * b * d, "associative"); is(c, x * (y * z), a * b * d, "associative");
	{ X u(x); u += y; is(c, u, a + b, "+=q"); u = x; u -= y; is(c, u, a - b, "-=q"); u = x; u *= y; is(c, u, a * b, "*=q"); u = x; u += t; is(c, u, a + Q(s), "+=r"); u = x; u -= t; is(c, u, a - Q(s), "-=r"); u = x; u *= t; is(c, u, a * Q(s), "*=r"); u = x; u += w; is(c, u, a + cz, "+=c"); u = x; u -= w; is(c, u, a - cz, "-=c"); u = x; u *= w; is(c, u, a * cz, "*=c"); u = t; is(c, u, Q(s), "=r"); u = w; is(c, u, cz, "=c"); u = x; is(c, u, a, "=q"); u = sm::quaternion<short>((short)a.v[0], (short)a.v[1], (short)a.v[2], (short)a.v[3]); is(c, u, a, "=q of another type"); u = y; u += sm::quaternion<short>((short)a.v[0], (short)a.v[1], (short)a.v[2], (short)a.v[3]); is(c, u, a + b, "+= another type"); u *= u; is(c, u, (a + b) * (a + b), "*= itself"); u = x; u += u; is(c, u, a + a, "+= itself"); u -= u; is(c, u, Q(), "-= itself"); }
	is(c, sm::conj(x), Q(a.v[0], -a.v[1], -a.v[2], -a.v[3]), "conj"); L n = 0, l = 0, m = 0; for (L e : a.v) { n += e * e; l += std::fabs(e); m = std::max(m, std::fabs(e)); } c.ok((L)sm::norm(x) == n, "norm"); l1sup(c, x, l, m, std::is_floating_point<T>());
	bool e = true; for (int i = 0; i < 4; ++i) e = e && a.v[i] == b.v[i]; c.ok((x == y) == e && (x != y) == !e, "=="); Q v2 = a; v2.v[rng().below(4)] += 1; X xv = qq<T>(v2); c.ok(!(x == xv) && x != xv && x == X(x), "== sees every component"); bool re = a.v[1] == 0 && a.v[2] == 0 && a.v[3] == 0; T r0 = (T)a.v[0]; c.ok((x == r0) == re && (r0 == x) == re && (x != r0) == !re && (r0 != x) == !re, "== real"); bool ce = a.v[2] == 0 && a.v[3] == 0; sprout::complex<T> c0((T)a.v[0], (T)a.v[1]); c.ok((x == c0) == ce && (c0 == x) == ce && (x != c0) == !ce && (c0 != x) == !ce, "== complex"); c.ok(X(r0) == r0 && X(c0) == c0 && c0 == X(c0), "== after conversion"); Q im(a.v[0], a.v[1] + 41); c.ok(!(qq<T>(im) == r0) && !(sprout::complex<T>((T)a.v[0], (T)(a.v[1] + 1)) == X(c0)), "imaginary part counts");
	c.ok(sprout::to_hash(x) == sprout::to_hash(X(x)) && std::hash<X>()(x) == sprout::to_hash(x), "hash"); count("products", 8); } }
// element access and the container, tuple and conversion protocols
template<class T> void access(char const* nm) { for (std::uint64_t r = 0; r < reps(300); ++r) { Q a = rq(); MON_CASE(c, std::string("access ") + nm, a); typedef sm::quaternion<T> X; X x = qq<T>(a); X const k(x); for (int i = 0; i < 4; ++i) c.ok((L)x[i] == a.v[i] && (L)k[i] == a.v[i] && (L)x.at(i) == a.v[i] && (L)k.at(i) == a.v[i] && (L)k.data()[i] == a.v[i] && (L)x.data()[i] == a.v[i] && (L)k.c_array()[i] == a.v[i] && (L)x.begin()[i] == a.v[i] && (L)k.cbegin()[i] == a.v[i] && (L)k.rbegin()[i] == a.v[3 - i] && (L)x.rbegin()[i] == a.v[3 - i] && (L)k.crbegin()[i] == a.v[3 - i], "elements"); c.ok(x.end() - x.begin() == 4 && k.end() - k.begin() == 4 && k.cend() - k.cbegin() == 4 && x.rend() - x.rbegin() == 4 && k.rend() - k.rbegin() == 4 && k.crend() - k.crbegin() == 4 && k.size() == 4 && k.max_size() == 4 && !k.empty(), "extent"); c.ok((L)k.front() == a.v[0] && (L)k.back() == a.v[3] && &x.front() == &x[0] && &x.back() == &x[3], "front and back"); throws<std::out_of_range>(c, [&] { (void)x.at(4); }); throws<std::out_of_range>(c, [&] { (void)k.at((std::size_t)-1); });
	c.ok((L)sprout::tuples::get<0>(k) == a.v[0] && (L)sprout::tuples::get<1>(k) == a.v[1] && (L)sprout::tuples::get<2>(k) == a.v[2] && (L)sprout::tuples::get<3>(k) == a.v[3] && (L)sprout::tuples::get<1>(X(x)) == a.v[1] && sprout::tuples::tuple_size<X>::value == 4 && std::is_same<typename sprout::tuples::tuple_element<2, X>::type, T>::value, "tuple protocol"); int i = (int)rng().below(4); x[i] = T(99); Q b = a; b.v[i] = 99; is(c, x, b, "write by index"); sprout::tuples::get<2>(x) = T(77); b.v[2] = 77; is(c, x, b, "write by get"); std::vector<L> f; for (T e : x) f.push_back(e); c.ok(f.size() == 4 && f[0] == b.v[0] && f[1] == b.v[1] && f[2] == b.v[2] && f[3] == b.v[3], "for"); is(c, sprout::fixed::reverse_copy(k.begin(), k.end(), x), Q(a.v[3], a.v[2], a.v[1], a.v[0]), "as the result of an algorithm"); } }
template<class T, class U> void conv(char const* nm) { for (std::uint64_t r = 0; r < reps(900); ++r) { Q a = rq(); MON_CASE(c, std::string("convert ") + nm, a); sm::quaternion<U> s = qq<U>(a); sm::quaternion<T> d(s); is(c, d, a, "construct"); sm::quaternion<T> e; e = s; is(c, e, a, "assign"); sm::quaternion<T> z = qq<T>(Q(1, 2, 3, 4)); z -= s; is(c, z, Q(1, 2, 3, 4) - a, "-="); z = qq<T>(Q(1, 2, 3, 4)); z *= s; is(c, z, Q(1, 2, 3, 4) * a, "*="); } }
MON_TEST(algebra) { exact<float>("float"); exact<double>("double"); exact<long double>("long double"); exact<int>("int"); exact<long long>("long long"); }
MON_TEST(containers) { access<float>("float"); access<double>("double"); access<long double>("long double"); access<int>("int"); conv<float, double>("float<-double"); conv<float, long double>("float<-ld"); conv<double, float>("double<-float"); conv<double, long double>("double<-ld"); conv<long double, float>("ld<-float"); conv<long double, double>("ld<-double"); conv<int, long long>("int<-ll"); }
#if SPROUT_USE_USER_DEFINED_LITERALS
MON_TEST(literals) { using namespace sprout::literals; MON_CASE(c, "literals"); is(c, 2.5_j, Q(0, 0, 2.5L), "_j"); is(c, 2.5_jf, Q(0, 0, 2.5L), "_jf"); is(c, 2.5_jF, Q(0, 0, 2.5L), "_jF"); is(c, 2.5_jl, Q(0, 0, 2.5L), "_jl"); is(c, 2.5_jL, Q(0, 0, 2.5L), "_jL"); is(c, 2.5_k, Q(0, 0, 0, 2.5L), "_k"); is(c, 2.5_kf, Q(0, 0, 0, 2.5L), "_kf"); is(c, 2.5_kF, Q(0, 0, 0, 2.5L), "_kF"); is(c, 2.5_kl, Q(0, 0, 0, 2.5L), "_kl"); is(c, 2.5_kL, Q(0, 0, 0, 2.5L), "_kL"); is(c, 3.0_j * 2.0_k, Q(0, 6), "jk=i"); is(c, 2.0_k * 3.0_j, Q(0, -6), "kj=-i"); c.ok(std::is_same<decltype(1.0_jf), sm::quaternion<float> >::value && std::is_same<decltype(1.0_kl), sm::quaternion<long double> >::value, "types"); }
#endif
#endif
#if MON_PART(1)
// rounded results: division, abs, powers; and no overflow or underflow on the way
template<class T> void rounded(char const* nm) { int mx = std::numeric_limits<T>::max_exponent; for (std::uint64_t r = 0; r < reps(2000); ++r) { Q a = rf<T>(8), b = rf<T>(8); L s = (T)((L)rng().range(1, 100000) / 64 * (rng().coin() ? 1 : -1)); Q cz((T)((L)rng().range(-9999, 9999) / 32), (T)((L)rng().range(1, 9999) / 32)); MON_CASE(c, std::string("division ") + nm, a, b, s, cz); typedef sm::quaternion<T> X; X x = qq<T>(a), y = qq<T>(b); T t = (T)s; sprout::complex<T> w((T)cz.v[0], (T)cz.v[1]); L k = 40;
	Q ab = a * inv(b); nr(c, x / y, ab, ab.n(), k, "q/q"); { X u(x); u /= y; nr(c, u, ab, ab.n(), k, "/=q"); u = x; u /= u; nr(c, u, Q(1), 1, k, "/= itself"); u = x; u /= t; nr(c, u, a * inv(Q(s)), a.n() / std::fabs(s), k, "/=r"); u = x; u /= w; Q aw = a * inv(cz); nr(c, u, aw, aw.n(), k, "/=c"); nr(c, x / w, aw, aw.n(), k, "q/c"); } nr(c, x / t, a * inv(Q(s)), a.n() / std::fabs(s), k, "q/r"); Q sa = Q(s) * inv(a); nr(c, t / x, sa, sa.n(), k, "r/q"); Q ca = cz * inv(a); nr(c, w / x, ca, ca.n(), k, "c/q");
	L e = std::numeric_limits<T>::epsilon(); c.ok(std::fabs(sm::abs(x) - a.n()) <= 20 * e * a.n(), "abs"); c.ok(std::fabs(sm::norm(x) - a.n() * a.n()) <= 20 * e * a.n() * a.n(), "norm"); c.ok(sm::abs(X()) == 0 && sm::sup(X()) == 0 && sm::l1(X()) == 0, "zero");
	int n = rng().below(3) ? (int)rng().range(-6, 9) : (int)rng().range(-40, 70); Q p(1), q = n < 0 ? inv(a) : a; L sc = 1; for (int i = 0; i < std::abs(n); ++i) { p = p * q; sc *= q.n(); } if (sc < std::ldexp(1.0L, mx - 8) && sc > std::ldexp(1.0L, 8 - mx)) { nr(c, sm::pow(x, n), p, sc, 60 * (std::abs(n) + 1), "pow"); }
	int ex = (int)rng().range(mx / 2 + 10, mx - 40) * (rng().coin() ? 1 : -1); Q big; X bx; { L v[4]; for (int i = 0; i < 4; ++i) v[i] = (T)std::ldexp(a.v[i] / a.n() + (i == 0 ? 1 : 0), ex); big = Q(v[0], v[1], v[2], v[3]); bx = qq<T>(big); } c.ok(std::fabs(sm::abs(bx) - big.n()) <= 20 * e * big.n(), "abs of huge and tiny values"); Q bu; for (int i = 0; i < 4; ++i) bu.v[i] = std::ldexp(big.v[i], -ex); nr(c, bx / bx, Q(1), 1, k, "huge/huge"); Q qb = a * inv(bu); for (L& v : qb.v) v = std::ldexp(v, 0); X sx = qq<T>(bu), bm; { Q al; for (int i = 0; i < 4; ++i) al.v[i] = (T)std::ldexp(a.v[i], ex < 0 ? ex + 30 : ex - 30); X ax = qq<T>(al); Q exm = al; for (L& v : exm.v) v = std::ldexp(v, -ex); Q want = exm * inv(bu); nr(c, ax / bx, want, want.n(), k + 40, "huge by huge division"); ax /= bx; nr(c, ax, want, want.n(), k + 40, "huge /= huge"); } (void)sx; (void)bm; count("divisions", 10); } }
MON_TEST(quotients) { rounded<float>("float"); rounded<double>("double"); rounded<long double>("long double"); }
template<class T> void creations(char const* nm) { for (std::uint64_t r = 0; r < reps(900); ++r) { auto A = [] { return (T)((L)rng().range(-2000, 2000) / 128); }; T p[4] = {A(), A(), A(), A()}; MON_CASE(c, std::string("creations ") + nm, p[0], p[1], p[2], p[3]); auto as = [](bq::quaternion<L> const& q) { return Q(q.R_component_1(), q.R_component_2(), q.R_component_3(), q.R_component_4()); }; L a = p[0], b = p[1], d = p[2], e = p[3], k = 40; T ra = std::fabs(p[0]), rc = std::fabs(p[2]), rb = std::fabs(p[1]);
	nr(c, sm::spherical(ra, p[1], p[2], p[3]), as(bq::spherical(std::fabs(a), b, d, e)), std::fabs(a), k, "spherical"); nr(c, sm::semipolar(ra, p[1], p[2], p[3]), as(bq::semipolar(std::fabs(a), b, d, e)), std::fabs(a), k, "semipolar"); nr(c, sm::multipolar(ra, p[1], rc, p[3]), as(bq::multipolar(std::fabs(a), b, std::fabs(d), e)), std::fabs(a) + std::fabs(d), k, "multipolar"); nr(c, sm::cylindrospherical(p[0], rb, p[2], p[3]), as(bq::cylindrospherical(a, std::fabs(b), d, e)), std::fabs(a) + std::fabs(b), k, "cylindrospherical"); nr(c, sm::cylindrical(ra, p[1], p[2], p[3]), as(bq::cylindrical(std::fabs(a), b, d, e)), std::fabs(a) + std::fabs(d) + std::fabs(e), k, "cylindrical"); } }
MON_TEST(create) { creations<float>("float"); creations<double>("double"); creations<long double>("long double"); }
// text: what Boost.Math writes and reads
template<class E> std::basic_string<E> wd(std::string const& s) { return std::basic_string<E>(s.begin(), s.end()); }
template<class E> void text(char const* nm) { for (std::uint64_t r = 0; r < reps(1500); ++r) { Q a = rf<double>(6); int prec = (int)rng().range(1, 17), fl = (int)rng().below(4), wid = (int)rng().below(4) * 20; MON_CASE(c, std::string("text ") + nm, a, prec, fl, wid); sm::quaternion<double> x = qq<double>(a); bq::quaternion<double> y((double)a.v[0], (double)a.v[1], (double)a.v[2], (double)a.v[3]); std::basic_ostringstream<E> o, w; auto set = [&](std::basic_ostream<E>& s) { s.precision(prec); if (fl & 1) s << std::scientific; if (fl & 2) s << std::showpos; s.width(wid); }; set(o); set(w); o << x; w << y; c.ok(o.str() == w.str(), "output"); std::basic_ostringstream<E> full; full.precision(17); full << x; std::basic_istringstream<E> in(full.str()); sm::quaternion<double> z; in >> z; c.ok(!in.fail(), "read back"); is(c, z, a, "round trip");
	auto nu = [&] { return std::to_string(rng().range(-99, 99)) + (rng().coin() ? ".5" : ""); }; auto sp = [&] { return std::string(rng().below(4) == 0 ? 1 : 0, ' '); }; std::string n1 = nu(), n2 = nu(), n3 = nu(), n4 = nu(), cm = "," , f; switch (rng().below(9)) { case 0: f = n1; break; case 1: f = "(" + n1 + sp() + ")"; break; case 2: f = "(" + n1 + cm + sp() + n2 + ")"; break; case 3: f = "(" + n1 + sp() + cm + n2 + cm + n3 + ")"; break; case 4: f = "(" + n1 + cm + n2 + cm + n3 + sp() + cm + n4 + ")"; break; case 5: f = "((" + n1 + "))"; break; case 6: f = "((" + n1 + cm + n2 + ")" + sp() + ")"; break; case 7: f = "((" + n1 + cm + n2 + ")," + sp() + "(" + n3 + cm + n4 + "))"; break; default: f = "(" + n1 + ",(" + n3 + cm + n4 + "))"; }
	if (rng().below(3) == 0 && !f.empty()) { std::size_t p = rng().below(f.size()); switch (rng().below(3)) { case 0: f.erase(p); break; case 1: f.insert(p, 1, "(),x "[rng().below(5)]); break; default: f[p] = "(),x7"[rng().below(5)]; } } std::basic_istringstream<E> s1(wd<E>(f + " ")), s2(wd<E>(f + " ")); sm::quaternion<double> g = qq<double>(Q(1, 2, 3, 4)); bq::quaternion<double> h(1, 2, 3, 4); s1 >> g; s2 >> h; c.eq(s1.fail(), s2.fail(), "accepts " + f); Q hm(h.R_component_1(), h.R_component_2(), h.R_component_3(), h.R_component_4()); is(c, g, hm, ("value of " + f).c_str());
	std::basic_istringstream<E> s3(wd<E>(n1)); sm::quaternion<double> e3 = qq<double>(Q(1, 2, 3, 4)); s3 >> e3; c.ok(!s3.fail(), "real at the end of the text"); is(c, e3, Q(std::stold(n1)), "real at the end of the text"); } }
MON_TEST(streams) { text<char>("char"); text<wchar_t>("wchar_t"); }
#endif
#if MON_PART(2)
struct P { L x, y; };
template<class T> L cas(std::vector<L> p, T t) { for (std::size_t n = p.size(); n > 1; --n) for (std::size_t i = 0; i + 1 < n; ++i) p[i] = p[i] * (1 - (L)t) + p[i + 1] * (L)t; return p[0]; }
template<class T, class V> struct Mk; template<class T> struct Mk<T, sprout::tuple<T, T> > { static sprout::tuple<T, T> f(T x, T y) { return sprout::tuple<T, T>(x, y); } }; template<class T> struct Mk<T, sprout::pair<T, T> > { static sprout::pair<T, T> f(T x, T y) { return sprout::pair<T, T>(x, y); } }; template<class T> struct Mk<T, sprout::array<T, 2> > { static sprout::array<T, 2> f(T x, T y) { return sprout::array<T, 2>{{x, y}}; } };
template<class T, class V> void curve(char const* nm) { for (std::uint64_t r = 0; r < reps(800); ++r) { std::vector<L> x, y; std::vector<V> p; for (int i = 0; i < 6; ++i) { T a = (T)((L)rng().range(-3000, 3000) / 32), b = (T)((L)rng().range(-3000, 3000) / 32); x.push_back(a); y.push_back(b); p.push_back(Mk<T, V>::f(a, b)); } T t = r % 7 == 0 ? T(0) : r % 7 == 1 ? T(1) : (T)((L)rng().range(-32, 160) / 128); MON_CASE(c, std::string("curves ") + nm, x, y, t); L tol = 100 * 64 * std::numeric_limits<T>::epsilon() * 40 * std::max<L>(1, std::pow(std::fabs((L)t) + std::fabs(1 - (L)t), 5));
	auto eq = [&](V const& v, L wx, L wy, char const* w) { c.ok(std::fabs((L)sprout::tuples::get<0>(v) - wx) <= tol && std::fabs((L)sprout::tuples::get<1>(v) - wy) <= tol, w); }; auto bz = [&](V const& v, std::size_t n, char const* w) { eq(v, cas(std::vector<L>(x.begin(), x.begin() + n), t), cas(std::vector<L>(y.begin(), y.begin() + n), t), w); };
	bz(sm::bezier(t, p[0], p[1], p[2]), 3, "bezier of three points"); bz(sm::bezier(t, p[0], p[1], p[2], p[3]), 4, "bezier of four points"); bz(sm::bezier(t, p[0], p[1], p[2], p[3], p[4]), 5, "bezier of five points"); bz(sm::bezier(t, p[0], p[1], p[2], p[3], p[4], p[5]), 6, "bezier of six points"); auto tp = sprout::make_tuple(p[0], p[1], p[2], p[3], p[4], p[5]); bz(sm::bezier(t, tp), 6, "bezier of a tuple"); bz(sm::bezier<2>(t, tp), 3, "bezier<2>"); bz(sm::bezier<3>(t, tp), 4, "bezier<3>"); bz(sm::bezier<4>(t, tp), 5, "bezier<4>"); bz(sm::bezier<5>(t, tp), 6, "bezier<5>"); bz(sm::bezier<2>(t, p[0], p[1], p[2], p[3]), 3, "bezier<2> of four points"); sprout::array<V, 4> ar = {{p[0], p[1], p[2], p[3]}}; bz(sm::bezier(t, ar), 4, "bezier of an array");
	auto her = [&](std::vector<L> const& v) { L m0 = (v[2] - v[0]) / 2, m1 = (v[3] - v[1]) / 2, u = t; return (2 * u * u * u - 3 * u * u + 1) * v[1] + (u * u * u - 2 * u * u + u) * m0 + (-2 * u * u * u + 3 * u * u) * v[2] + (u * u * u - u * u) * m1; }; eq(sm::catmull_rom_spline(t, p[0], p[1], p[2], p[3]), her(x), her(y), "catmull_rom_spline"); eq(sm::catmull_rom_spline(t, ar), her(x), her(y), "catmull_rom_spline of an array");
	// the end segments: quadratics through both end points with the spline's slope at the inner one
	auto sta = [&](std::vector<L> const& v) { L m = (v[2] - v[0]) / 2, u = t, a = m - (v[1] - v[0]); return v[0] + (v[1] - v[0] - a) * u + a * u * u; }; auto en = [&](std::vector<L> const& v) { L m = (v[2] - v[0]) / 2, u = t; return v[1] + m * u + (v[2] - v[1] - m) * u * u; }; eq(sm::catmull_rom_spline_start(t, p[0], p[1], p[2]), sta(x), sta(y), "catmull_rom_spline_start"); eq(sm::catmull_rom_spline_end(t, p[0], p[1], p[2]), en(x), en(y), "catmull_rom_spline_end"); auto t3 = sprout::make_tuple(p[0], p[1], p[2]); eq(sm::catmull_rom_spline_start(t, t3), sta(x), sta(y), "start of a tuple"); eq(sm::catmull_rom_spline_end(t, t3), en(x), en(y), "end of a tuple"); count("curve points", 17); } }
MON_TEST(curves) { curve<double, sprout::tuple<double, double> >("tuple"); curve<double, sprout::array<double, 2> >("array"); curve<float, sprout::pair<float, float> >("pair of float"); curve<long double, sprout::tuple<long double, long double> >("tuple of long double"); }
#endif
