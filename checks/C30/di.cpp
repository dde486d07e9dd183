// C30: distributions against the Boost transformation of the same engine stream, through const and mutating calls.
#define SPROUT_ENABLE_ASSERT_HANDLER
#include <mon.hpp>
#include <sstream>
#include <limits>
#include <boost/random.hpp>
#include <boost/random/generate_canonical.hpp>
#include <sprout/random.hpp>
using namespace mon;
namespace sr = sprout::random; namespace br = boost::random;
typedef unsigned long long ull;
struct Assert { std::string what; };
namespace sprout { void assertion_failed(assertion_info const& i) { throw Assert { i.expr() }; } void assertion_failed_msg(assertion_info_msg const& i) { throw Assert { i.expr() }; } }
template<class F> bool asserts(F f) { try { f(); } catch (Assert const&) { return true; } return false; }
inline ull mix(ull z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
// engines with arbitrary bounds; ext!=0 biases the stream towards the bounds
template<class T, T lo, T hi> struct Eng { typedef T result_type; typedef Eng engine_type; ull s; explicit Eng(ull x = 1) : s(x) {} static constexpr T min() { return lo; } static constexpr T max() { return hi; }
	static T val(ull s) { ull r = (ull)hi - (ull)lo, h = mix(s); if (s >> 63 && (h >> 60) < 6) return (h & 1) ? lo : hi; h = mix(h); ull o = r == ~0ull ? h : h % (r + 1); return (T)((ull)lo + o); }
	T operator()() { T v = val(s); s = (s & (1ull << 63)) | ((s + 1) & ~(1ull << 63)); return v; }
	sr::random_result<Eng> const operator()() const { Eng n(*this); T v = n(); return sr::random_result<Eng>(v, n); }
	friend bool operator==(Eng const& a, Eng const& b) { return a.s == b.s; } friend bool operator!=(Eng const& a, Eng const& b) { return a.s != b.s; } };
template<class F> struct Flt { typedef F result_type; typedef Flt engine_type; ull s; explicit Flt(ull x = 1) : s(x) {} static constexpr F min() { return 0; } static constexpr F max() { return 1; } static F val(ull s) { ull h = mix(s); if (s >> 63 && (h >> 60) < 2) return 0; return (F)(mix(h) >> (64 - (std::numeric_limits<F>::digits < 53 ? std::numeric_limits<F>::digits : 53))) / (F)(1ull << (std::numeric_limits<F>::digits < 53 ? std::numeric_limits<F>::digits : 53)); }
	F operator()() { F v = val(s); s = (s & (1ull << 63)) | ((s + 1) & ~(1ull << 63)); return v; } sr::random_result<Flt> const operator()() const { Flt n(*this); F v = n(); return sr::random_result<Flt>(v, n); }
	friend bool operator==(Flt const& a, Flt const& b) { return a.s == b.s; } friend bool operator!=(Flt const& a, Flt const& b) { return a.s != b.s; } };
typedef Eng<std::uint32_t, 0, 0xffffffffu> E32; typedef Eng<ull, 0, ~0ull> E64; typedef Eng<std::uint32_t, 1, 6> E6; typedef Eng<std::uint32_t, 0, 1> E2; typedef Eng<std::uint16_t, 0, 0xffff> E16; typedef Eng<std::int32_t, -1000, 1000> ES; typedef Eng<std::int32_t, INT_MIN, INT_MAX> ESF; typedef Eng<std::uint_fast32_t, 1, 2147483646> EM; typedef Eng<std::uint8_t, 0, 255> E8; typedef Eng<std::int64_t, -5, 250> EN;
template<class T> bool near_(T a, T b, int ulp) { return a == b || std::fabs(a - b) <= (T)ulp * std::numeric_limits<T>::epsilon() * std::max(std::fabs(a), std::fabs(b)) + std::numeric_limits<T>::min(); }
template<class T> bool agree(T a, T b, std::true_type) { return near_(a, b, 4); } template<class T> bool agree(T a, T b, std::false_type) { return a == b; }
template<class T> bool agree(T a, T b) { return agree(a, b, std::is_floating_point<T>()); }
inline ull eseed() { ull s = rng()() >> 1; return rng().coin(1, 3) ? s | (1ull << 63) : s; }
// n draws in both styles compared with ref(engine)
template<class C, class E, class D, class R> void draw(C& c, D const& d0, R ref, int n, E e0) { typedef typename D::result_type T; E r(e0), m(e0), k(e0); D dm(d0), dk(d0); for (int i = 0; i < n; ++i) { T w = (T)ref(r); D const& cd = dk; E const& ck = k; auto q = cd(ck); T v = q.result(); if (!c.ok(agree(v, w), "const draw " + std::to_string(i) + " got " + std::to_string(v) + " want " + std::to_string(w))) return; c.ok(v >= d0.min() && v <= d0.max(), "range"); c.ok((T)q == v && *q == v && sr::result(q) == v && q.generated_value() == v, "result accessors"); 
		T u = dm(m); if (!c.ok(agree(u, w), "mutating draw " + std::to_string(i) + " got " + std::to_string(u) + " want " + std::to_string(w))) return; if (!c.ok(m == r, "mutating engine position")) return; if (!c.ok(q.engine() == r && q.next().engine() == r && sr::next(q).engine() == r && q.next_generator().engine() == r, "const engine position")) return;
		if (i % 8 == 3) { auto q2 = q.next()(); E r2(r); R ref2(ref); c.ok(agree((T)q2.result(), (T)ref2(r2)), "generator call"); auto q3 = q(); c.ok(q3.result() == q2.result(), "result call"); c.ok(q.min() == d0.min() && q.max() == d0.max() && q.next().min() == d0.min() && q.next().max() == d0.max(), "result bounds"); auto pm = cd(ck, d0.param()); E r3(k); D fresh(d0.param()); T x = fresh(r3); c.ok(pm.result() == x, "const call with parameters"); E r4(k); c.ok(d0(r4, d0.param()) == x && r4 == r3, "call with parameters"); }
		dk = D(q.distribution()); k = E(q.engine()); } }
// parameter access, comparison and streaming
template<class C, class D> void par(C& c, D const& d, D const& other, bool same) { typedef typename D::param_type P; P p = d.param(); P q = other.param(); c.ok((p == q) == same && (p != q) == !same, "param compare"); c.ok((d == other) == same && (d != other) == !same, "distribution compare"); D e(p); c.ok(e == d, "from param"); D f(other); f.param(p); c.ok(f == d, "set param"); f.reset(); c.ok(f == d, "reset"); { D h(p); sr::minstd_rand e1(77), e2(77); for (int j = 0; j < 6; ++j) c.ok(f(e1) == h(e2) && e1 == e2, "draws after param()"); } std::ostringstream o; o.precision(25); o << d; std::istringstream in(o.str()); D g(other); in >> g; c.ok(!in.fail() && g == d, "stream " + o.str()); std::ostringstream o2; o2.precision(25); o2 << p; std::istringstream i2(o2.str()); P h = q; i2 >> h; c.ok(!i2.fail() && h == p, "stream param"); std::wostringstream wo; wo.precision(25); wo << d; std::wistringstream wi(wo.str()); D w(other); wi >> w; c.ok(w == d, "wide stream"); }
template<class C, class D> void badtext(C& c, D const& d, char const* t) { std::istringstream in(t); D e(d); in >> e; c.ok(in.fail() && e == d, std::string("invalid parameters accepted from ") + t); std::istringstream i2(t); auto p = d.param(); i2 >> p; c.ok(i2.fail() && p == d.param(), std::string("invalid param accepted from ") + t); }
template<class T> T ival() { typedef std::numeric_limits<T> L; switch (rng().range(0, 7)) { case 0: return L::min(); case 1: return L::max(); case 2: return (T)0; case 3: return (T)rng().range(0, 20); case 4: return (T)(L::max() - (T)rng().range(0, 3)); case 5: return (T)(L::min() + (T)rng().range(0, 3)); case 6: return (T)(rng()() >> rng().range(0, 63)); default: return (T)rng()(); } }
template<class T> void bounds(T& a, T& b) { a = ival<T>(); b = ival<T>(); if (b < a) std::swap(a, b); if (rng().coin(1, 4)) { ull w[] { 0, 1, 5, 6, 7, 35, 215, 255, 256, 65535, 65536, 0x7fffffff, 0xffffffffull, 0x100000000ull, 2147483645ull, 15, 31, 63 }; ull k = w[rng().range(0, 17)]; if (k <= (ull)((typename std::make_unsigned<T>::type)~0ull)) { T hi = (T)((ull)a + k); if (hi >= a && ((ull)hi - (ull)a) == k) b = hi; } } }
template<class T, class E> void uint_(char const* en) { typedef typename std::make_unsigned<T>::type U; for (std::uint64_t i = 0; i < reps(40); ++i) { T a, b; bounds(a, b); ull s = eseed(); MON_CASE(c, std::string("uniform_int ") + en + (std::is_signed<T>::value ? " s" : " u") + std::to_string(sizeof(T) * 8), (long long)a, (long long)b, s); U w = (U)((U)b - (U)a); br::uniform_int_distribution<U> ref(0, w); auto f = [=](E& e) mutable { return (T)(U)((U)ref(e) + (U)a); }; sr::uniform_int_distribution<T> d(a, b); c.ok(d.a() == a && d.b() == b && d.min() == a && d.max() == b && d.param().a() == a && d.param().b() == b, "parameters"); draw(c, d, f, 12, E(s)); T a2, b2; bounds(a2, b2); if (sizeof(T) > 1) par(c, d, sr::uniform_int_distribution<T>(a2, b2), a == a2 && b == b2); if (a < b) c.ok(asserts([&] { sr::uniform_int_distribution<T> x(b, a); }) && asserts([&] { typename sr::uniform_int_distribution<T>::param_type x(b, a); }), "reversed bounds accepted");
		sr::uniform_smallint<T> sd(a, b); br::uniform_smallint<U> sref(0, w); auto g = [=](E& e) mutable { U v = (U)sref(e); return (T)(U)(v + (U)a); }; if (w < (ull)((ull)E::max() - (ull)E::min())) draw(c, sd, g, 6, E(s)); if (sizeof(T) > 1) par(c, sd, sr::uniform_smallint<T>(a2, b2), a == a2 && b == b2); if (a < b) c.ok(asserts([&] { sr::uniform_smallint<T> x(b, a); }), "reversed bounds accepted"); if (a < b && sizeof(T) > 1) { std::string t = std::to_string(b) + " " + std::to_string(a); badtext(c, d, t.c_str()); badtext(c, sd, t.c_str()); } } }
template<class E> void uints(char const* n) { uint_<int, E>(n); uint_<unsigned, E>(n); uint_<long long, E>(n); uint_<ull, E>(n); uint_<short, E>(n); }
template<class T, class E> void real_(char const* en) { for (std::uint64_t i = 0; i < reps(25); ++i) { T a = (T)((double)rng().range(-1000, 1000) * std::pow(10., (double)rng().range(-4, 4))), b = a + (T)((double)rng().range(1, 100000) * std::pow(10., (double)rng().range(-3, 5))); if (rng().coin(1, 4)) { a = 0; b = 1; } if (!(a < b)) continue; ull s = eseed(); MON_CASE(c, std::string("uniform_real ") + en + " " + std::to_string(sizeof(T)), a, b, s); sr::uniform_real_distribution<T> d(a, b); br::uniform_real_distribution<T> ref(a, b); c.ok(d.a() == a && d.b() == b && d.min() == a && d.max() == b, "parameters"); auto f = [=](E& e) mutable { return (T)ref(e); }; draw(c, d, f, 12, E(s)); { E e(s); for (int j = 0; j < 20; ++j) { T v = d(e); c.ok(v >= a && v < b, "[a, b)"); } } par(c, d, sr::uniform_real_distribution<T>(a, b + 1), b + 1 == b); c.ok(asserts([&] { sr::uniform_real_distribution<T> x(b, a); }), "reversed bounds accepted"); std::ostringstream o; o << b << " " << a; std::ostringstream o3; o3 << a << " " << b; if (o.str() != o3.str()) { double x, y; std::istringstream in(o.str()); in >> x >> y; if ((T)x > (T)y) badtext(c, d, o.str().c_str()); } } }
template<class T, class E> void u01(char const* en) { for (std::uint64_t i = 0; i < reps(20); ++i) { ull s = eseed(); MON_CASE(c, std::string("uniform_01 ") + en + " " + std::to_string(sizeof(T)), s); sr::uniform_01<T> d; auto f = [](E& e) { return br::uniform_01<T>()(e); }; draw(c, d, f, 15, E(s)); E e(s); for (int j = 0; j < 10; ++j) { T v = d(e); c.ok(v >= 0 && v < 1, "[0, 1)"); } } }
template<class T, std::size_t bits, class E> void canon(char const* en) { for (std::uint64_t i = 0; i < reps(15); ++i) { ull s = eseed(); MON_CASE(c, std::string("generate_canonical ") + en + " " + std::to_string(sizeof(T)) + " " + std::to_string(bits), s); E m(s), r(s), k(s); for (int j = 0; j < 10; ++j) { T w = br::generate_canonical<T, bits>(r); T v = sr::generate_canonical<T, bits>(m); c.ok(agree(v, w), "mutating draw " + std::to_string(j)); c.ok(v >= 0 && v < 1, "[0, 1)"); c.ok(m == r, "engine position"); E const& ck = k; auto p = sr::generate_canonical<T, bits>(ck); c.ok(agree((T)p.first, w), "const draw " + std::to_string(j)); k = E(p.second); c.ok(k == r, "const engine position"); } } }
template<class E> void reals(char const* n, bool sub = true) { (void)sub; real_<double, E>(n); real_<float, E>(n); real_<long double, E>(n); }
template<class E> void ones(char const* n) { u01<double, E>(n); u01<float, E>(n); u01<long double, E>(n); }
template<class E> void canons(char const* n) { canon<double, 53, E>(n); canon<float, 24, E>(n); canon<double, 10, E>(n); canon<double, 1, E>(n); canon<long double, 64, E>(n); canon<float, 100, E>(n); }
template<class T> T prob() { switch (rng().range(0, 6)) { case 0: return (T)0.5; case 1: return (T)rng().range(1, 99) / 100; case 2: return std::ldexp((T)1, (int)-rng().range(1, 20)); case 3: return 1 - std::ldexp((T)1, (int)-rng().range(1, 20)); default: return (T)(rng()() >> 40) / (T)(1 << 24) * (T)0.98 + (T)0.01; } }
template<class T, class E> void bern(char const* en) { for (std::uint64_t i = 0; i < reps(25); ++i) { T p = i == 0 ? 0 : i == 1 ? 1 : prob<T>(); ull s = eseed(); MON_CASE(c, std::string("bernoulli ") + en + " " + std::to_string(sizeof(T)), p, s); sr::bernoulli_distribution<T> d(p); br::bernoulli_distribution<T> ref(p); c.ok(d.p() == p && d.param().p() == p, "parameters"); auto f = [=](E& e) mutable { if (p == 0) { e(); return false; } return (bool)ref(e); }; E r(s), m(s); for (int j = 0; j < 20; ++j) { E r0(m); bool w = p == 0 ? false : ref(r); bool v = d(m); c.ok(v == w, "mutating"); E const& ck = r0; auto q = d(ck); c.ok(q.result() == w, "const"); c.ok(q.engine() == m, "both styles consume the same"); if (p != 0) c.ok(m == r, "position"); } (void)f; par(c, d, sr::bernoulli_distribution<T>(p / 2), p == p / 2); c.ok(asserts([&] { sr::bernoulli_distribution<T> x((T)1.25); }) && asserts([&] { sr::bernoulli_distribution<T> x((T)-0.01); }), "invalid p accepted"); badtext(c, d, "1.5"); badtext(c, d, "-0.5"); badtext(c, d, "x"); } }
template<class I, class T, class E> void geo(char const* en) { for (std::uint64_t i = 0; i < reps(25); ++i) { T p = prob<T>(); ull s = eseed(); MON_CASE(c, std::string("geometric ") + en + " " + std::to_string(sizeof(I)) + " " + std::to_string(sizeof(T)), p, s); sr::geometric_distribution<I, T> d(p); br::geometric_distribution<I, T> ref(p); c.ok(d.p() == p && d.param().p() == p && d.min() == 0, "parameters"); auto f = [=](E& e) mutable { return (I)ref(e); }; draw(c, d, f, 12, E(s)); par(c, d, sr::geometric_distribution<I, T>(p / 2), false); c.ok(asserts([&] { sr::geometric_distribution<I, T> x(0); }) && asserts([&] { sr::geometric_distribution<I, T> x((T)1.5); }) && asserts([&] { typename sr::geometric_distribution<I, T>::param_type x((T)-1); }), "invalid p accepted"); badtext(c, d, "1.5"); badtext(c, d, "-0.5"); badtext(c, d, "0"); } }
template<class I, class T, class E> void poi(char const* en) { for (std::uint64_t i = 0; i < reps(25); ++i) { T mean = rng().coin() ? (T)rng().range(1, 200) / 10 : rng().coin() ? (T)rng().range(1, 100000) / 100 : (T)10 + (T)(rng().range(-3, 3)) / 1000; ull s = eseed(); MON_CASE(c, std::string("poisson ") + en + " " + std::to_string(sizeof(I)) + " " + std::to_string(sizeof(T)), mean, s); sr::poisson_distribution<I, T> d(mean); br::poisson_distribution<I, T> ref(mean); c.ok(d.mean() == mean && d.param().mean() == mean && d.min() == 0, "parameters"); auto f = [=](E& e) mutable { return (I)ref(e); }; draw(c, d, f, 15, E(s)); par(c, d, sr::poisson_distribution<I, T>(mean + 1), false); c.ok(asserts([&] { sr::poisson_distribution<I, T> x(0); }) && asserts([&] { sr::poisson_distribution<I, T> x((T)-1); }), "invalid mean accepted"); badtext(c, d, "0"); badtext(c, d, "-2"); } }
template<class I, class T, class E> void bin(char const* en) { for (std::uint64_t i = 0; i < reps(30); ++i) { I t = (I)(rng().coin() ? rng().range(0, 30) : rng().coin() ? rng().range(0, 2000) : rng().range(0, 1000000)); T p = i == 0 ? 0 : i == 1 ? 1 : prob<T>(); ull s = eseed(); MON_CASE(c, std::string("binomial ") + en + " " + std::to_string(sizeof(I)) + " " + std::to_string(sizeof(T)), (long)t, p, s); sr::binomial_distribution<I, T> d(t, p); br::binomial_distribution<I, T> ref(t, p); c.ok(d.t() == t && d.p() == p && d.param().t() == t && d.param().p() == p && d.min() == 0 && d.max() == t, "parameters"); auto f = [=](E& e) mutable { return (I)ref(e); }; draw(c, d, f, 15, E(s)); par(c, d, sr::binomial_distribution<I, T>(t + 1, p), false); c.ok(asserts([&] { sr::binomial_distribution<I, T> x(-1, p); }) && asserts([&] { sr::binomial_distribution<I, T> x(3, (T)1.5); }) && asserts([&] { sr::binomial_distribution<I, T> x(3, (T)-0.5); }), "invalid parameters accepted"); badtext(c, d, "-1 0.5"); badtext(c, d, "3 1.5"); badtext(c, d, "3"); } }
template<class T> struct BoxMuller { T mean, sigma, r1, r2, rho; bool valid; BoxMuller(T m, T s) : mean(m), sigma(s), r1(0), r2(0), rho(0), valid(false) {} template<class E> T operator()(E& e) { if (!valid) { r1 = br::uniform_01<T>()(e); r2 = br::uniform_01<T>()(e); rho = std::sqrt(-2 * std::log(1 - r2)); valid = true; T two_pi = (T)6.283185307179586476925286766559005768L; return rho * std::cos(two_pi * r1) * sigma + mean; } valid = false; T two_pi = (T)6.283185307179586476925286766559005768L; return rho * std::sin(two_pi * r1) * sigma + mean; } };
template<class T, class E> void nor(char const* en) { for (std::uint64_t i = 0; i < reps(25); ++i) { T mean = (T)rng().range(-100, 100), sigma = i == 0 ? 0 : (T)rng().range(1, 1000) / 16; ull s = eseed(); MON_CASE(c, std::string("normal ") + en + " " + std::to_string(sizeof(T)), mean, sigma, s); sr::normal_distribution<T> d(mean, sigma); c.ok(d.mean() == mean && d.sigma() == sigma && d.stddev() == sigma && d.param().mean() == mean && d.param().sigma() == sigma && d.param().stddev() == sigma, "parameters"); BoxMuller<T> ref(mean, sigma); E r(s), m(s), k(s); sr::normal_distribution<T> dm(d), dk(d); T tol = 64 * std::numeric_limits<T>::epsilon() * (sigma * 10 + std::fabs(mean)); for (int j = 0; j < 15; ++j) { T w = ref(r); T v = dm(m); c.ok(std::fabs(v - w) <= tol, "mutating " + std::to_string(j)); sr::normal_distribution<T> const& cd = dk; E const& ck = k; auto q = cd(ck); c.ok(std::fabs(q.result() - w) <= tol, "const " + std::to_string(j)); c.ok(q.engine() == r && m == r, "position"); c.ok(q.distribution() == dm, "both styles keep the same state"); dk = sr::normal_distribution<T>(q.distribution()); k = E(q.engine()); if (j == 6) { std::ostringstream o; o.precision(25); o << dm; std::istringstream in(o.str()); sr::normal_distribution<T> h; in >> h; c.ok(!in.fail() && h == dm, "state restored " + o.str()); E m2(m), m3(m); sr::normal_distribution<T> z(dm); T a = z(m2), b = h(m3); c.ok(a == b && m2 == m3, "restored future"); z.reset(); sr::normal_distribution<T> fresh(mean, sigma); E m4(m2), m5(m2); c.ok(z(m4) == fresh(m5) && m4 == m5, "reset"); } } c.ok(asserts([&] { sr::normal_distribution<T> x(0, -1); }), "negative sigma accepted"); par(c, d, sr::normal_distribution<T>(mean + 1, sigma), false); badtext(c, d, "0 -1 0 0 0 0"); }
	if (E::max() - E::min() > 1000) { MON_CASE(c, std::string("normal moments ") + en, sizeof(T)); E e(rng()() >> 1); sr::normal_distribution<T> d(3, 2); double s1 = 0, s2 = 0; int n = 4000; for (int j = 0; j < n; ++j) { double v = (double)d(e); s1 += v; s2 += (v - 3) * (v - 3); } c.ok(std::fabs(s1 / n - 3) < 8 * 2 / std::sqrt(n), "mean " + std::to_string(s1 / n)); c.ok(std::fabs(s2 / n - 4) < 8 * 4 * std::sqrt(2. / n), "variance " + std::to_string(s2 / n)); } }
// mean and variance of the discrete and real distributions (8 standard deviations)
template<class D> void mom(char const* nm, D d, double mean, double var, double k4) { MON_CASE(c, std::string("moments ") + nm, mean, var); int n = 4000; E32 e(rng()() >> 1); double s1 = 0, s2 = 0; for (int i = 0; i < n; ++i) { double v = (double)d(e); s1 += v; s2 += (v - mean) * (v - mean); } c.ok(std::fabs(s1 / n - mean) <= 8 * std::sqrt(var / n), "mean " + std::to_string(s1 / n)); c.ok(std::fabs(s2 / n - var) <= 8 * var * std::sqrt(k4 / n), "variance " + std::to_string(s2 / n)); }
void moments() { mom("uniform_int", sr::uniform_int_distribution<int>(-10, 30), 10, (41. * 41 - 1) / 12, 1); mom("uniform_int", sr::uniform_int_distribution<int>(0, 2), 1, 2. / 3, 1); mom("uniform_smallint", sr::uniform_smallint<int>(1, 6), 3.5, 35. / 12, 1); mom("uniform_real", sr::uniform_real_distribution<double>(-1, 5), 2, 3, 1); mom("uniform_01", sr::uniform_01<double>(), .5, 1. / 12, 1); for (double p : { .1, .5, .75 }) { mom("bernoulli", sr::bernoulli_distribution<double>(p), p, p * (1 - p), 10); mom("geometric", sr::geometric_distribution<int, double>(p), (1 - p) / p, (1 - p) / p / p, 12); mom("binomial", sr::binomial_distribution<int, double>(9, p), 9 * p, 9 * p * (1 - p), 4); mom("binomial", sr::binomial_distribution<int, double>(400, p), 400 * p, 400 * p * (1 - p), 3); } for (double m : { .5, 3., 9.9, 10.1, 50., 1000. }) mom("poisson", sr::poisson_distribution<int, double>(m), m, m, 4); }
void tools() { for (std::uint64_t i = 0; i < reps(30); ++i) { ull s = eseed(); int a = (int)rng().range(-50, 0), b = (int)rng().range(1, 60); MON_CASE(c, "generators and iterators", s, a, b); typedef sr::uniform_int_distribution<int> D; D d(a, b); E32 const e(s); std::vector<int> w; { E32 m(s); br::uniform_int_distribution<int> ref(a, b); for (int j = 0; j < 40; ++j) w.push_back(ref(m)); }
		{ auto g = sr::combine(e, d); c.ok(g.engine() == e && g.distribution() == d && g.min() == a && g.max() == b, "combine"); auto q = g(); c.eq(q.result(), w[0]); auto q1 = q.next()(); c.eq(q1.result(), w[1]); auto q2 = q1(); c.eq(q2.result(), w[2]); auto it = q2; ++it; c.eq(*it, w[3]); auto old = it++; c.eq(*old, w[3]); c.eq(*it, w[4]); c.eq(*it.operator->(), w[4]); c.ok(it != old && old == old && !(it == old), "result compare"); auto x = it, y = old; x.swap(y); c.ok(*x == w[3] && *y == w[4] && x == old, "swap"); }
		{ int n = (int)rng().range(0, 40); auto f = sr::begin(e, d, n); auto l = sr::end(e, d); std::vector<int> v; for (; f != l && v.size() < 60; ++f) v.push_back(*f); c.ok(v == std::vector<int>(w.begin(), w.begin() + n), "begin/end"); auto re = sr::make_range(e, n); { std::vector<std::uint32_t> a1, a2; E32 m(s); for (auto q = re.begin(); q != re.end() && a1.size() < 60; ++q) { a1.push_back(*q); a2.push_back(m()); } c.ok(a1 == a2 && a1.size() == (std::size_t)n, "engine range"); } auto rgn = sr::make_range(e, d, n); std::vector<int> v2; for (auto q = rgn.begin(); q != rgn.end() && v2.size() < 60; ++q) v2.push_back(*q); c.ok(v2 == v, "range"); auto g = sr::begin(e, d); std::vector<int> v3; for (int j = 0; j < 40; ++j, ++g) v3.push_back(*g); c.ok(v3 == w, "unbounded begin"); }
		{ E32 m(s); auto z = sr::generate_array<12>(m, d); c.ok(std::vector<int>(z.begin(), z.end()) == std::vector<int>(w.begin(), w.begin() + 12), "generate_array"); auto p = sr::generate_array<12>(sr::combine(e, d)); c.ok(std::vector<int>(p.first.begin(), p.first.end()) == std::vector<int>(w.begin(), w.begin() + 12), "const generate_array"); c.ok(p.second.engine() == m, "const generate_array position"); E32 m2(s), m3(s); auto r = sr::generate_array<9>(m2); auto r2 = sr::generate_array<9>(e); for (std::size_t j = 0; j < 9; ++j) { auto x = m3(); c.ok(r[j] == x && r2.first[j] == x, "raw generate_array"); } c.ok(r2.second == m3, "raw position"); } } }
#if MON_PART(0)
MON_TEST(uint_e32) { uints<E32>("u32"); } MON_TEST(uint_e6) { uints<E6>("1..6"); } MON_TEST(tools_) { tools(); }
#endif
#if MON_PART(1)
MON_TEST(uint_e64) { uints<E64>("u64"); } MON_TEST(uint_es) { uints<ES>("-1000..1000"); } MON_TEST(uint_e8) { uints<E8>("u8"); }
#endif
#if MON_PART(2)
MON_TEST(uint_esf) { uints<ESF>("full int"); } MON_TEST(uint_e2) { uint_<int, E2>("0..1"); uint_<ull, E2>("0..1"); uint_<long long, EM>("minstd"); uint_<unsigned, EM>("minstd"); uint_<long long, EN>("-5..250"); uint_<int, E16>("u16"); } MON_TEST(flt) { real_<double, Flt<double>>("float engine"); u01<double, Flt<double>>("float engine"); u01<float, Flt<float>>("float engine"); uint_<int, Flt<double>>("float engine"); }
#endif
#if MON_PART(3)
MON_TEST(real_e) { reals<E32>("u32"); reals<E64>("u64"); reals<ESF>("full int"); reals<E6>("1..6"); } MON_TEST(one_e) { ones<E32>("u32"); ones<E64>("u64"); ones<ES>("-1000..1000"); ones<E6>("1..6"); } MON_TEST(can_e) { canons<E32>("u32"); canons<E64>("u64"); canons<ES>("-1000..1000"); canons<E6>("1..6"); canons<EM>("minstd"); }
#endif
#if MON_PART(4)
MON_TEST(bern_e) { bern<double, E32>("u32"); bern<float, E6>("1..6"); bern<double, ES>("-1000..1000"); bern<long double, E64>("u64"); } MON_TEST(geo_e) { geo<int, double, E32>("u32"); geo<long long, double, E64>("u64"); geo<int, float, E6>("1..6"); geo<long long, long double, EM>("minstd"); } MON_TEST(nor_e) { nor<double, E32>("u32"); nor<float, EM>("minstd"); nor<long double, E64>("u64"); nor<double, E6>("1..6"); }
#endif
#if MON_PART(5)
MON_TEST(poi_e) { poi<int, double, E32>("u32"); poi<long long, double, E64>("u64"); poi<int, float, EM>("minstd"); poi<int, double, ES>("-1000..1000"); } MON_TEST(bin_e) { bin<int, double, E32>("u32"); bin<long long, double, E64>("u64"); bin<int, double, EM>("minstd"); bin<int, double, ES>("-1000..1000"); } MON_TEST(mom_e) { moments(); }
#endif
