// C38: ray tracing (sprout/darkroom) against analytic geometry in long double.
#include <mon.hpp>
#include <spr.hpp>
#include <cmath>
#include <memory>
#include <sprout/darkroom.hpp>
#include <sprout/array.hpp>
#include <sprout/array/tuple.hpp>
using namespace mon;
namespace dk = sprout::darkroom;
namespace co = sprout::darkroom::coords;
namespace cl = sprout::darkroom::colors;
namespace ma = sprout::darkroom::materials;
namespace ob = sprout::darkroom::objects;
namespace li = sprout::darkroom::lights;
namespace ra = sprout::darkroom::rays;
namespace in = sprout::darkroom::intersects;
namespace rd = sprout::darkroom::renderers;
namespace st = sprout::tuples;
#define MON_PART(i) (MON_SHARD == (i))
typedef long double L;
static const L PI = 3.14159265358979323846264338327950288L;

// ---- reference vectors
struct R3 { L x, y, z; };
static R3 operator+(R3 a, R3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
static R3 operator-(R3 a, R3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static R3 operator*(R3 a, L s) { return {a.x * s, a.y * s, a.z * s}; }
static R3 operator-(R3 a) { return {-a.x, -a.y, -a.z}; }
static L dot(R3 a, R3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static R3 cross(R3 a, R3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static L len(R3 a) { return std::sqrt(dot(a, a)); }
static R3 unit(R3 a) { return a * (1 / len(a)); }
template<class V> static R3 r3(V const& v) { return {(L)st::get<0>(v), (L)st::get<1>(v), (L)st::get<2>(v)}; }
static std::string str3(R3 a) { return "(" + str((double)a.x) + "," + str((double)a.y) + "," + str((double)a.z) + ")"; }
static co::vector3d_t v3(R3 a) { return co::vector3d((double)a.x, (double)a.y, (double)a.z); }
template<class C> static bool near(C& c, L got, L want, L tol, const char* what) {
	bool o = std::fabs(got - want) <= tol; c.ok(o, std::string(what) + ": " + str((double)got) + " instead of " + str((double)want)); return o;
}
template<class C> static bool near3(C& c, R3 got, R3 want, L tol, const char* what) {
	bool o = std::fabs(got.x - want.x) <= tol && std::fabs(got.y - want.y) <= tol && std::fabs(got.z - want.z) <= tol;
	c.ok(o, std::string(what) + ": " + str3(got) + " instead of " + str3(want)); return o;
}
static double coord() { auto& r = rng(); switch (r.below(6)) { case 0: return 0; case 1: return (double)r.range(-4, 4); case 2: return r.range(-64, 64) / 8.0; case 3: return r.range(-1000000, 1000000) / 1e3; case 4: return r.range(-1000, 1000) / 1e6; default: return r.range(-1000000, 1000000) / 1e5; } }
static R3 pos() { return {coord(), coord(), coord()}; }
static double uni() { return rng().range(-1000000, 1000000) / 1e6; }
static R3 anydir() { for (;;) { R3 d; switch (rng().below(5)) { case 0: d = {(L)rng().range(-1, 1), (L)rng().range(-1, 1), (L)rng().range(-1, 1)}; break; default: d = {uni(), uni(), uni()}; } if (len(d) > 1e-3) return d; } }
static R3 dir() { return r3(v3(unit(anydir()))); }	// a unit vector as representable in double
typedef cl::rgb_f_t C3;
static C3 colour() { return C3(rng().range(-10, 40) / 16.0, rng().range(0, 32) / 16.0, rng().range(0, 1000) / 500.0); }

#if MON_PART(0)
template<class V> struct Mk;
template<class T> struct Mk<st::tuple<T, T, T> > { typedef T unit; static st::tuple<T, T, T> f(R3 a) { return st::tuple<T, T, T>((T)a.x, (T)a.y, (T)a.z); } };
template<class T> struct Mk<sprout::array<T, 3> > { typedef T unit; static sprout::array<T, 3> f(R3 a) { return sprout::array<T, 3>{{(T)a.x, (T)a.y, (T)a.z}}; } };
template<class V> static void vectors(const char* nm) {
	typedef typename Mk<V>::unit T; L e = std::numeric_limits<T>::epsilon();
	for (int k = 0; k < reps(1200); ++k) {
		V a = Mk<V>::f(pos()), b = Mk<V>::f(pos()); if (rng().below(8) == 0) b = a; R3 A = r3(a), B = r3(b); L m = (len(A) + 1) * (len(B) + 1), s1 = len(A) + len(B) + 1;
		MON_CASE(c, nm, str3(A), str3(B));
		c.eq((L)co::x(a), A.x, "x"); c.eq((L)co::y(a), A.y, "y"); c.eq((L)co::z(a), A.z, "z");
		near3(c, r3(co::add(a, b)), A + B, 2 * e * s1, "add"); near3(c, r3(co::sub(a, b)), A - B, 2 * e * s1, "sub");
		T f = (T)coord(); near3(c, r3(co::scale(a, f)), A * (L)f, 2 * e * (len(A) * std::fabs((L)f) + 1), "scale");
		near3(c, r3(co::negate(a)), -A, 0, "negate");
		near(c, co::dot(a, b), dot(A, B), 8 * e * m, "dot"); near3(c, r3(co::cross(a, b)), cross(A, B), 8 * e * m, "cross");
		near(c, co::length_sq(a), dot(A, A), 8 * e * dot(A, A), "length_sq"); near(c, co::length(a), len(A), 8 * e * len(A), "length");
		c.eq(co::is_zero(a), A.x == 0 && A.y == 0 && A.z == 0, "is_zero");
		if (len(A) > 1e-6L) {
			near3(c, r3(co::normalize(a)), unit(A), 8 * e, "normalize");
			T w = (T)(rng().range(1, 4000) / 100.0); near3(c, r3(co::resize(a, w)), unit(A) * (L)w, 16 * e * w, "resize");
		}
		// mirror and refraction directions
		V i = Mk<V>::f(dir()), n = Mk<V>::f(dir()); R3 I = r3(i), N = r3(n);
		if (dot(I, N) > 0) { n = Mk<V>::f(-N); N = r3(n); }
		near3(c, r3(co::reflect(i, n)), I - N * (2 * dot(I, N)), 16 * e, "reflect");
		T eta = (T)(rng().range(30, 300) / 100.0); L t = -dot(I, N), kk = (L)eta * eta + t * t - 1;
		V q = co::refract(i, n, eta); R3 Q = r3(q);
		if (kk < -1e-4L) c.ok(co::is_zero(q), "total reflection yields the zero vector, got " + str3(Q));
		else if (kk > 1e-4L) {
			near3(c, Q, (I + N * (t - std::sqrt(kk))) * (1 / (L)eta), 64 * e / std::sqrt(kk) * 4, "refract");
			near(c, len(Q), 1, 2000 * e / eta, "length of the refracted direction");
			near3(c, cross(Q, N) * (L)eta, cross(I, N), 4000 * e, "Snell's law (sines keep the ratio, plane of incidence)");
			c.ok(dot(Q, N) < 1e-3L, "refracted ray goes through the surface");
		}
	}
}
MON_TEST(vector_double) { vectors<co::vector3d_t>("tuple<double>"); }
MON_TEST(vector_float) { vectors<st::tuple<float, float, float> >("tuple<float>"); }
MON_TEST(vector_array) { vectors<sprout::array<double, 3> >("array<double,3>"); }
MON_TEST(colours) {
	for (int k = 0; k < reps(2000); ++k) {
		C3 a = colour(), b = colour(), d = colour(); R3 A = r3(a), B = r3(b), D = r3(d); double f = coord(), g = coord(); L e = 1e-12L * (1 + std::fabs(f)) * (1 + std::fabs(g));
		MON_CASE(c, "colours", str3(A), str3(B), f);
		c.eq((L)cl::r(a), A.x, "r"); c.eq((L)cl::g(a), A.y, "g"); c.eq((L)cl::b(a), A.z, "b");
		near3(c, r3(cl::mul(a, f)), A * f, e, "mul"); near3(c, r3(cl::mul(a, f, g)), A * f * g, e * 4, "mul with two factors");
		near3(c, r3(cl::add(a, b)), A + B, e, "add"); near3(c, r3(cl::add(a, b, d)), A + B + D, e, "add of three"); near3(c, r3(cl::add(a, b, d, a)), A + B + D + A, e, "add of four");
		R3 F = {A.x * B.x, A.y * B.y, A.z * B.z}, G = {F.x * D.x, F.y * D.y, F.z * D.z};
		near3(c, r3(cl::filter(a, b)), F, e, "filter"); near3(c, r3(cl::filter(a, b, d)), G, e, "filter of three");
		near3(c, r3(ma::bilinear_interpolate(a, b, d, a, 0.25, 0.625)), (A * 0.75L + B * 0.25L) * 0.375L + (D * 0.75L + A * 0.25L) * 0.625L, e, "bilinear_interpolate");
		double u = rng().range(0, 1000) / 1000.0, v = rng().range(0, 1000) / 1000.0;
		near3(c, r3(ma::bilinear_interpolate(a, b, d, b, u, v)), (A * (1 - (L)u) + B * u) * (1 - (L)v) + (D * (1 - (L)u) + B * u) * v, e, "bilinear_interpolate");
		C3 n = C3(uni(), uni(), uni()); near3(c, r3(rd::normal_to_color<C3>(n)), R3{0.5L + st::get<0>(n) * 0.5L, 0.5L + st::get<1>(n) * 0.5L, 0.5L + st::get<2>(n) * 0.5L}, e, "normal_to_color");
		near3(c, r3(rd::calculate_infinity<C3>(rd::make_direction_gradation(), n)), r3(rd::normal_to_color<C3>(n)), 0, "direction_gradation");
		near3(c, r3(rd::calculate_infinity<C3>(rd::make_uniform_color(a), n)), A, 0, "uniform_color"); near3(c, r3(rd::calculate_infinity<C3>(rd::make_uniform_color(), n)), R3{0, 0, 0}, 0, "uniform_color()");
		// clamping
		auto chan = [](double x, unsigned mx) -> unsigned { return x < 0 ? 0 : x > 1 ? mx : (unsigned)(x * mx); };
		double q[3]; for (double& x : q) switch (rng().below(7)) { case 0: x = 0; break; case 1: x = 1; break; case 2: x = std::nextafter(1.0, 2.0); break; case 3: x = -std::numeric_limits<double>::denorm_min(); break; case 4: x = coord(); break; case 5: x = rng().coin() ? 1e300 : -1e300; break; default: x = rng().range(0, 100000) / 1e5; }
		C3 w(q[0], q[1], q[2]);
		auto p8 = cl::rgb_f_to_rgb<cl::rgb_t>(w);
		c.eq((unsigned)st::get<0>(p8), chan(q[0], 255), "rgb_f_to_rgb r"); c.eq((unsigned)st::get<1>(p8), chan(q[1], 255), "rgb_f_to_rgb g"); c.eq((unsigned)st::get<2>(p8), chan(q[2], 255), "rgb_f_to_rgb b");
		auto p16 = cl::rgb_f_to_rgb<st::tuple<std::uint16_t, std::uint16_t, std::uint16_t> >(w);
		c.eq((unsigned)st::get<0>(p16), chan(q[0], 65535), "rgb_f_to_rgb 16 r"); c.eq((unsigned)st::get<1>(p16), chan(q[1], 65535), "rgb_f_to_rgb 16 g"); c.eq((unsigned)st::get<2>(p16), chan(q[2], 65535), "rgb_f_to_rgb 16 b");
		auto rgb = cl::rgb((std::uint8_t)k, (std::uint8_t)(k >> 3), 7); c.eq((int)cl::r(rgb), k & 255, "rgb r"); c.eq((int)cl::g(rgb), (k >> 3) & 255, "rgb g"); c.eq((int)cl::b(rgb), 7, "rgb b");
		near3(c, r3(cl::rgb_f(q[0], q[1], q[2])), r3(w), 0, "rgb_f");
	}
}
MON_TEST(ray) {
	for (int k = 0; k < reps(2000); ++k) {
		R3 P = pos(), D = dir(); auto r = ra::make_ray(v3(P), v3(D)); double t = coord();
		MON_CASE(c, "ray", str3(P), str3(D), t);
		near3(c, r3(ra::position(r)), P, 0, "position"); near3(c, r3(ra::direction(r)), D, 0, "direction");
		near3(c, r3(ra::point_of_intersection(r, t)), P + D * t, 4e-16L * (len(P) + std::fabs(t) + 1), "point_of_intersection");
		R3 A = anydir() * (L)(1 + rng().below(9)); A = r3(v3(A)); L h = 256 * 2.220446049250313e-16L;
		near3(c, r3(ra::detach_position(v3(P), v3(A))), P + unit(A) * h, h * 1e-12L + 2.3e-16L * len(P), "detach_position");
		auto d = ra::make_detached_ray(v3(P), v3(A)); near3(c, r3(ra::position(d)), r3(ra::detach_position(v3(P), v3(A))), 0, "make_detached_ray position"); near3(c, r3(ra::direction(d)), A, 0, "make_detached_ray direction");
		auto it = in::make_intersection(true, t, v3(P), v3(D), st::make_tuple(colour()), true);
		c.eq((bool)in::does_intersect(it), true, "does_intersect"); c.eq((double)in::distance(it), t, "distance"); near3(c, r3(in::point_of_intersection(it)), P, 0, "point"); near3(c, r3(in::normal(it)), D, 0, "normal"); c.eq((bool)in::is_from_inside(it), true, "is_from_inside");
		auto i5 = in::make_intersection(false, t, v3(P), v3(D), st::make_tuple(colour())); c.eq((bool)in::is_from_inside(i5), false, "is_from_inside of a five element intersection");
	}
}
#endif

// ---- materials that record where they were evaluated
struct Where { typedef C3 result_type; template<class U> constexpr C3 operator()(U const& u, U const& v) const { return C3(u, v, 0.5); } };
typedef st::tuple<Where> WM;
static auto where() -> WM { return st::make_tuple(Where()); }

#if MON_PART(1)
MON_TEST(sphere) {
	int hits = 0, inside = 0, miss = 0; (void)hits;
	for (int k = 0; k < reps(6000); ++k) {
		R3 S = pos(); double r = rng().coin() ? rng().range(1, 80) / 8.0 : rng().range(1, 100000) / 1e3; R3 P, D = dir(); bool ext = false;
		switch (rng().below(6)) {
		case 0: P = pos(); break;
		case 4: case 5: { L h = std::pow(10.0L, -(L)rng().range(300, 5500) / 1000); P = S + dir() * (r * (rng().coin() ? 1 + h : 1 - h)); if (rng().coin()) { D = r3(v3(unit(S + dir() * (r * rng().range(0, 90) / 100.0L) - P))); if (rng().coin()) D = -D; } break; }	// just off the surface
		case 1: P = S + dir() * (r * rng().range(0, 95) / 100.0L); break;	// from inside
		default: { P = S + dir() * (r * (1 + rng().range(1, 4000) / 1000.0L)); R3 aim = S + dir() * (r * rng().range(0, 120) / 100.0L); D = r3(v3(unit(aim - P))); if (rng().below(4) == 0) D = -D; } break;
		}
		P = r3(v3(P));
		MON_CASE(c, "sphere", str3(S), r, str3(P), str3(D));
		auto s = ob::make_sphere(v3(S), r, where()); auto x = ob::intersect(s, ra::make_ray(v3(P), v3(D)));
		R3 V = P - S; L b = -dot(V, D), q = b * b - dot(V, V) + (L)r * r, sc = len(V) + r + 1;
		if (std::fabs(q) < 1e-6L * sc * sc) continue;
		if (q < 0) { ++miss; c.eq((bool)in::does_intersect(x), false, "the ray misses the sphere"); c.eq((double)in::distance(x), -1.0, "distance of a miss"); continue; }
		L d = std::sqrt(q), t1 = b - d, t2 = b + d;
		if (std::fabs(t1) < 1e-6L * sc || std::fabs(t2) < 1e-6L * sc) continue;
		bool hit = t2 > 0; c.eq((bool)in::does_intersect(x), hit, "does_intersect");
		if (!hit) { ++miss; c.eq((double)in::distance(x), -1.0, "distance of a miss"); continue; }
		++hits; L t = t1 < 0 ? t2 : t1; L tol = 1e-9L * sc;
		near(c, in::distance(x), t, tol, "distance"); R3 H = P + D * t; near3(c, r3(in::point_of_intersection(x)), H, tol, "point of intersection");
		R3 N = unit(H - S); bool ins = t1 < 0; if (ins) ++inside; L nt = tol / r + 1e-12L;
		c.eq((bool)in::is_from_inside(x), ins, "is_from_inside"); near3(c, r3(in::normal(x)), ins ? -N : N, nt, "normal"); near(c, len(r3(in::normal(x))), 1, 1e-14L, "normal is a unit vector");
		near(c, len(r3(in::point_of_intersection(x)) - S), r, tol, "the point is on the sphere");
		L rho = std::sqrt(N.x * N.x + N.z * N.z), u = std::atan2(N.z, N.x) / PI, v = std::atan2(N.y, rho) / (PI / 2);
		C3 m = ma::color(in::material(x));
		if (rho > 1e-3L && !(N.x < 0 && std::fabs(N.z) < 1e-3L)) near(c, cl::r(m), u, nt / rho * 10 + 1e-12L, "material is evaluated at the longitude of the point");
		near(c, cl::g(m), v, 1e-7L + nt * 10, "material is evaluated at the latitude of the point");
		count("sphere.hits");
	}
}
MON_TEST(plane) {
	typedef ob::aa_plane_direction DR; typedef ob::aa_plane_face FC;
	for (int k = 0; k < reps(6000); ++k) {
		int ax = rng().below(3); int f = rng().below(4); double val = rng().below(5) == 0 ? 0 : coord(); R3 P = r3(v3(pos())), D = dir(); if (rng().below(3) == 0) { double h = std::pow(10.0, -(double)rng().range(0, 9000) / 1000); (ax == 0 ? P.x : ax == 1 ? P.y : P.z) = rng().coin() ? val + h : val - h; }
		MON_CASE(c, "aa_plane", ax, f, val, str3(P), str3(D));
		auto pl = f == 0 && rng().coin() ? ob::make_aa_plane((DR::values)ax, val, where()) : ob::make_aa_plane((DR::values)ax, val, where(), f == 0 ? FC::both : f == 1 ? FC::negative : f == 2 ? FC::positive : FC::same_as_direction);
		auto x = ob::intersect(pl, ra::make_ray(v3(P), v3(D)));
		L p = ax == 0 ? P.x : ax == 1 ? P.y : P.z, d = ax == 0 ? D.x : ax == 1 ? D.y : D.z;
		if (p == val) continue;
		bool hit = p > val ? d < 0 : d > 0; c.eq((bool)in::does_intersect(x), hit, "does_intersect");
		if (!hit) { c.eq((double)in::distance(x), -1.0, "distance of a miss"); continue; }
		L t = (val - p) / d, tol = 1e-12L * (std::fabs(t) + len(P) + std::fabs(val) + 1); near(c, in::distance(x), t, tol, "distance");
		R3 H = P + D * t, G = r3(in::point_of_intersection(x)); near3(c, G, H, tol, "point of intersection"); near(c, ax == 0 ? G.x : ax == 1 ? G.y : G.z, val, tol, "the point is in the plane");
		L s = p > val ? 1 : -1; near3(c, r3(in::normal(x)), R3{ax == 0 ? s : 0, ax == 1 ? s : 0, ax == 2 ? s : 0}, 0, "normal faces the origin of the ray");
		C3 m = ma::color(in::material(x)); near(c, cl::r(m), ax == 0 ? G.z : G.x, 0, "material u"); near(c, cl::g(m), ax == 0 ? G.y : ax == 1 ? G.z : G.y, 0, "material v");
		bool ins = f == 0 ? false : f == 1 ? d > 0 : f == 2 ? d < 0 : (val > 0 && d < 0) || (val < 0 && d > 0);
		c.eq((bool)in::is_from_inside(x), ins, "is_from_inside"); count("plane.hits");
	}
}
MON_TEST(triangle) {
	for (int k = 0; k < reps(6000); ++k) {
		R3 A = r3(v3(pos())), B, Cc; if (rng().coin()) { B = r3(v3(pos())); Cc = r3(v3(pos())); } else { B = r3(v3(A + anydir())); Cc = r3(v3(A + anydir())); }
		R3 nn = cross(Cc - A, B - A); L e1 = len(B - A), e2 = len(Cc - A), e3 = len(Cc - B); if (std::min(e1, std::min(e2, e3)) < 1e-3L || len(nn) < 0.05L * e1 * e2) continue;
		R3 N = unit(nn); L sc = e1 + e2 + e3; double u = rng().range(-30, 130) / 100.0, v = rng().range(-30, 130) / 100.0;
		R3 X = A + (B - A) * u + (Cc - A) * v; R3 P = r3(v3(X + dir() * (rng().coin() ? sc * rng().range(1, 300) / 100.0L : sc * std::pow(10.0L, -(L)rng().range(0, 4500) / 1000)))); R3 D = r3(v3(unit(X - P))); if (rng().below(4) == 0) D = -D; if (rng().below(6) == 0) D = dir();
		L vn = dot(D, N); if (std::fabs(vn) < 0.02L) continue;
		L t = dot(A - P, N) / vn; R3 H = P + D * t;
		// barycentric coordinates of the plane point
		R3 b = B - A, cc = Cc - A, h = H - A; L bb = dot(b, b), bc = dot(b, cc), c2 = dot(cc, cc), hb = dot(h, b), hc = dot(h, cc), det = bb * c2 - bc * bc; L bu = (hb * c2 - hc * bc) / det, bv = (hc * bb - hb * bc) / det, bw = 1 - bu - bv;
		L mg = 1e-5L; if (std::fabs(bu) < mg || std::fabs(bv) < mg || std::fabs(bw) < mg || std::fabs(t) < 1e-5L * sc) continue;
		MON_CASE(c, "triangle", str3(A), str3(B), str3(Cc), str3(P), str3(D));
		auto tr = ob::make_triangle(where(), v3(A), v3(B), v3(Cc)); auto x = ob::intersect(tr, ra::make_ray(v3(P), v3(D)));
		bool hit = t > 0 && bu > 0 && bv > 0 && bw > 0; c.eq((bool)in::does_intersect(x), hit, "does_intersect");
		if (!hit) { c.eq((double)in::distance(x), -1.0, "distance of a miss"); continue; }
		L tol = 1e-9L * (sc + len(A) + len(P)); near(c, in::distance(x), t, tol, "distance"); near3(c, r3(in::point_of_intersection(x)), H, tol, "point of intersection");
		near3(c, r3(in::normal(x)), N, 1e-9L * (1 + len(A) / sc), "normal"); c.eq((bool)in::is_from_inside(x), false, "is_from_inside"); count("triangle.hits");
	}
}
#endif

template<class M> static st::tuple<bool, L> summary(M const& m) { return st::tuple<bool, L>(in::does_intersect(m), in::distance(m)); }
static auto um(C3 a, double b, double cc, double d) -> decltype(ma::make_uniform_material_image(a, b, cc, d)) { return ma::make_uniform_material_image(a, b, cc, d); }
typedef decltype(um(C3(), 0, 0, 0)) UM;
typedef ob::basic_sphere<UM> Sph; typedef ob::basic_aa_plane<UM> Pln; typedef ob::basic_triangle<UM> Tri;
static double mr() { switch (rng().below(4)) { case 0: return 0; case 1: return 0.5; default: return rng().range(0, 45) / 100.0; } }
static UM rmat() { return um(C3(rng().range(0, 100) / 100.0, rng().range(0, 100) / 100.0, rng().range(0, 100) / 100.0), mr(), mr(), rng().below(5) == 0 ? 0.0 : rng().range(80, 250) / 100.0); }
static Sph rsph() { return ob::make_sphere(co::vector3d(rng().range(-30, 30) / 10.0, rng().range(-30, 30) / 10.0, rng().range(20, 90) / 10.0), rng().range(3, 25) / 10.0, rmat()); }
static Pln rpln() { auto f = ob::aa_plane_face::both; switch (rng().below(4)) { case 0: f = ob::aa_plane_face::negative; break; case 1: f = ob::aa_plane_face::positive; break; case 2: f = ob::aa_plane_face::same_as_direction; } switch (rng().below(3)) { case 0: return ob::make_aa_plane(ob::aa_plane_direction::x, rng().coin() ? 5.25 : -5.25, rmat(), f); case 1: return ob::make_aa_plane(ob::aa_plane_direction::y, rng().coin() ? 4.25 : -4.25, rmat(), f); default: return ob::make_aa_plane(ob::aa_plane_direction::z, rng().coin() ? 11.5 : -3.5, rmat(), f); } }
static Tri rtri() { for (;;) { R3 a = r3(v3(R3{uni() * 4, uni() * 4, 4 + uni() * 3})), b = r3(v3(R3{uni() * 4, uni() * 4, 4 + uni() * 3})), c = r3(v3(R3{uni() * 4, uni() * 4, 4 + uni() * 3})); if (len(cross(c - a, b - a)) > 1) return ob::make_triangle(rmat(), v3(a), v3(b), v3(c)); } }
template<class A, class B> static bool sameinter(A const& a, B const& b) { return in::does_intersect(a) == in::does_intersect(b) && in::distance(a) == in::distance(b) && in::point_of_intersection(a) == in::point_of_intersection(b) && in::normal(a) == in::normal(b) && in::material(a) == in::material(b) && in::is_from_inside(a) == in::is_from_inside(b); }

#if MON_PART(2)
template<class C, class List, class Ray, class... O> static void listcase(C& c, List const& l, Ray const& ray, O const&... o) {
	auto x = ob::intersect(l, ray); auto y = ob::intersect_list(l, ray);
	typedef decltype(x) X; std::vector<X> each; int dummy[] = {(each.push_back(X(ob::intersect(o, ray))), 0)...}; (void)dummy;
	int best = -1; bool tie = false; for (std::size_t i = 0; i < each.size(); ++i) if (in::does_intersect(each[i])) { if (best < 0 || in::distance(each[i]) < in::distance(each[best])) { best = i; } }
	c.eq((bool)in::does_intersect(x), best >= 0, "list hit"); c.eq((bool)in::does_intersect(y), best >= 0, "list hit (intersect_list)");
	if (best < 0) return;
	for (std::size_t i = 0; i < each.size(); ++i) if ((int)i != best && in::does_intersect(each[i]) && in::distance(each[i]) == in::distance(each[best])) tie = true;
	if (tie) return;
	c.ok(sameinter(x, each[best]), "the nearest intersection is reported: object " + std::to_string(best) + " at " + str(in::distance(each[best])) + ", reported " + str(in::distance(x))); c.ok(sameinter(x, y), "intersect and intersect_list agree"); count("list.hits");
}
MON_TEST(lists) {
	for (int k = 0; k < reps(2500); ++k) {
		Sph s = rsph(), s2 = rsph(), s3 = rsph(); Pln p = rpln(), p2 = rpln(); Tri t = rtri(); auto ray = ra::make_ray(v3(R3{uni() * 3, uni() * 3, uni() * 3}), v3(dir()));
		MON_CASE(c, "object_list", str3(r3(ra::position(ray))), str3(r3(ra::direction(ray))));
		listcase(c, ob::make_object_list(s), ray, s); listcase(c, ob::make_object_list(s, s2), ray, s, s2); listcase(c, ob::make_object_list(p, s, s2, t), ray, p, s, s2, t); listcase(c, ob::make_object_list(t, s3, s2, s, p2, p), ray, t, s3, s2, s, p2, p);
		listcase(c, ob::make_object_list(ob::make_object_list(s, t), p, ob::make_object_list(s2, p2)), ray, s, t, p, s2, p2);
	}
}
template<class C, class Inter, class Objs> static R3 lightref(C& c, Inter const& x, Objs const& o, R3 D, R3 col, int kind, R3 LP, bool& doubt) {
	R3 M = r3(ma::color(in::material(x))), F = {col.x * M.x, col.y * M.y, col.z * M.z}, P = r3(in::point_of_intersection(x)), N = r3(in::normal(x)); L eps = 2.220446049250313e-16L;
	R3 d = kind == 1 ? unit(D) : unit(LP - P); L far = kind == 1 ? 1e300L : len(LP - P);
	R3 Q = P + d * (256 * eps); auto y = ob::intersect(o, ra::make_ray(v3(Q), v3(d)));
	if (in::does_intersect(y) && (in::distance(y) < 1e-6 || std::fabs(in::distance(y) - far) < 1e-6)) doubt = true;
	bool dark = in::does_intersect(y) && !(in::distance(y) > far) && !(in::distance(y) < eps); if (dark) count("light.shadowed"); else count("light.lit");
	L i = dark ? 0 : std::max(eps, kind == 1 ? dot(d, N) : dot(d, N) / (far + 1)); return F * i;
}
MON_TEST(light) {
	for (int k = 0; k < reps(2500); ++k) {
		Sph s = rsph(), s2 = rsph(); Pln p = rpln(), p2 = rpln(); Tri t = rtri(); auto objs = ob::make_object_list(p, s, s2, p2, t); auto ray = ra::make_ray(v3(R3{uni() * 3, uni() * 3, uni()}), v3(dir()));
		auto x = ob::intersect(objs, ray); if (!in::does_intersect(x)) continue;
		C3 ca = colour(), cp = colour(), cd = colour(); R3 D = anydir() * (L)rng().range(1, 5), LP = {uni() * 5, uni() * 5, uni() * 5 + 4}; D = r3(v3(D)); LP = r3(v3(LP)); R3 M = r3(ma::color(in::material(x)));
		MON_CASE(c, "lights", str3(r3(ra::position(ray))), str3(r3(ra::direction(ray))), str3(D), str3(LP));
		bool doubt = false; auto A = li::make_ambient_light(ca); auto B = li::make_parallel_light(v3(D), cd); auto P = li::make_point_light(v3(LP), cp);
		R3 a = {r3(ca).x * M.x, r3(ca).y * M.y, r3(ca).z * M.z}; near3(c, r3(li::calculate(A, x, objs)), a, 1e-14L, "ambient");
		R3 b = lightref(c, x, objs, D, r3(cd), 1, LP, doubt), q = lightref(c, x, objs, D, r3(cp), 2, LP, doubt); if (doubt) continue;
		near3(c, r3(li::calculate(B, x, objs)), b, 1e-11L, "parallel light"); near3(c, r3(li::calculate(P, x, objs)), q, 1e-11L, "point light");
		near3(c, r3(li::calculate(li::make_light_list(A, P, B), x, objs)), a + b + q, 1e-10L, "light list"); near3(c, r3(li::calculate(li::make_light_list(B, P, A, li::make_light_list(P, A)), x, objs)), a + b + q + q + a, 1e-10L, "nested light list");
		near3(c, r3(li::calculate(li::make_light_list(P), x, objs)), q, 1e-11L, "light list of one");
		// alone in the world: nothing shadows
		auto far = ob::make_object_list(ob::make_sphere(co::vector3d(1e6, 1e6, -1e6), 1.0, rmat())); R3 d = unit(LP - r3(in::point_of_intersection(x))); L i = std::max(2.220446049250313e-16L, dot(unit(D), r3(in::normal(x)))); near3(c, r3(li::calculate(B, x, far)), R3{r3(cd).x * M.x, r3(cd).y * M.y, r3(cd).z * M.z} * i, 1e-11L, "parallel light without occluders");
	}
}
#endif

#if MON_PART(3)
static long fdiv(long a, long b) { long q = a / b; return (a % b != 0 && (a < 0) != (b < 0)) ? q - 1 : q; }
static long fmodi(long a, long b) { return a - fdiv(a, b) * b; }
template<class Tex> static void texcase(Tex const& t, std::vector<R3> const& px, long W, long H) {
	for (int k = 0; k < reps(700); ++k) {
		bool bil = rng().coin(), once = rng().coin(); C3 def = colour(); double s = rng().pick(std::vector<double>{1, 2, 0.5, 4, 0.25, 3}), ou = rng().range(-8, 8) / 4.0, ov = rng().range(-8, 8) / 4.0;
		double u = rng().range(-2048, 2048) / 256.0, v = rng().range(-2048, 2048) / 256.0; if (rng().below(3) == 0) { u = std::floor(u * 4) / 4; v = std::floor(v * 4) / 4; } if (s == 3) { u = uni() * 9; v = uni() * 9; }
		MON_CASE(c, "texture_map", W, H, bil, once, s, ou, ov, u, v);
		auto tm = ma::make_texture_map(t, s, ou, ov, def, bil ? ma::texture_map_interpolation::bilinear : ma::texture_map_interpolation::nearest_neighbor, once ? ma::texture_map_placement::once : ma::texture_map_placement::tile);
		double x = (u - ou + s / 2) / s * W, y = (-(v - ov) + s / 2) / s * H; double fx = std::floor(x), fy = std::floor(y);
		if (s == 3 && (std::fabs(x - std::round(x)) < 1e-9 || std::fabs(y - std::round(y)) < 1e-9)) continue;
		auto texel = [&](long i, long j) -> R3 { if (once) return i < 0 || i >= W || j < 0 || j >= H ? r3(def) : px[j * W + i]; return px[fmodi(j, H) * W + fmodi(i, W)]; };
		R3 g = r3(tm(u, v)); long i = (long)fx, j = (long)fy; L a = x - fx, b = y - fy;
		R3 w = bil ? (texel(i, j) * (1 - a) + texel(i + 1, j) * a) * (1 - b) + (texel(i, j + 1) * (1 - a) + texel(i + 1, j + 1) * a) * b : texel(i, j);
		near3(c, g, w, bil ? 1e-12L * (s == 3 ? 100 : 1) : 0, "texture_map"); near3(c, r3(ma::calculate(tm, u, v)), g, 0, "materials::calculate"); count(once ? "texture.once" : "texture.tile");
		// default parameters: scale 1, no offset, nearest, tiled
		auto t1 = ma::make_texture_map(t); auto t2 = ma::make_texture_map(t, s); auto t3 = ma::make_texture_map(t, s, ou, ov, def); R3 e;
		if (s != 3) { long i1 = (long)std::floor((u + 0.5) * W), j1 = (long)std::floor((-v + 0.5) * H); e = px[fmodi(j1, H) * W + fmodi(i1, W)]; near3(c, r3(t1(u, v)), e, 0, "default texture_map");
			i1 = (long)std::floor((u + s / 2) / s * W), j1 = (long)std::floor((-v + s / 2) / s * H); e = px[fmodi(j1, H) * W + fmodi(i1, W)]; near3(c, r3(t2(u, v)), e, 0, "texture_map with a scale");
			e = px[fmodi(j, H) * W + fmodi(i, W)]; near3(c, r3(t3(u, v)), e, 0, "texture_map with offsets"); }
	}
}
template<std::size_t W, std::size_t H, class... P> static void texture(P... p) {
	typedef dk::textures::image_type<W, H> Im; dk::textures::info_type info = {0, 0, W, H}; std::unique_ptr<Im> im(new Im(info, p...)); long v[] = {(long)p...}; std::vector<R3> px;
	for (long q : v) px.push_back(r3(C3(((q >> 16) & 255) / 255.0, ((q >> 8) & 255) / 255.0, (q & 255) / 255.0)));
	{ MON_CASE(c, "image_type", W, H); c.eq(im->width(), W, "width"); c.eq(im->height(), H, "height"); c.eq((std::size_t)Im::static_width, W, "static_width"); c.eq(im->pixels().size(), W * H, "pixels"); for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) { near3(c, r3((*im)(x, y)), px[y * W + x], 0, "pixel"); near3(c, r3(im->pixels()[y * W + x]), px[y * W + x], 0, "pixels()"); } }
	texcase(*im, px, W, H);
}
static long px() { return (long)rng().below(0x1000000); }
MON_TEST(textures) { texture<1, 1>(px()); texture<2, 2>(px(), px(), px(), px()); texture<4, 2>(px(), px(), px(), px(), px(), px(), px(), px()); texture<2, 4>(px(), px(), px(), px(), px(), px(), px(), px()); texture<3, 1>(px(), px(), px()); texture<1, 8>(px(), px(), px(), px(), px(), px(), px(), px()); }
MON_TEST(patterns) {
	for (int k = 0; k < reps(4000); ++k) {
		double s = rng().pick(std::vector<double>{1, 2, 0.5, 0.25, 3, 0.75}), u = rng().range(-4096, 4096) / 256.0, v = rng().range(-4096, 4096) / 256.0; C3 a = colour(), b = colour();
		MON_CASE(c, "plaid", s, u, v);
		auto cell = [](double x, double s) { double m = x - std::floor(x / s) * s; return m >= s / 2; };	// which half of the period
		auto pl = ma::make_plaid(a, b, s); near3(c, r3(pl(u, v)), cell(u, s) == cell(v, s) ? r3(a) : r3(b), 0, "plaid");
		{ near3(c, r3(ma::make_plaid(a, b)(u, v)), cell(u, 1) == cell(v, 1) ? r3(a) : r3(b), 0, "plaid of scale 1");
			auto im = ma::make_plaid_material_image(a, b, 0.25, 0.5, 0.125, 0.75); auto m = ma::calculate_material(im, u, v); bool e = cell(u, 1) == cell(v, 1); near3(c, r3(ma::color(m)), e ? r3(a) : r3(b), 0, "plaid material colour"); c.eq((double)ma::reflection(m), e ? 0.25 : 0.5, "plaid material reflection"); c.eq((double)ma::alpha(m), e ? 0.125 : 0.75, "plaid material alpha"); c.eq((double)ma::refraction(m), 0.0, "no refraction given"); }
		float fs = 2, fu = (float)u, fv = (float)v; near3(c, r3(ma::make_plaid(a, b, fs)(fu, fv)), cell(fu, 2) == cell(fv, 2) ? r3(a) : r3(b), 0, "plaid with a float scale");
		near3(c, r3(ma::make_uniform(a)(u, v)), r3(a), 0, "uniform");
		auto um = ma::make_uniform_material_image(a, 0.25, 0.5, 1.5); auto m = ma::calculate_material(um, u, v); near3(c, r3(ma::color(m)), r3(a), 0, "uniform colour"); c.eq((double)ma::reflection(m), 0.25, "uniform reflection"); c.eq((double)ma::alpha(m), 0.5, "uniform alpha"); c.eq((double)ma::refraction(m), 1.5, "uniform refraction");
		auto m1 = ma::calculate_material(ma::make_uniform_material_image(b), u, v); near3(c, r3(ma::color(m1)), r3(b), 0, "colour"); c.eq((double)ma::reflection(m1), 0.0, "reflection default"); c.eq((double)ma::alpha(m1), 0.0, "alpha default"); c.eq((double)ma::refraction(m1), 0.0, "refraction default");
		auto mx = ma::make_material_image(Where(), ma::make_uniform(0.5)); auto m2 = ma::calculate_material(mx, u, v); c.eq((double)cl::r(ma::color(m2)), u, "make_material_image u"); c.eq((double)cl::g(ma::color(m2)), v, "make_material_image v"); c.eq((double)ma::reflection(m2), 0.5, "make_material_image reflection");
	}
}
MON_TEST(camera) {
	typedef dk::cameras::angle_of_view_reference AR; typedef dk::cameras::basic_simple_camera<double> Cam;
	for (int k = 0; k < reps(4000); ++k) {
		double far = rng().range(1, 400) / 100.0, rot = rng().below(3) ? uni() * 7 : 0; int ref = rng().below(4); R3 P = r3(v3(R3{uni() * 5, uni() * 5, uni() * 5})), F = r3(v3(P + dir() * 3)); int form = rng().below(4);
		if (form < 2) { rot = 0; } if (form == 0) { ref = 0; P = {0, 0, -1}; F = {0, 0, 0}; } if (form == 1) { F = {0, 0, 0}; }
		AR::values rv = ref == 0 ? AR::long_side : ref == 1 ? AR::short_side : ref == 2 ? AR::width : AR::height;
		R3 cc = unit(F - P) * far; if (std::hypot(cc.x, cc.z) < 1e-2L * far) continue;
		Cam cam = form == 0 ? dk::cameras::make_simple_camera(far) : form == 1 ? dk::cameras::make_simple_camera(far, rv, v3(P)) : form == 2 && (rot == 0) ? dk::cameras::make_simple_camera(far, rv, v3(P), v3(F)) : dk::cameras::make_simple_camera(far, rv, v3(P), v3(F), rot);
		auto run = [&](double x, double y, double w, double h, typename Cam::ray_type const& r) {
			MON_CASE(c, "simple_camera", far, ref, str3(P), str3(F), rot, x, y, w, h);
			bool bw = ref == 0 ? w >= h : ref == 1 ? w < h : ref == 2; L u = (L)x / w - 0.5L, v = -((L)y / h - 0.5L); if (bw) v *= (L)h / w; else u *= (L)w / h;
			L uu = u * std::cos((L)rot) - v * std::sin((L)rot), vv = u * std::sin((L)rot) + v * std::cos((L)rot), l = std::hypot(cc.x, cc.z);
			near3(c, r3(ra::position(r)), P, 0, "rays start at the camera"); near3(c, r3(ra::direction(r)), unit(cc + R3{cc.z * uu / l, vv, -cc.x * uu / l}), 1e-12L, "direction of the ray"); near(c, len(r3(ra::direction(r))), 1, 1e-14L, "unit direction");
		};
		double x = rng().range(0, 640) / 4.0, y = rng().range(0, 480) / 4.0, w = rng().range(1, 160), h = rng().coin() ? w : rng().range(1, 160); run(x, y, w, h, dk::cameras::calculate(cam, x, y, w, h));
		int ix = rng().below(100), iy = rng().below(100), iw = 1 + rng().below(100), ih = 1 + rng().below(100); run(ix, iy, iw, ih, cam(ix, iy, iw, ih)); std::size_t zx = ix, zy = iy, zw = iw, zh = ih; run(ix, iy, iw, ih, cam(zx, zy, zw, zh));
	}
}
#endif

#if MON_PART(4)
// reference recursion over the library's primitives
template<class Objs, class Lights, class Inf> struct Ref {
	Objs const& o; Lights const& l; Inf const& inf; bool doubt; int mirrors, transmits, tirs;
	R3 operator()(R3 P, R3 D, unsigned depth, L medium) {
		L eps = 2.220446049250313e-16L; auto x = ob::intersect(o, ra::make_ray(v3(P), v3(D)));
		if (!in::does_intersect(x)) return r3(rd::calculate_infinity<C3>(inf, v3(D)));
		auto m = in::material(x); L rf = ma::reflection(m), al = ma::alpha(m), rr = ma::refraction(m); R3 diffuse = r3(li::calculate(l, x, o)), H = r3(in::point_of_intersection(x)), N = r3(in::normal(x));
		R3 mir = {0, 0, 0}, tr = {0, 0, 0}; bool total = false;
		if (depth > 0 && rf > eps) { R3 d = r3(co::reflect(v3(D), v3(N))); ++mirrors; mir = (*this)(r3(ra::detach_position(v3(H), v3(d))), d, depth - 1, medium); }
		if (depth > 0 && al > eps && rr > eps) {
			bool ins = in::is_from_inside(x); R3 d = r3(co::refract(v3(D), v3(N), (double)(ins ? medium / rr : rr / medium)));
			if (d.x == 0 && d.y == 0 && d.z == 0) { total = true; ++tirs; }
			else { ++transmits; tr = (*this)(r3(ra::detach_position(v3(H), v3(d))), d, depth - 1, ins ? 1.0L : rr); }
		}
		return diffuse * (1 - rf - al) + mir * (total ? rf + al : rf) + tr * (total ? 0 : al);
	}
};
template<class O, class L_, class I> static Ref<O, L_, I> mkref(O const& o, L_ const& l, I const& i) { return Ref<O, L_, I>{o, l, i, false, 0, 0, 0}; }
template<class Objs, class Lights, class Inf> static void render(const char* nm, Objs const& o, Lights const& l, Inf const& inf) {
	auto rn = rd::make_whitted_style(inf); auto cam = dk::cameras::make_simple_camera(0.875); auto rt = dk::tracers::make_raytracer(); auto ref = mkref(o, l, inf);
	for (int k = 0; k < 6; ++k) {
		R3 P = r3(v3(R3{uni(), uni(), uni()})), D = dir(); if (rng().below(4)) D = r3(v3(unit(R3{uni(), uni(), 1.5L}))); unsigned depth = rng().below(5);
		MON_CASE(c, nm, str3(P), str3(D), depth);
		R3 w = ref(P, D, depth, 1.0L); auto ray = ra::make_ray(v3(P), v3(D)); L tol = 1e-12L * (1 + len(w));
		near3(c, r3(rd::calculate<C3>(rn, cam, o, l, ray, depth)), w, tol, "whitted style colour"); near3(c, r3(rn.template operator()<C3>(cam, o, l, ray, depth, st::make_tuple(1.0))), w, tol, "with the default medium given");
		near3(c, r3(rn.template operator()<C3>(cam, o, l, ray, depth, 1.0)), w, tol, "with the medium as a number"); R3 w2 = ref(P, D, depth, 1.25L); near3(c, r3(rd::calculate<C3>(rn, cam, o, l, ray, depth, st::make_tuple(1.25))), w2, 1e-12L * (1 + len(w2)), "starting in a medium");
		double x = rng().below(8), y = rng().below(6); auto cr = cam(x, y, 8.0, 6.0); R3 w3 = ref(r3(ra::position(cr)), r3(ra::direction(cr)), depth, 1.0L); near3(c, r3(dk::tracers::calculate(rt, rn, cam, o, l, x, y, 8.0, 6.0, depth)), w3, 1e-12L * (1 + len(w3)), "raytracer");
		R3 w4 = ref(r3(ra::position(cr)), r3(ra::direction(cr)), 4, 1.0L); near3(c, r3(dk::tracers::calculate(rt, rn, cam, o, l, x, y, 8.0, 6.0)), w4, 1e-12L * (1 + len(w4)), "default depth is 4"); near3(c, r3(rt(rn, cam, o, l, x, y, 8.0, 6.0, depth, st::make_tuple(1.0))), w3, 1e-12L * (1 + len(w3)), "raytracer with a medium");
	}
	count("render.mirror", ref.mirrors); count("render.transmit", ref.transmits); count("render.total_reflection", ref.tirs);
}
static C3 lc() { return C3(rng().range(1, 60) / 10.0, rng().range(1, 60) / 10.0, rng().range(1, 60) / 10.0); }
static li::basic_point_light<> rpl() { return li::make_point_light(v3(R3{uni() * 4, uni() * 4, uni() * 4}), lc()); }
static li::basic_parallel_light<> rdl() { return li::make_parallel_light(v3(anydir()), lc()); }
MON_TEST(renderer) {
	for (int k = 0; k < reps(60); ++k) {
		render("scene 1", ob::make_object_list(rpln(), rsph(), rsph()), li::make_light_list(rpl(), rdl()), rd::make_direction_gradation());
		render("scene 2", ob::make_object_list(rsph(), rtri(), rsph(), rpln()), li::make_light_list(li::make_ambient_light(lc()), rpl()), rd::make_uniform_color(lc()));
		render("scene 3", ob::make_object_list(rsph()), li::make_light_list(rdl()), rd::make_direction_gradation());
	}
}
template<std::size_t W, std::size_t H> static void image(const char* nm) {
	auto o = ob::make_object_list(rpln(), rsph(), rsph()); auto l = li::make_light_list(li::make_ambient_light(C3(0.2, 0.3, 0.1)), rpl()); auto inf = rd::make_direction_gradation(); auto rn = rd::make_whitted_style(inf); auto cam = dk::cameras::make_simple_camera(0.875); auto rt = dk::tracers::make_raytracer();
	typedef typename dk::pixels::color_pixels<W, H>::type Px; auto ref = mkref(o, l, inf);
	MON_CASE(c, nm, W, H);
	auto want = [&](std::size_t x, std::size_t y, std::size_t w, std::size_t h, unsigned d) { auto r = cam(x, y, w, h); return v3(ref(r3(ra::position(r)), r3(ra::direction(r)), d, 1.0L)); };
	auto chk = [&](Px const& p, std::size_t x0, std::size_t y0, std::size_t w, std::size_t h, unsigned d, const char* what) {
		for (std::size_t y = 0; y < H; ++y) for (std::size_t x = 0; x < W; ++x) {
			C3 f = want(x0 + x, y0 + y, w, h, d); double ch[3] = {st::get<0>(f), st::get<1>(f), st::get<2>(f)}; int g[3] = {st::get<0>(p[y][x]), st::get<1>(p[y][x]), st::get<2>(p[y][x])};
			for (int i = 0; i < 3; ++i) { double v = ch[i] < 0 ? 0 : ch[i] > 1 ? 255 : ch[i] * 255; int lo = (int)std::floor(std::max(0.0, v - 1e-7)), hi = (int)std::floor(std::min(255.0, v + 1e-7)); if (!(g[i] >= lo && g[i] <= hi)) { c.ok(false, std::string(what) + ": pixel " + std::to_string(x) + "," + std::to_string(y) + " channel " + std::to_string(i) + " is " + std::to_string(g[i]) + " instead of " + str(v)); return; } }
		}
		c.ok(true, ""); count("pixels", W * H);
	};
	chk(dk::pixels::generate<Px>(rt, rn, cam, o, l), 0, 0, W, H, 4, "generate"); std::size_t x0 = rng().below(5), y0 = rng().below(5), w = W + 5 + rng().below(4), h = H + 5 + rng().below(9);
	chk(dk::pixels::generate<Px>(rt, rn, cam, o, l, x0, y0, w, h), x0, y0, w, h, 4, "generate part of an image"); unsigned d = rng().below(3); chk(dk::pixels::generate<Px>(rt, rn, cam, o, l, x0, y0, w, h, d), x0, y0, w, h, d, "generate with a depth");
}
MON_TEST(pixels) { for (int k = 0; k < reps(5); ++k) { image<1, 1>("pixels 1x1"); image<5, 3>("pixels 5x3"); image<3, 5>("pixels 3x5"); image<8, 8>("pixels 8x8"); } }
#endif
