// C25: sprout::complex against std::complex (long double reference for float/double).
#include <mon.hpp>
#include <cfloat>
#include <cmath>
#include <complex>
#include <iomanip>
#include <sstream>
#include <sprout/complex.hpp>
using namespace mon; typedef long double LD; typedef std::complex<LD> L;
template<class T> char const* tname() { return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : "long double"; }
template<class T> L lift(sprout::complex<T> const& z) { return L(z.real(), z.imag()); }
template<class T> std::string sc(T const& z) { std::ostringstream o; o << std::setprecision(21) << "(" << (std::signbit(z.real()) ? "-" : "+") << std::fabs(z.real()) << "," << (std::signbit(z.imag()) ? "-" : "+") << std::fabs(z.imag()) << ")"; return o.str(); }
template<class T> LD eps() { return std::numeric_limits<T>::epsilon(); }
template<class C, class T> void near(C& c, sprout::complex<T> const& g, L w, LD tol, char const* n) { L d = lift(g) - w; if (!(std::abs(d) <= tol)) c.failed(std::string(n) + " got=" + sc(g) + " want=" + sc(w)); }
template<class C, class T> void nearr(C& c, T g, LD w, LD tol, char const* n) { if (!(std::fabs((LD)g - w) <= tol)) { std::ostringstream o; o << std::setprecision(21) << n << " got=" << g << " want=" << w; c.failed(o.str()); } }
template<class T> T part() { T s = rng().coin() ? 1 : -1; switch (rng().range(0, 7)) { case 0: return s * 0; case 1: return s * (T)rng().range(0, 10); case 2: return s * (T)((LD)rng().range(0, 1000000000) / 1e9L); case 3: return s * (T)((LD)rng().range(0, 1000000000) / 1e8L); case 4: return s * (T)((LD)rng().range(0, 1000000000) / 1e7L / 3); case 5: return s * std::ldexp((T)(1 + (LD)rng().range(0, 1000000) / 1e6L), (int)rng().range(-30, 0)); case 6: return s * (1 + (T)rng().range(-3, 3) * (T)eps<T>()); default: return s * (T)((LD)rng().range(0, 1000) / 8); } }
template<class T> sprout::complex<T> val() { return sprout::complex<T>(part<T>(), part<T>()); }
// ---- elementary functions
enum { F_EXP, F_LOG, F_LOG10, F_LOG2, F_SQRT, F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_SINH, F_COSH, F_TANH, F_ASINH, F_ACOSH, F_ATANH, F_N };
static char const* const fname[] = { "exp", "log", "log10", "log2", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh" };
template<class T> sprout::complex<T> S(int f, sprout::complex<T> const& z) { switch (f) { case F_EXP: return sprout::exp(z); case F_LOG: return sprout::log(z); case F_LOG10: return sprout::log10(z); case F_LOG2: return sprout::log2(z); case F_SQRT: return sprout::sqrt(z); case F_SIN: return sprout::sin(z); case F_COS: return sprout::cos(z); case F_TAN: return sprout::tan(z); case F_ASIN: return sprout::asin(z); case F_ACOS: return sprout::acos(z); case F_ATAN: return sprout::atan(z); case F_SINH: return sprout::sinh(z); case F_COSH: return sprout::cosh(z); case F_TANH: return sprout::tanh(z); case F_ASINH: return sprout::asinh(z); case F_ACOSH: return sprout::acosh(z); default: return sprout::atanh(z); } }
inline L R(int f, L z) { switch (f) { case F_EXP: return std::exp(z); case F_LOG: return std::log(z); case F_LOG10: return std::log(z) / std::log((LD)10); case F_LOG2: return std::log(z) / std::log((LD)2); case F_SQRT: return std::sqrt(z); case F_SIN: return std::sin(z); case F_COS: return std::cos(z); case F_TAN: return std::tan(z); case F_ASIN: return std::asin(z); case F_ACOS: return std::acos(z); case F_ATAN: return std::atan(z); case F_SINH: return std::sinh(z); case F_COSH: return std::cosh(z); case F_TANH: return std::tanh(z); case F_ASINH: return std::asinh(z); case F_ACOSH: return std::acosh(z); default: return std::atanh(z); } }
template<class T> LD tol(int f, L z, L w) { LD e = 64 * eps<T>(), a = std::abs(w), m = std::fmax(1.0L, a); switch (f) {
	case F_EXP: case F_SIN: case F_COS: case F_SINH: case F_COSH: { LD big = f == F_EXP ? std::exp(z.real()) : std::exp(std::fabs(f == F_SIN || f == F_COS ? z.imag() : z.real())); return e * (1 + std::abs(z)) * std::fmax(big, 1.0L) + std::numeric_limits<T>::min(); }
	case F_TAN: case F_TANH: return e * (1 + std::abs(z)) * (1 + a * a); case F_SQRT: return 8 * eps<T>() * a;
	case F_ASIN: case F_ACOS: { LD d = std::sqrt(std::fmin(std::abs(L(1) - z), std::abs(L(1) + z))); return e * m * std::fmax(1.0L, 1 / std::fmax(d, std::sqrt((LD)eps<T>()))); }
	case F_ASINH: { LD d = std::sqrt(std::fmin(std::abs(L(0, 1) - z), std::abs(L(0, 1) + z))); return e * m * std::fmax(1.0L, 1 / std::fmax(d, std::sqrt((LD)eps<T>()))); }
	default: return e * m; } }
template<class T> void fun(int f, sprout::complex<T> z) { if (std::max(std::fabs(z.real()), std::fabs(z.imag())) > 80 && (f == F_EXP || f == F_SIN || f == F_COS || f == F_SINH || f == F_COSH) && std::is_same<T, float>::value) return;
	if ((f == F_ATANH && z.imag() == 0 && std::fabs(z.real()) == 1) || (f == F_ATAN && z.real() == 0 && std::fabs(z.imag()) == 1) || ((f == F_LOG || f == F_LOG2 || f == F_LOG10) && z.real() == 0 && z.imag() == 0)) return; // poles: see special values
	MON_CASE(c, std::string(fname[f]) + "<" + tname<T>() + ">", sc(z)); L w = R(f, lift(z)); near(c, S(f, z), w, tol<T>(f, lift(z), w), fname[f]); }
template<class T> void funs() { std::vector<T> ax; for (T b : { (T)0, (T)0.5L, (T)1, (T)(1 + eps<T>()), (T)(1 - eps<T>()), (T)2, (T)3.75L, (T)10, (T)50, (T)1e4L, (T)1e-4L, (T)1e-9L, (T)1e-3L, (T)1e3L, (T)1e9L }) { ax.push_back(b); ax.push_back(-b); }
	for (int f = 0; f < F_N; ++f) { bool trig = f == F_EXP || f == F_SIN || f == F_COS || f == F_TAN || f == F_SINH || f == F_COSH || f == F_TANH;
		for (T x : ax) for (T y : ax) if (!trig || (std::fabs(x) < 500 && std::fabs(y) < 500)) fun<T>(f, sprout::complex<T>(x, y));
		for (std::uint64_t i = 0; i < reps(900); ++i) fun<T>(f, val<T>()); } 
	for (T x : { (T)400, (T)1000, (T)20000 }) for (T y : { (T)0, (T)1, (T)-1, (T)3 }) for (int s = -1; s <= 1; s += 2) { { MON_CASE(c, std::string("tanh large<") + tname<T>() + ">", x * s, y); near(c, sprout::tanh(sprout::complex<T>(x * s, y)), L(s, 0), 64 * eps<T>(), "tanh"); } { MON_CASE(c, std::string("tan large<") + tname<T>() + ">", y, x * s); near(c, sprout::tan(sprout::complex<T>(y, x * s)), L(0, s), 64 * eps<T>(), "tan"); } } }
// ---- arithmetic
template<class T> void arith() { typedef sprout::complex<T> Z;
	for (std::uint64_t i = 0; i < reps(4000); ++i) { Z a = val<T>(), b = val<T>(); T s = part<T>(); L la = lift(a), lb = lift(b); LD ls = s, e = 4 * eps<T>(), mn = std::numeric_limits<T>::min();
		{ MON_CASE(c, std::string("add/sub<") + tname<T>() + ">", sc(a), sc(b), s); near(c, a + b, L((T)(a.real() + b.real()), (T)(a.imag() + b.imag())), 0, "+"); near(c, a - b, L((T)(a.real() - b.real()), (T)(a.imag() - b.imag())), 0, "-"); near(c, a + s, L((T)(a.real() + s), a.imag()), 0, "z+s"); near(c, s + a, L((T)(a.real() + s), a.imag()), 0, "s+z"); near(c, a - s, L((T)(a.real() - s), a.imag()), 0, "z-s"); near(c, s - a, L((T)(s - a.real()), -a.imag()), 0, "s-z"); near(c, -a, -la, 0, "neg"); near(c, +a, la, 0, "pos"); }
		{ MON_CASE(c, std::string("mul<") + tname<T>() + ">", sc(a), sc(b), s); near(c, a * b, la * lb, e * std::abs(la) * std::abs(lb), "*"); near(c, a * s, la * ls, e * std::abs(la) * std::fabs(ls) + mn, "z*s"); near(c, s * a, la * ls, e * std::abs(la) * std::fabs(ls) + mn, "s*z"); }
		if (b != Z()) { MON_CASE(c, std::string("div<") + tname<T>() + ">", sc(a), sc(b), s); L q = la / lb, r = ls / lb; near(c, a / b, q, 2 * e * std::abs(q) + mn, "/"); near(c, s / b, r, 2 * e * std::abs(r) + mn, "s/z"); if (s != 0) near(c, a / s, la / ls, e * std::abs(la / ls) + mn, "z/s"); }
		{ MON_CASE(c, std::string("compound<") + tname<T>() + ">", sc(a), sc(b), s); Z x = a; c.ok(&(x += b) == &x, "+= returns *this"); near(c, x, lift(a + b), 0, "+="); x = a; x -= b; near(c, x, lift(a - b), 0, "-="); x = a; x *= b; near(c, x, lift(a * b), 0, "*="); if (b != Z()) { x = a; x /= b; near(c, x, lift(a / b), 0, "/="); }
			x = a; x += s; near(c, x, lift(a + s), 0, "+=s"); x = a; x -= s; near(c, x, lift(a - s), 0, "-=s"); x = a; x *= s; near(c, x, lift(a * s), 0, "*=s"); if (s != 0) { x = a; x /= s; near(c, x, lift(a / s), 0, "/=s"); } x = a; x = s; near(c, x, L(ls), 0, "=s");
			x = a; x += x; near(c, x, lift(a + a), 0, "z+=z"); x = a; x *= x; near(c, x, lift(a * a), 0, "z*=z"); x = a; x -= x; near(c, x, L(), 0, "z-=z"); if (a != Z()) { x = a; x /= x; near(c, x, lift(a / a), 0, "z/=z"); }
			x = a; x *= x.real(); near(c, x, lift(a * a.real()), 0, "z*=z.real()"); x = a; x *= x.imag(); near(c, x, lift(a * a.imag()), 0, "z*=z.imag()"); if (a.real() != 0) { x = a; x /= x.real(); near(c, x, lift(a / a.real()), 0, "z/=z.real()"); } if (a.imag() != 0) { x = a; x /= x.imag(); near(c, x, lift(a / a.imag()), 0, "z/=z.imag()"); } x = a; x = x.imag(); near(c, x, L(a.imag()), 0, "z=z.imag()"); x = a; x += x.real(); near(c, x, L((T)(a.real() + a.real()), a.imag()), 0, "z+=z.real()");
			x = a; x.real(s); near(c, x, L(s, a.imag()), 0, "real(s)"); x = a; x.imag(s); near(c, x, L(a.real(), s), 0, "imag(s)"); x = a; x.real() = s; c.ok(x.real() == s && x.imag() == a.imag(), "real()="); sprout::real(x) = b.real(); sprout::imag(x) = b.imag(); c.ok(x == b, "real(z)=, imag(z)="); }
		{ sprout::complex<float> fb((float)b.real(), (float)b.imag()); Z x = a; MON_CASE(c, std::string("mixed<") + tname<T>() + ">", sc(a), sc(fb)); Z k(fb); c.ok(k.real() == (T)fb.real() && k.imag() == (T)fb.imag(), "convert"); x += fb; near(c, x, lift(a + k), 0, "+=mixed"); x = a; x -= fb; near(c, x, lift(a - k), 0, "-=mixed"); x = fb; c.ok(x == k, "=mixed"); x = a; x *= fb; near(c, x, la * lift(k), e * std::abs(la) * std::abs(lift(k)), "*=mixed"); if (k != Z()) { x = a; x /= fb; L q = la / lift(k); near(c, x, q, 2 * (LD)FLT_EPSILON * std::abs(q) + mn, "/=mixed"); } std::complex<T> sd(a.real(), a.imag()); c.ok(Z(sd) == a, "from std::complex"); }
		{ MON_CASE(c, std::string("compare<") + tname<T>() + ">", sc(a), sc(b), s); bool q = a.real() == b.real() && a.imag() == b.imag(); c.eq(a == b, q); c.eq(a != b, !q); c.ok(a == Z(a) && !(a != Z(a)), "self"); bool r = a.real() == s && a.imag() == 0; c.eq(a == s, r); c.eq(s == a, r); c.eq(a != s, !r); c.eq(s != a, !r); Z u(s); c.ok(u == s && s == u && !(u != s), "real compare"); Z v(s, 1); c.ok(v != s && s != v, "imag part compared"); }
		{ MON_CASE(c, std::string("values<") + tname<T>() + ">", sc(a), s); near(c, sprout::conj(a), std::conj(la), 0, "conj"); nearr(c, sprout::norm(a), std::norm(la), e * std::norm(la) + mn, "norm"); nearr(c, sprout::abs(a), std::abs(la), e * std::abs(la) + std::sqrt((LD)mn) * 0, "abs"); nearr(c, sprout::arg(a), std::arg(la), 16 * eps<T>() * 4, "arg"); c.eq(std::signbit(sprout::arg(a)), std::signbit(a.imag())); c.eq(sprout::real(a), a.real()); c.eq(sprout::imag(a), a.imag()); near(c, sprout::proj(a), la, 0, "proj"); near(c, sprout::perp(a), la * L(0, 1), 0, "perp");
			near(c, sprout::floor(a), L(std::floor(a.real()), std::floor(a.imag())), 0, "floor"); near(c, sprout::ceil(a), L(std::ceil(a.real()), std::ceil(a.imag())), 0, "ceil"); near(c, sprout::trunc(a), L(std::trunc(a.real()), std::trunc(a.imag())), 0, "trunc"); near(c, sprout::round(a), L(std::round(a.real()), std::round(a.imag())), 0, "round");
			c.eq(sprout::real(s), s); c.eq((T)sprout::imag(s), (T)0); nearr(c, sprout::norm(s), ls * ls, e * ls * ls + mn, "norm(s)"); if (s != 0) nearr(c, sprout::arg(s), std::arg(ls), e * 4, "arg(s)"); near(c, sprout::conj(s), L(ls), 0, "conj(s)"); near(c, sprout::proj(s), L(ls), 0, "proj(s)"); }
		{ T rho = std::fabs(s); MON_CASE(c, std::string("polar<") + tname<T>() + ">", rho, b.imag()); L w((LD)rho * std::cos((LD)b.imag()), (LD)rho * std::sin((LD)b.imag())); near(c, sprout::polar(rho, b.imag()), w, 64 * eps<T>() * rho * (1 + std::fabs((LD)b.imag())), "polar"); near(c, sprout::polar(rho), L(rho), 0, "polar(rho)"); near(c, sprout::euler(b.imag()), L(std::cos((LD)b.imag()), std::sin((LD)b.imag())), 64 * eps<T>() * (1 + std::fabs((LD)b.imag())), "euler"); }
		{ Z k = a; MON_CASE(c, std::string("container<") + tname<T>() + ">", sc(a)); std::vector<T> v(k.begin(), k.end()), w { a.real(), a.imag() }; c.ok(v == w, "begin..end"); Z const& kc = k; c.ok(kc.end() - kc.begin() == 2 && k.cend() - k.cbegin() == 2 && k.size() == 2 && !k.empty(), "ranges"); c.ok(std::vector<T>(k.rbegin(), k.rend()) == std::vector<T>({ a.imag(), a.real() }) && k.crend() - k.crbegin() == 2, "reverse"); c.ok(k[0] == a.real() && k[1] == a.imag() && k.front() == a.real() && k.back() == a.imag() && kc.at(1) == a.imag() && kc.data()[1] == a.imag(), "elements"); c.ok(sprout::get<0>(k) == a.real() && sprout::get<1>(kc) == a.imag(), "get"); Z m = b; std::hash<Z> h; if (a == b) c.ok(h(a) == h(b), "hash"); c.ok(h(a) == h(Z(a)), "hash stable"); } } }
template<class T> void pows() { typedef sprout::complex<T> Z; for (std::uint64_t i = 0; i < reps(2500); ++i) { Z a = val<T>(), b(std::fmod(part<T>(), (T)5), std::fmod(part<T>(), (T)3)); T s = std::fmod(part<T>(), (T)6); if (a == Z()) continue; auto t = [&](L x, L y, L w) { L p = y * std::log(x); return 128 * eps<T>() * (1 + std::abs(p)) * (1 + std::abs(p)) * std::abs(w) + std::numeric_limits<T>::min(); };
	auto fit = [](L w) { return std::abs(w) < (std::is_same<T, float>::value ? 1e18L : 1e100L) && std::abs(w) > (std::is_same<T, float>::value ? 1e-18L : 1e-100L); };
	{ L w = std::exp(lift(b) * std::log(lift(a))); if (fit(w)) { MON_CASE(c, std::string("pow(z,z)<") + tname<T>() + ">", sc(a), sc(b)); near(c, sprout::pow(a, b), w, t(lift(a), lift(b), w), "pow"); } }
	{ L w = std::exp((LD)s * std::log(lift(a))); if (fit(w)) { MON_CASE(c, std::string("pow(z,s)<") + tname<T>() + ">", sc(a), s); near(c, sprout::pow(a, s), w, t(lift(a), L(s), w), "pow"); } }
	if (s != 0) { L w = std::exp(lift(b) * std::log(L(s, 0))); if (fit(w)) { MON_CASE(c, std::string("pow(s,z)<") + tname<T>() + ">", s, sc(b)); near(c, sprout::pow(s, b), w, t(L(s), lift(b), w), "pow"); } } }
	for (T y : { (T)1, (T)2.5L }) { MON_CASE(c, std::string("pow(0,y)<") + tname<T>() + ">", y); near(c, sprout::pow(Z(), y), L(), 0, "pow(0,s)"); near(c, sprout::pow(Z(), Z(y)), L(), 0, "pow(0,z)"); } }
// ---- special values (C Annex G), for the combinations whose result is specified
template<class T> void spec() { typedef sprout::complex<T> Z; T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN(); std::vector<T> v { (T)0, -(T)0, (T)1, -(T)1, (T)2.5L, -(T)2.5L, inf, -inf, nan };
	auto kind = [](T x) { return std::isnan(x) ? 0 : std::isinf(x) ? 1 : x == 0 ? 2 : 3; };
	for (int f = 0; f < F_N; ++f) for (T x : v) for (T y : v) { if (std::isfinite(x) && std::isfinite(y) && x != 0 && y != 0) continue; Z z(x, y); std::complex<T> r = (std::complex<T>)(R(f, L(x, y))); if ((f == F_LOG10 || f == F_LOG2) && std::isnan((LD)r.real() + (LD)r.imag())) continue;
		if ((f == F_TANH && x == 0 && !std::isfinite(y)) || (f == F_TAN && y == 0 && !std::isfinite(x)) || (f == F_ACOSH && x == 0 && std::isnan(y))) continue; // C11 and C17/C2x differ
		MON_CASE(c, std::string(fname[f]) + " special<" + tname<T>() + ">", sc(z)); Z g = S(f, z); T gp[] = { g.real(), g.imag() }, rp[] = { r.real(), r.imag() };
		for (int i = 0; i < 2; ++i) { int kr = kind(rp[i]), kg = kind(gp[i]); bool ok = kr == kg || ((kr == 2 || kr == 3) && (kg == 2 || kg == 3) && std::fabs(gp[i] - rp[i]) <= 64 * eps<T>() * (1 + std::fabs(rp[i]))); if (ok && kr == 3) ok = std::fabs(gp[i] - rp[i]) <= 64 * eps<T>() * (1 + std::fabs(rp[i])); if (ok && kr == 1 && kind(rp[1 - i]) != 0) ok = std::signbit(gp[i]) == std::signbit(rp[i]); if (!ok) { c.failed(std::string(i ? "imag" : "real") + " got=" + sc(g) + " want=" + sc(r)); break; } } }
	for (T x : v) for (T y : v) { Z z(x, y); std::complex<T> k(x, y); MON_CASE(c, std::string("special values<") + tname<T>() + ">", sc(z)); auto p = sprout::proj(z); auto q = std::proj(k); c.ok(kind(p.real()) == kind(q.real()) && kind(p.imag()) == kind(q.imag()) && (std::isnan(q.imag()) || std::signbit(p.imag()) == std::signbit(q.imag())), "proj"); c.ok(kind(sprout::abs(z)) == kind(std::abs(k)), "abs"); c.ok(kind(sprout::norm(z)) == (std::isinf(x) || std::isinf(y) ? 1 : kind(std::norm(k))), "norm"); c.ok(kind(sprout::arg(z)) == kind(std::arg(k)), "arg"); auto cj = sprout::conj(z); c.ok(std::isnan(y) || std::signbit(cj.imag()) != std::signbit(y), "conj sign"); } }
// ---- streams
void streams() { char const* in[] = { "1", "(1)", "(1,2)", "( 1 , 2 )", "  (1.5,-2.5) x", "-3.5e2", "(1,2", "(1 2)", "(,2)", "()", "", "x", "(1,x)", "(1,2]", "(1;2)", "1,2", "( -0.25,1e3)rest", "(1,", "(", "((1,2))" };
	for (char const* s : in) { MON_CASE(c, "operator>>", s); std::istringstream i(s), j(s); std::complex<double> w(-7, -8); sprout::complex<double> g(-7, -8); i >> w; j >> g; c.eq(j.fail(), i.fail()); if (!i.fail()) { c.ok(g.real() == w.real() && g.imag() == w.imag(), "value"); std::string a, b; std::getline(i, a, '\0'); std::getline(j, b, '\0'); c.eq(b, a); } else if (*s == 0 || *s == 'x') c.ok(g.real() == -7 && g.imag() == -8, "value kept on failure"); }
	for (std::uint64_t k = 0; k < reps(500); ++k) { auto z = val<double>(); int p = (int)rng().range(1, 18); bool sci = rng().coin(), pos = rng().coin(); MON_CASE(c, "operator<<", sc(z), p); std::ostringstream a, b; for (auto* o : { &a, &b }) { *o << std::setprecision(p); if (sci) *o << std::scientific; if (pos) *o << std::showpos; } a << z; b << std::complex<double>(z.real(), z.imag()); c.eq(a.str(), b.str()); std::ostringstream x; x << std::setprecision(17) << z; std::istringstream i(x.str()); sprout::complex<double> r(9, 9); i >> r; c.ok(r == z, "round trip"); }
	std::wostringstream w; w << sprout::complex<double>(1, -2); MON_CASE(c, "operator<< wide", 0); c.ok(w.str() == L"(1,-2)", "wide"); }
#if MON_PART(0)
MON_TEST(funs_f) { funs<float>(); } MON_TEST(funs_d) { funs<double>(); } MON_TEST(funs_l) { funs<long double>(); }
#endif
#if MON_PART(1)
MON_TEST(arith_f) { arith<float>(); } MON_TEST(arith_d) { arith<double>(); } MON_TEST(arith_l) { arith<long double>(); }
MON_TEST(ce) { using namespace sprout::literals::complex; constexpr auto z = sprout::complex<double>(1, 2) * 3.0_i; constexpr auto e = sprout::exp(sprout::complex<double>(0, 1)); MON_CASE(c, "constexpr", 0); c.ok(z == sprout::complex<double>(-6, 3), "literal"); near(c, e, std::exp(L(0, 1)), 1e-14L, "exp"); near(c, 2.5_if, L(0, 2.5L), 0, "_if"); near(c, 2.5_il, L(0, 2.5L), 0, "_il"); near(c, 0.1_il, L(0, 0.1L), 0, "_il precision"); }
#endif
#if MON_PART(2)
MON_TEST(pow_f) { pows<float>(); } MON_TEST(pow_d) { pows<double>(); } MON_TEST(pow_l) { pows<long double>(); } MON_TEST(spec_f) { spec<float>(); } MON_TEST(spec_d) { spec<double>(); } MON_TEST(spec_l) { spec<long double>(); } MON_TEST(io) { streams(); }
#endif
