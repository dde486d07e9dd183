// C40: function objects against the operators they denote, binders against std::bind, hashes over equal and different values.
#include <mon.hpp>
#include <functional>
#include <memory>
#include <list>
#include <sstream>
#include <iterator>
#include <cmath>
#include <sprout/functional.hpp>
#include <sprout/functional/polymorphic.hpp>
#include <sprout/functional/hash.hpp>
#include <sprout/functional/bind.hpp>
#include <sprout/functional/equiv.hpp>
#include <sprout/functional/invoke.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/tuple.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/optional.hpp>
#include <sprout/variant.hpp>
#include <sprout/rational.hpp>
#include <sprout/complex.hpp>
#include <sprout/bitset.hpp>
#include <sprout/uuid.hpp>
#include <sprout/valarray.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/cstdlib.hpp>
using namespace mon;
// ---------------------------------------------------------------- a value that records which operator was applied to what, and as what category
struct Sym { std::string s; Sym(std::string t = "?") : s(t) {} explicit operator bool() const { return !s.empty() && s[0] == 'T'; } };
template<class A> std::string d(Sym const& x) { return std::string(std::is_lvalue_reference<A>::value ? std::is_const<typename std::remove_reference<A>::type>::value ? "c:" : "l:" : std::is_const<typename std::remove_reference<A>::type>::value ? "cr:" : "r:") + x.s; }
template<class A> struct is_sym : std::is_same<typename std::decay<A>::type, Sym> {};
#define BIN(op) template<class A, class B, typename std::enable_if<is_sym<A>::value && is_sym<B>::value, int>::type = 0> Sym operator op(A&& a, B&& b) { return Sym("(" + d<A>(a) + " " #op " " + d<B>(b) + ")"); }
#define UN(op) template<class A, typename std::enable_if<is_sym<A>::value, int>::type = 0> Sym operator op(A&& a) { return Sym("(" #op " " + d<A>(a) + ")"); }
BIN(+) BIN(-) BIN(*) BIN(/) BIN(%) BIN(==) BIN(!=) BIN(<) BIN(>) BIN(<=) BIN(>=) BIN(&&) BIN(||) BIN(&) BIN(|) BIN(^) BIN(<<) BIN(>>) BIN(+=) BIN(-=) BIN(*=) BIN(/=) BIN(%=) BIN(&=) BIN(|=) BIN(^=) BIN(<<=) BIN(>>=) BIN(->*)
template<class A, class B, typename std::enable_if<is_sym<A>::value && is_sym<B>::value, int>::type = 0> Sym operator,(A&& a, B&& b) { return Sym("(" + d<A>(a) + " , " + d<B>(b) + ")"); }
UN(+) UN(-) UN(!) UN(~) UN(*) UN(&) UN(++) UN(--)
template<class A, typename std::enable_if<is_sym<A>::value, int>::type = 0> Sym operator++(A&& a, int) { return Sym("(" + d<A>(a) + " ++)"); }
template<class A, typename std::enable_if<is_sym<A>::value, int>::type = 0> Sym operator--(A&& a, int) { return Sym("(" + d<A>(a) + " --)"); }
template<class K, class F> void bin(K& c, F f, std::string op) { Sym a("a"), b("b"); Sym const ca("p"), cb("q"); c.eq(f(a, b).s, "(l:a " + op + " l:b)", op + " lvalues"); c.eq(f(ca, cb).s, "(c:p " + op + " c:q)", op + " const"); c.eq(f(Sym("x"), Sym("y")).s, "(r:x " + op + " r:y)", op + " rvalues"); c.eq(f(a, Sym("y")).s, "(l:a " + op + " r:y)", op + " mixed"); c.eq(f(Sym("x"), cb).s, "(r:x " + op + " c:q)", op + " mixed"); c.ok(a.s == "a" && b.s == "b", "arguments untouched"); }
template<class K, class F> void un(K& c, F f, std::string pre, std::string post) { Sym a("a"); Sym const ca("p"); c.eq(f(a).s, "(" + pre + "l:a" + post + ")", pre + post + " lvalue"); c.eq(f(ca).s, "(" + pre + "c:p" + post + ")", pre + post + " const"); c.eq(f(Sym("x")).s, "(" + pre + "r:x" + post + ")", pre + post + " rvalue"); }
#if MON_PART(0)
MON_TEST(transparent) { MON_CASE(c, "transparent", 0);
#define B1(n, op) bin(c, sprout::n<>(), op); bin(c, sprout::n<void>(), op);
	B1(plus, "+") B1(minus, "-") B1(multiplies, "*") B1(divides, "/") B1(modulus, "%") B1(equal_to, "==") B1(not_equal_to, "!=") B1(less, "<") B1(greater, ">") B1(less_equal, "<=") B1(greater_equal, ">=") B1(logical_and, "&&") B1(logical_or, "||") B1(bit_and, "&") B1(bit_or, "|") B1(bit_xor, "^") B1(shift_left, "<<") B1(shift_right, ">>") B1(plus_assign, "+=") B1(minus_assign, "-=") B1(multiplies_assign, "*=") B1(divides_assign, "/=") B1(modulus_assign, "%=") B1(bit_and_assign, "&=") B1(bit_or_assign, "|=") B1(bit_xor_assign, "^=") B1(shift_left_assign, "<<=") B1(shift_right_assign, ">>=") B1(member_pointer, "->*") B1(comma, ",")
#define U1(n, pre, post) un(c, sprout::n<>(), pre, post);
	U1(posite, "+ ", "") U1(negate, "- ", "") U1(logical_not, "! ", "") U1(bit_not, "~ ", "") U1(dereference, "* ", "") U1(address_of, "& ", "") U1(pre_increment, "++ ", "") U1(pre_decrement, "-- ", "") U1(post_increment, "", " ++") U1(post_decrement, "", " --") }
struct Arr { int v[8]; std::string operator[](std::string const& k) const { return "[" + k + "]"; } }; struct Fun { int k; int operator()(int a, int b) const { return a * 10 + b * k; } int operator()() const { return -k; } };
MON_TEST(transparent_values) { for (std::uint64_t i = 0; i < reps(200); ++i) { int a = (int)rng().range(-1000, 1000), b = (int)rng().range(1, 31); unsigned u = (unsigned)rng()(); double x = (double)rng().range(-999, 999) / 8; long long ll = (long long)rng().range(-100000, 100000); MON_CASE(c, "values", a, b, u, x, ll);
#define TV(n, l, op, r) c.ok(sprout::n<>()(l, r) == (l op r), #n " of " #l "," #r); static_assert(std::is_same<decltype(sprout::n<>()(l, r)), decltype(l op r)>::value, #n " result type");
	TV(plus, a, +, x) TV(plus, u, +, ll) TV(minus, a, -, ll) TV(minus, u, -, b) TV(multiplies, a, *, x) TV(divides, a, /, b) TV(divides, x, /, b) TV(modulus, a, %, b) TV(modulus, ll, %, b) TV(equal_to, a, ==, b) TV(not_equal_to, a, !=, x) TV(less, a, <, x) TV(less, ll, <, a) TV(greater, a, >, b) TV(less_equal, x, <=, a) TV(greater_equal, ll, >=, b) TV(logical_and, a, &&, x) TV(logical_or, a, ||, ll) TV(bit_and, u, &, a) TV(bit_or, u, |, b) TV(bit_xor, u, ^, a) TV(shift_left, u, <<, b) TV(shift_right, u, >>, b)
	int m = a, n = a; c.ok(&sprout::plus_assign<>()(m, b) == &m && m == (n += b), "plus_assign"); c.ok(&sprout::assign<>()(m, ll) == &m && m == (int)ll, "assign"); unsigned p = u, q = u; sprout::shift_left_assign<>()(p, b); q <<= b; c.eq(p, q, "shift_left_assign"); sprout::modulus_assign<>()(p, 7); c.eq(p, q % 7, "modulus_assign"); m = a; c.ok(&sprout::pre_increment<>()(m) == &m && m == a + 1, "pre_increment"); c.ok(sprout::post_increment<>()(m) == a + 1 && m == a + 2, "post_increment"); c.ok(&sprout::pre_decrement<>()(m) == &m && m == a + 1, "pre_decrement"); c.ok(sprout::post_decrement<>()(m) == a + 1 && m == a, "post_decrement"); c.ok(sprout::address_of<>()(m) == &m && &sprout::dereference<>()(&m) == &m, "pointers"); c.ok(sprout::posite<>()(x) == x && sprout::negate<>()(x) == -x && sprout::bit_not<>()(u) == ~u && sprout::logical_not<>()(a) == !a, "unary");
	Arr r; for (int k = 0; k < 8; ++k) r.v[k] = k * a; c.ok(&sprout::subscript<>()(r.v, 3) == &r.v[3], "subscript"); c.eq(sprout::subscript<>()(r, "k"), std::string("[k]"), "subscript of an object"); Fun f = { b }; c.eq(sprout::call_fun<>()(f, a, b), a * 10 + b * b, "call_fun"); c.eq(sprout::call_fun<>()(f), -b, "call_fun without arguments"); c.ok(&sprout::cond<>()(a > 0, m, n) == (a > 0 ? &m : &n), "cond"); c.eq(sprout::cond<>()(a, x, b), a ? x : (double)b, "cond of mixed types"); c.ok(&sprout::member<>()(f, &Fun::k) == &f.k && &sprout::member_pointer<>()(&f, &Fun::k) == &f.k, "member access"); c.ok(&sprout::comma<>()(m, n) == &n, "comma"); } }
template<class V> void typed(V a, V b) { MON_CASE(c, std::string("typed ") + (std::is_floating_point<V>::value ? "f" : std::is_signed<V>::value ? "s" : "u") + std::to_string(sizeof(V)), a, b);
#define TY(n, op) c.ok(sprout::n<V>()(a, b) == (a op b), #n); static_assert(std::is_same<decltype(sprout::n<V>()(a, b)), bool>::value, #n); static_assert(std::is_same<typename sprout::n<V>::first_argument_type, V>::value && std::is_same<typename sprout::n<V>::second_argument_type, V>::value && std::is_same<typename sprout::n<V>::result_type, bool>::value, #n);
	TY(equal_to, ==) TY(not_equal_to, !=) TY(less, <) TY(greater, >) TY(less_equal, <=) TY(greater_equal, >=) TY(logical_and, &&) TY(logical_or, ||) c.ok(sprout::logical_not<V>()(a) == !a, "logical_not"); c.ok(sprout::not1(sprout::logical_not<V>())(a) == !!a, "not1"); c.ok(sprout::not2(sprout::less<V>())(a, b) == !(a < b), "not2"); c.ok(sprout::not2(sprout::greater<>())(a, b) == !(a > b), "not2 transparent"); c.ok(sprout::not1(sprout::logical_not<>())(b) == !!b, "not1 transparent"); c.ok(sprout::equiv(sprout::less<V>())(a, b) == (!(a < b) && !(b < a)), "equiv"); c.ok(sprout::equiv()(a, b) == (!(a < b) && !(b < a)), "equiv default"); c.ok(sprout::equiv(sprout::less_equal<>())(a, b) == (!(a <= b) && !(b <= a)), "equiv of another relation");
	c.ok(sprout::bind1st(sprout::less<V>(), a)(b) == (a < b) && sprout::bind2nd(sprout::less<V>(), a)(b) == (b < a), "bind1st and bind2nd"); c.ok(sprout::bind1st(sprout::less<>(), a)(b) == (a < b) && sprout::bind2nd(sprout::less_equal<>(), a)(b) == (b <= a), "bind1st and bind2nd transparent"); }
template<class V> void arith(V a, V b) { MON_CASE(c, std::string("arithmetic ") + (std::is_floating_point<V>::value ? "f" : std::is_signed<V>::value ? "s" : "u") + std::to_string(sizeof(V)), a, b);
#define TA(n, op) c.ok(sprout::n<V>()(a, b) == (V)(a op b), #n); static_assert(std::is_same<decltype(sprout::n<V>()(a, b)), V>::value, #n);
	TA(plus, +) TA(minus, -) TA(multiplies, *) if (b != V()) { TA(divides, /) } c.ok(sprout::negate<V>()(a) == (V)-a && sprout::posite<V>()(a) == (V)+a, "negate and posite"); c.ok(sprout::bind1st(sprout::minus<V>(), a)(b) == (V)(a - b) && sprout::bind2nd(sprout::minus<V>(), a)(b) == (V)(b - a), "bind1st and bind2nd"); }
template<class V> void bits(V a, V b) { MON_CASE(c, "bits " + std::to_string(sizeof(V)), a, b); TA(bit_and, &) TA(bit_or, |) TA(bit_xor, ^) c.ok(sprout::bit_not<V>()(a) == (V)~a, "bit_not"); if (b != 0) { TA(modulus, %) } }
template<class V> void ints() { std::vector<V> v = { 0, 1, 2, 3, 7, 100, std::numeric_limits<V>::max(), std::numeric_limits<V>::min(), (V)-1 }; for (std::uint64_t i = 0; i < reps(12); ++i) v.push_back((V)rng()()); for (V a : v) for (V b : v) { typed(a, b); if (!(std::is_signed<V>::value && b == (V)-1)) bits(a, b); V s = (V)(a % 97), t = (V)(b % 89); arith(s, t); } }
template<class V> void flts() { std::vector<V> v = { 0, (V)-0.0, 1, -1, (V)0.1, (V)-3.5, std::numeric_limits<V>::infinity(), -std::numeric_limits<V>::infinity(), std::numeric_limits<V>::denorm_min() }; for (std::uint64_t i = 0; i < reps(8); ++i) v.push_back((V)rng().range(-99999, 99999) / 64); for (V a : v) for (V b : v) { typed(a, b); if (a - a == 0 && b - b == 0) arith(a, b); } V n = std::numeric_limits<V>::quiet_NaN(); for (V a : v) { typed(a, n); typed(n, a); } typed(n, n); }
MON_TEST(typed_integers) { ints<signed char>(); ints<unsigned char>(); ints<short>(); ints<int>(); ints<unsigned>(); ints<long long>(); ints<unsigned long>(); }
MON_TEST(typed_floats) { flts<float>(); flts<double>(); flts<long double>(); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) typed<bool>(a, b); }
MON_TEST(polymorphic_bind) { for (std::uint64_t i = 0; i < reps(100); ++i) { int a = (int)rng().range(-50, 50); double b = (double)rng().range(-400, 400) / 8; MON_CASE(c, "binders over mixed types", a, b); c.eq(sprout::bind1st(sprout::minus<>(), a)(b), a - b, "bind1st"); c.eq(sprout::bind2nd(sprout::minus<>(), a)(b), b - a, "bind2nd"); c.eq(sprout::bind1st(sprout::less<>(), b)(a), b < a, "bind1st less"); c.eq(sprout::bind2nd(sprout::less<>(), b)(a), a < b, "bind2nd less"); } }
#endif
#if MON_PART(1)
// ---------------------------------------------------------------- binders
template<class A> struct Cat { static std::string f() { typedef typename std::remove_reference<A>::type B; return std::string(std::is_const<B>::value ? "c" : "") + (std::is_lvalue_reference<A>::value ? "&" : "&&"); } };
struct Rec { static std::string j() { return ""; } template<class A, class... R> static std::string j(A&& a, R&&... r) { return Cat<A>::f() + std::to_string((long)a) + ";" + j(std::forward<R>(r)...); } template<class... A> std::string operator()(A&&... a) const { return j(std::forward<A>(a)...); } };
struct Sum { template<class... A> long operator()(A const&... a) const { long v[] = { 0, (long)a... }; long r = 0; for (long x : v) r = r * 10 + x; return r; } };
namespace sp = sprout::placeholders; namespace st = std::placeholders;
struct Acc { int n = 0; int operator()(int a) { return n += a; } int operator()(int a) const { return -a - n; } };
inline int plain(int a, int b, int c) { return a * 100 + b * 10 + c; } inline void addto(int& x, int y) { x += y; }
struct Obj { int k; int m(int a) { return k += a; } int cm(int a, int b) const { return k * 100 + a * 10 + b; } int z() const { return k; } virtual int v() const { return 1; } virtual ~Obj() {} Obj(int x) : k(x) {} }; struct Der : Obj { int v() const override { return 2; } Der(int x) : Obj(x) {} };
MON_TEST(bind_arguments) { for (std::uint64_t i = 0; i < reps(60); ++i) { int a = (int)rng().range(0, 9), b = (int)rng().range(0, 9), e = (int)rng().range(0, 9), f = (int)rng().range(0, 9); int const k = (int)rng().range(0, 9); MON_CASE(c, "bind", a, b, e, f, k); Rec r;
#define BI(args_s, args_t, call) { auto x = sprout::bind args_s; auto y = std::bind args_t; c.eq(x call, y call, "bind" #args_s #call); auto const cx = x; auto const cy = y; c.eq(cx call, cy call, "const bind" #args_s #call); auto cc = sprout::cbind args_s; c.eq(cc call, cy call, "cbind" #args_s #call); auto z = x; c.eq(z call, y call, "copy of bind"); c.eq(std::move(z) call, y call, "moved bind"); }
	BI((r), (r), ()) BI((r, a), (r, a), ()) BI((r, sp::_1), (r, st::_1), (b)) BI((r, sp::_2, sp::_1), (r, st::_2, st::_1), (a, b)) BI((r, sp::_1, sp::_1), (r, st::_1, st::_1), (k)) BI((r, sp::_3, 7, sp::_1, sp::_2), (r, 7 ? st::_3 : st::_3, 7, st::_1, st::_2), (a, b, e)) BI((r, sp::_1), (r, st::_1), (a, b, e)) BI((r, sp::_2), (r, st::_2), (1, k, e + f)) BI((r, sp::_4, sp::_3, sp::_2, sp::_1), (r, st::_4, st::_3, st::_2, st::_1), (a, 2, k, b)) BI((r, k, a, sp::_1, b), (r, k, a, st::_1, b), (e)) BI((r, sprout::ref(a), sprout::cref(b), sp::_1), (r, std::ref(a), std::cref(b), st::_1), (e)) BI((r, std::ref(a), sp::_2), (r, std::ref(a), st::_2), (e, f))
	Sum s; BI((s, sprout::bind(s, sp::_2, a), sp::_1), (s, std::bind(s, st::_2, a), st::_1), (b, e)) BI((s, sprout::bind(s, sp::_1, sp::_2), sprout::bind(s, sp::_2, sp::_1), 3), (s, std::bind(s, st::_1, st::_2), std::bind(s, st::_2, st::_1), 3), (b, e)) BI((plain, sp::_3, sp::_1, sp::_2), (plain, st::_3, st::_1, st::_2), (a, b, e)) BI((&plain, a, sp::_1, f), (&plain, a, st::_1, f), (b))
	auto q = sprout::bind(Sum(), sp::_1, sp::_2, sp::_3, sp::_4, sp::_5, sp::_6, sp::_7); c.eq(q(1, a, 2, b, 3, e, 4), Sum()(1, a, 2, b, 3, e, 4), "seven placeholders"); int x = a; auto w = sprout::bind(addto, sprout::ref(x), sp::_1); w(b); w(e); c.eq(x, a + b + e, "bound reference is modified"); x = a; auto w2 = sprout::bind(addto, sp::_2, sp::_1); w2(b, x); c.eq(x, a + b, "reference argument is modified"); int y = a; auto w3 = sprout::bind(r, y); y = 99; c.eq(w3(), "&" + std::to_string(a) + ";", "bound by copy");
	Acc ac; auto m = sprout::bind(ac, sp::_1); c.eq(m(a), a, "stateful 1"); c.eq(m(b), a + b, "stateful 2"); auto const cm = m; c.eq(cm(e), -e - a - b, "const call"); auto m2 = sprout::bind(sprout::ref(ac), sp::_1); m2(b); c.eq(ac.n, b, "by reference"); c.eq(sprout::bind<double>(plain, a, b, sp::_1)(e), (double)plain(a, b, e), "bind<R>"); static_assert(std::is_same<decltype(sprout::bind<double>(plain, 1, 2, sp::_1)(3)), double>::value, "bind<R>");
	Obj o(a); Der de(b); Obj const co(e); c.eq(sprout::bind(&Obj::cm, o, sp::_1, f)(b), o.cm(b, f), "member function of a copy"); c.eq(sprout::bind(&Obj::m, &o, sp::_1)(b), a + b, "member function through a pointer"); c.eq(o.k, a + b, "object modified"); c.eq(sprout::bind(&Obj::cm, sp::_1, sp::_2, sp::_3)(de, e, f), de.cm(e, f), "member function of a derived object"); c.eq(sprout::bind(&Obj::k, sp::_1)(co), e, "data member"); sprout::bind(&Obj::k, sp::_1)(o) = f; c.eq(o.k, f, "data member assigned"); c.eq(sprout::bind(&Obj::v, sp::_1)(de), 2, "virtual dispatch");
	c.eq(sprout::bind(r, sp::_va)(a, 2), Rec()(a, 2), "all arguments"); c.eq(sprout::bind(s, sp::_1tail)(a, b, e), s(b, e), "all but the first"); c.eq(sprout::bind(s, f, sp::_va)(a, b, e), s(f, a, b, e), "all after a bound one"); c.eq(sprout::bind(s, sp::_2, sp::_2tail, sp::_1)(a, b, e, f), s(b, e, f, a), "tail in the middle"); c.eq(sprout::bind(s, sp::_va, sp::_1tail)(a, b, e), s(a, b, e, b, e), "two tails"); c.eq(sprout::bind(s, sp::_2tail, 5)(a, b), s(5), "empty tail"); } }
MON_TEST(member_access) { for (std::uint64_t i = 0; i < reps(60); ++i) { int a = (int)rng().range(0, 9), b = (int)rng().range(0, 9), e = (int)rng().range(0, 9); MON_CASE(c, "mem_fn and invoke", a, b, e); Obj o(a); Obj const co(b); Der de(e); std::unique_ptr<Obj> up(new Der(b)); auto f = sprout::mem_fn(&Obj::cm); c.eq(f(o, b, e), o.cm(b, e), "reference"); c.eq(f(&o, b, e), o.cm(b, e), "pointer"); c.eq(f(co, a, e), co.cm(a, e), "const"); c.eq(f(&co, a, e), co.cm(a, e), "pointer to const"); c.eq(f(de, a, b), de.cm(a, b), "derived"); c.eq(f(up, a, b), up->cm(a, b), "smart pointer"); auto g = sprout::mem_fn(&Obj::m); c.eq(g(o, b), a + b, "modifying"); c.eq(g(&o, e), a + b + e, "modifying through a pointer"); c.eq(o.k, a + b + e, "modified"); c.eq(g(de, a), e + a, "derived"); auto h = sprout::mem_fn(&Obj::k); h(o) = e; c.eq(o.k, e, "data member"); c.eq(h(co), b, "const data member"); c.eq(h(&o), e, "data member through a pointer"); c.ok(&h(o) == &o.k, "data member identity"); auto v = sprout::mem_fn(&Obj::v); c.ok(v(o) == 1 && v(de) == 2 && v(up) == 2 && v(static_cast<Obj&>(de)) == 2, "virtual");
	c.eq(sprout::mem_fun(&Obj::z)(&o), e, "mem_fun"); c.eq(sprout::mem_fun_ref(&Obj::z)(co), b, "mem_fun_ref"); o.k = a; c.eq(sprout::mem_fun(&Obj::m)(&o, b), a + b, "mem_fun one argument"); c.eq(sprout::mem_fun_ref(&Obj::m)(o, e), a + b + e, "mem_fun_ref one argument"); int (*pf)(int, int) = [](int x, int y) { return x * 10 - y; }; c.eq(sprout::ptr_fun(pf)(a, b), a * 10 - b, "ptr_fun"); int (*pu)(int) = [](int x) { return x * 3; }; c.eq(sprout::ptr_fun(pu)(b), b * 3, "ptr_fun unary"); c.ok(sprout::not2(sprout::ptr_fun(pf))(a, b) == !(a * 10 - b), "not2 of ptr_fun");
	o.k = a; c.eq(sprout::invoke(&Obj::cm, o, b, e), o.cm(b, e), "invoke reference"); c.eq(sprout::invoke(&Obj::cm, &co, b, e), co.cm(b, e), "invoke pointer"); c.eq(sprout::invoke(&Obj::k, co), b, "invoke data member"); sprout::invoke(&Obj::k, o) = 77; c.eq(o.k, 77, "invoke assigns"); c.eq(sprout::invoke(&Obj::v, de), 2, "invoke virtual"); c.eq(sprout::invoke(&Obj::v, up), 2, "invoke smart pointer"); c.eq(sprout::invoke(plain, a, b, e), plain(a, b, e), "invoke function"); c.eq(sprout::invoke(Rec(), a, 5), "&" + std::to_string(a) + ";&&5;", "invoke forwards"); Acc ac; c.eq(sprout::invoke(ac, a), a, "invoke function object"); c.eq(ac.n, a, "invoke by reference");
	int x = a, y = b; auto rx = sprout::ref(x); int& ir = rx; c.ok(&rx.get() == &x && &ir == &x, "ref"); rx.get() = e; c.eq(x, e, "through ref"); rx = sprout::ref(y); c.ok(&rx.get() == &y && x == e && y == b, "rebinding"); auto cr = sprout::cref(x); c.ok(&cr.get() == &x, "cref"); c.ok(&sprout::ref(rx).get() == &y && &sprout::cref(rx).get() == &y, "ref of a ref"); ac.n = 0; auto ra = sprout::ref(ac); c.eq(ra(b), b, "call through ref"); c.eq(ac.n, b, "state through ref"); auto rf = sprout::ref(plain); c.eq(rf(a, b, e), plain(a, b, e), "ref to a function"); c.eq(sprout::cref(ac)(e), -e - b, "call through cref"); } }
MON_TEST(constant_expressions) { MON_CASE(c, "constant expressions", 0); constexpr auto p = sprout::cbind(sprout::minus<>(), sp::_2, sp::_1); constexpr int x = p(3, 10), y = sprout::not2(sprout::less<int>())(2, 1) ? 1 : 0, z = sprout::bind2nd(sprout::minus<int>(), 4)(9); constexpr std::size_t h = sprout::hash_values(1, 'a', 2.5); c.ok(x == 7 && y == 1 && z == 5, "values"); c.eq(h, sprout::hash_values(1, 'a', 2.5), "hash"); }
#endif
// ---------------------------------------------------------------- hashes
template<class K, class V> void same(K& c, V const& a, V const& b, char const* n) { c.ok(a == b, std::string(n) + " objects are equal"); std::size_t h = sprout::to_hash(a); c.eq(sprout::to_hash(b), h, std::string(n) + " to_hash"); c.eq(sprout::hash<V>()(b), h, std::string(n) + " hash<>"); c.eq(std::hash<V>()(b), h, std::string(n) + " std::hash"); c.eq(sprout::to_hash(b), h, std::string(n) + " again"); }
template<class K, class V> void same0(K& c, V const& a, V const& b, char const* n) { c.ok(a == b, std::string(n) + " objects are equal"); std::size_t h = sprout::to_hash(a); c.eq(sprout::to_hash(b), h, std::string(n) + " to_hash"); c.eq(sprout::hash<V>()(b), h, std::string(n) + " hash<>"); }
template<class K, class V> void diff(K& c, V const& a, V const& b, char const* n) { c.ok(!(a == b) && sprout::to_hash(a) != sprout::to_hash(b), std::string(n) + " differ"); }
#if MON_PART(2)
enum En : short { ea = -3, eb = 40 }; enum class Ec : unsigned char { x = 200, y }; 
template<class V> void fh() { std::vector<V> v = { 0, (V)-0.0, 1, -1, 2, (V)0.5, (V)0.1, std::numeric_limits<V>::max(), std::numeric_limits<V>::lowest(), std::numeric_limits<V>::min(), std::numeric_limits<V>::denorm_min(), std::numeric_limits<V>::epsilon(), std::numeric_limits<V>::infinity(), -std::numeric_limits<V>::infinity() }; for (std::uint64_t i = 0; i < reps(60); ++i) v.push_back(std::ldexp((V)rng().range(-1000000007, 1000000007), (int)rng().range(-120, 90))); for (V a : v) { MON_CASE(c, "float hash " + std::to_string(sizeof(V)), a); V b = a; volatile V t = a; b = t; same0(c, a, b, "copy"); if (a - a == 0) { b = (a / 2) * 2; if (b == a) same0(c, a, b, "recomputed"); b = -(-a); same0(c, a, b, "negated twice"); if (a == 0) { same0(c, a, -a, "signed zeros"); } else { diff(c, a, -a, "negation"); if (std::abs(a) > std::numeric_limits<V>::min()) { diff(c, a, std::nextafter(a, (V)0), "neighbour"); } } } } }
MON_TEST(numbers) { fh<float>(); fh<double>(); fh<long double>(); for (std::uint64_t i = 0; i < reps(200); ++i) { long long x = (long long)rng()(); MON_CASE(c, "integer hash", x); same0(c, (int)x, (int)x, "int"); same0(c, x, x, "long long"); same0(c, (unsigned char)x, (unsigned char)x, "unsigned char"); same0(c, (wchar_t)x, (wchar_t)x, "wchar_t"); same0(c, (bool)(x & 1), (bool)(x & 1), "bool"); same0(c, (char)x, (char)x, "char"); diff(c, x, x ^ (1ll << (x & 63)), "one bit"); diff(c, (int)x, (int)x ^ 1, "one bit of int"); same0(c, ea, (En)-3, "enum"); diff(c, ea, eb, "enum"); same0(c, Ec::x, (Ec)200, "enum class"); diff(c, Ec::x, Ec::y, "enum class"); int z[3]; int* p = z + (x & 1); int* q = &z[x & 1]; same0(c, p, q, "pointer"); diff(c, p, z + 2, "pointer"); } }
MON_TEST(combining) { for (std::uint64_t i = 0; i < reps(300); ++i) { std::size_t seed = (std::size_t)rng()(); int a = (int)rng()(), b = (int)rng()(); double x = (double)rng().range(-999, 999) / 7; MON_CASE(c, "combine", seed, a, b, x); std::size_t r = sprout::hash_combine(sprout::hash_combine(sprout::hash_combine(seed, a), x), b); c.eq(sprout::hash_combine(seed, a, x, b), r, "hash_combine folds from the left"); c.eq(sprout::hash_values(a, x, b), sprout::hash_combine(0, a, x, b), "hash_values"); c.ok(a == b || sprout::hash_values(a, b) != sprout::hash_values(b, a), "order matters"); c.ok(a == b || sprout::hash_combine(seed, a) != sprout::hash_combine(seed, b), "value matters"); c.ok(sprout::hash_combine(seed, a) != sprout::hash_combine(seed + 1, a), "seed matters"); } }
MON_TEST(ranges) { for (std::uint64_t i = 0; i < reps(300); ++i) { std::size_t n = (std::size_t)rng().below(20); std::vector<int> v(n); for (auto& x : v) x = (int)rng().range(-4, 4); MON_CASE(c, "range", v); Buf<int> b(v); std::size_t h = sprout::hash_range((int const*)b.p, (int const*)b.p + b.n), s = 0; for (int x : v) s = sprout::hash_combine(s, x); c.eq(h, s, "hash_range combines every element in order"); c.eq(sprout::hash_range(v.begin(), v.end()), h, "another iterator"); std::list<int> l(v.begin(), v.end()); c.eq(sprout::hash_range(l.begin(), l.end()), h, "bidirectional iterator"); std::istringstream is([&] { std::string t; for (int x : v) t += std::to_string(x) + " "; return t; }()); c.eq(sprout::hash_range(std::istream_iterator<int>(is), std::istream_iterator<int>()), h, "input iterator"); c.eq(sprout::hash_range(v), h, "range"); std::size_t sd = (std::size_t)rng()(); std::size_t s2 = sd; for (int x : v) s2 = sprout::hash_combine(s2, x); c.eq(sprout::hash_range(sd, v.begin(), v.end()), s2, "seeded"); c.eq(sprout::hash_range(sd, v), s2, "seeded range"); for (std::size_t k = 0; k < n; ++k) { auto w = v; ++w[k]; c.ok(sprout::hash_range(w) != h, "every element matters"); if (k && v[k] != v[k - 1]) { w = v; std::swap(w[k], w[k - 1]); c.ok(sprout::hash_range(w) != h, "order matters"); } } } }
#endif
#if MON_PART(3)
template<std::size_t N> void strs() { for (std::uint64_t i = 0; i < reps(60); ++i) { std::string s; std::size_t n = (std::size_t)rng().below(N + 1); for (std::size_t k = 0; k < n; ++k) s += (char)('a' + rng().below(3)); typedef sprout::basic_string<char, N> S; MON_CASE(c, "string<" + std::to_string(N) + ">", s); S a(s.c_str(), s.size()), b(std::string(N, 'z').c_str(), N); b = a; same(c, a, b, "assigned over a longer"); S d(std::string(N, 'q').c_str(), N); d.clear(); for (char ch : s) d.push_back(ch); same(c, a, d, "built by push_back after clear"); S e(std::string(N, 'y').c_str(), N); e.resize(n); for (std::size_t k = 0; k < n; ++k) e[k] = s[k]; same(c, a, e, "resized"); sprout::basic_string<char, N + 5> big(s.c_str(), s.size()); c.ok(a == big && sprout::to_hash(a) == sprout::to_hash(big), "other capacity"); sprout::string_view u(s.data(), s.size()), v(a.data(), a.size()); same(c, u, v, "views of different memory"); c.eq(sprout::to_hash(u), sprout::hash_range(s), "view hash is the range hash"); if (n) { S f = a; f[n - 1]++; diff(c, a, f, "last character"); } } }
template<std::size_t N> void bs() { for (std::uint64_t i = 0; i < reps(40); ++i) { typedef sprout::bitset<N> B; B a, b; std::string s; for (std::size_t k = 0; k < N; ++k) if (rng().coin()) a[k] = true; MON_CASE(c, "bitset<" + std::to_string(N) + ">", a.count()); b.set(); for (std::size_t k = 0; k < N; ++k) b.set(k, a.test(k)); same(c, a, b, "bit by bit"); same(c, a, ~~a, "complemented twice"); B e = b; e.flip(); e = ~e; same(c, a, e, "flipped"); B f = a; f ^= b; same(c, f, B(), "cleared"); B g = ~a; g &= a; same(c, g, B(), "and"); same(c, (a << N), B(), "shifted out"); std::size_t k = (std::size_t)rng().below(N); f = a; f.flip(k); diff(c, a, f, "one bit"); } }
MON_TEST(strings) { strs<1>(); strs<4>(); strs<16>(); strs<33>(); }
MON_TEST(bitsets) { bs<1>(); bs<7>(); bs<32>(); bs<63>(); bs<64>(); bs<65>(); bs<130>(); }
MON_TEST(compound) { for (std::uint64_t i = 0; i < reps(150); ++i) { int a = (int)rng().range(-20, 20), b = (int)rng().range(1, 20), e = (int)rng().range(1, 9); double x = (double)rng().range(-99, 99) / 4; MON_CASE(c, "compound", a, b, e, x); typedef sprout::array<int, 3> A; A r1 = { { a, b, e } }, r2; r2.fill(9); r2[2] = e; r2[0] = a; r2[1] = b; same(c, r1, r2, "array"); if (a != b) { A r3 = { { b, a, e } }; diff(c, r1, r3, "array order"); } A r4 = r1; ++r4[2]; diff(c, r1, r4, "array element");
	typedef sprout::tuple<int, double, char> T; T t1(a, x, 'c'), t2; t2 = t1; same(c, t1, t2, "tuple"); diff(c, t1, T(a + 1, x, 'c'), "tuple"); diff(c, t1, T(a, x, 'd'), "tuple last"); diff(c, t1, T(a, x + 1, 'c'), "tuple middle"); same(c, T(a, 0.0, 'c'), T(a, -0.0, 'c'), "tuple with signed zeros"); typedef sprout::pair<int, int> P; same(c, P(a, b), sprout::make_pair(a, b), "pair"); if (a != b) diff(c, P(a, b), P(b, a), "pair order"); diff(c, P(a, b), P(a, b + 1), "pair second");
	typedef sprout::optional<int> O; O o1(a), o2(b); o2 = a; same(c, o1, o2, "optional"); O o3(b); o3 = sprout::nullopt; same(c, o3, O(), "empty optional"); diff(c, o1, O(a + 1), "optional"); typedef sprout::variant<int, double> V; V v1(a), v2(x); v2 = a; same(c, v1, v2, "variant"); diff(c, v1, V(a + 1), "variant"); diff(c, V(1), V(1.0), "variant alternatives");
	typedef sprout::rational<int> Q; same(c, Q(a * e, b * e), Q(a, b), "rational"); same(c, Q(a, b) + Q(1, e) - Q(1, e), Q(a, b), "computed rational"); same(c, Q(-a, -b), Q(a, b), "rational sign"); same(c, Q(0, b), Q(0), "rational zero"); diff(c, Q(a, b), Q(a + 1, b), "rational"); typedef sprout::complex<double> C; same(c, C(x, 0.0), C(x, -0.0), "complex"); same(c, C(x, 2) * 2.0, C(2 * x, 4), "computed complex"); diff(c, C(x, 2), C(x, 3), "complex"); if (x != 2) diff(c, C(x, 2), C(2, x), "complex order"); typedef sprout::valarray<int, 6> W; W w1, w2; w1.resize(3); w2.resize(6, 7); w2.resize(3); for (int k = 0; k < 3; ++k) { w1[k] = r1[k]; w2[k] = r1[k]; } c.eq(sprout::to_hash(w1), sprout::to_hash(w2), "valarray"); w2[1] ^= 1; c.ok(sprout::to_hash(w1) != sprout::to_hash(w2), "valarray element");
	sprout::uuids::uuid u1 = {}, u2 = {}; for (auto it = u1.begin(); it != u1.end(); ++it) *it = (unsigned char)rng()(); u2 = u1; same(c, u1, u2, "uuid"); for (int k = 0; k < 16; ++k) { u2 = u1; *(u2.begin() + k) ^= 1; diff(c, u1, u2, "uuid byte"); } int f1[3] = { a, b, e }; int f2[3] = { a, b, e }; c.eq(sprout::to_hash(f1), sprout::to_hash(f2), "built-in array"); f2[2] ^= 4; c.ok(sprout::to_hash(f1) != sprout::to_hash(f2), "built-in array element"); A big = r1; sprout::sub_array<A> s1(r1, 1, 3), s2(r4, 1, 3); auto s3 = sprout::sub_array<A>(big, 1, 3); same(c, s1, s3, "sub_array"); diff(c, s1, s2, "sub_array"); typedef sprout::array<sprout::pair<int, T>, 2> N2; N2 n1 = { { sprout::make_pair(a, t1), sprout::make_pair(b, t2) } }, n2 = n1; same(c, n1, n2, "nested"); n2[1] = sprout::make_pair(b, T(a, x, 'z')); diff(c, n1, n2, "nested"); same(c, std::string("abc"), std::string("xabc").substr(1), "std::string"); } }
#endif
