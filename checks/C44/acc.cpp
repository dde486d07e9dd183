// C44: sprout's free container functions give one view of every container, the same as its members and std's own iterators.
#include <mon.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/complex.hpp>
#include <sprout/math/quaternion.hpp>
#include <sprout/pit.hpp>
#include <sprout/sized_pit.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/valarray.hpp>
#include <sprout/optional.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/container/functions.hpp>
#include <sprout/container/traits.hpp>
#include <sprout/container/metafunctions.hpp>
#include <sprout/container/internal.hpp>
#include <sprout/container/deep_internal.hpp>
#include <sprout/container/container_holder.hpp>
#include <sprout/container/std/array.hpp>
#include <sprout/container/std/complex.hpp>
#include <boost/array.hpp>
#include <sprout/container/boost/array.hpp>
#include <sprout/container/indexes.hpp>
#include <sprout/memory.hpp>
#include <sprout/range/range_container.hpp>
#include <sprout/range/ptr_range.hpp>
#include <sprout/iterator.hpp>
#include <array>
#include <complex>
#include <deque>
#include <list>
#include <map>
#include <set>
#include <vector>
using namespace mon; typedef std::vector<long> W;
template<class T> long val(T const& v) { return (long)v; }
template<class A, class B> long val(std::pair<A const, B> const& p) { return (long)p.first * 1000 + (long)p.second; }
// containers that offer less than everything
struct Iter { typedef int value_type; typedef int* iterator; typedef int const* const_iterator; typedef int& reference; typedef int const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int const* const_pointer; int a[5]; int* begin() { return a; } int* end() { return a + 5; } int const* begin() const { return a; } int const* end() const { return a + 5; } };
struct Sub : Iter { int& operator[](std::size_t i) { return a[i]; } int const& operator[](std::size_t i) const { return a[i]; } };
struct List { typedef int value_type; typedef std::list<int>::iterator iterator; typedef std::list<int>::const_iterator const_iterator; typedef int& reference; typedef int const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int const* const_pointer; std::list<int> l; iterator begin() { return l.begin(); } iterator end() { return l.end(); } const_iterator begin() const { return l.begin(); } const_iterator end() const { return l.end(); } };
namespace user { struct Adl { typedef int value_type; typedef int* iterator; typedef int const* const_iterator; typedef int& reference; typedef int const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int const* const_pointer; int a[5]; }; inline int* begin(Adl& x) { return x.a; } inline int* end(Adl& x) { return x.a + 5; } inline int const* begin(Adl const& x) { return x.a; } inline int const* end(Adl const& x) { return x.a + 5; } }
template<class It> W take(It f, It l) { W w; for (; f != l && w.size() < 200; ++f) w.push_back(val(*f)); return w; }
template<class C, class It> void ptrs(C& c, It f, long i, void const* p) { (void)c; It g = f; std::advance(g, i); c.ok((void const*)&*g == p, "refers to the element itself"); }
// the part every container has; K is the container as seen (const or not)
template<class Cs, class K> void look(Cs& c, K& k, W const& w) { long n = (long)w.size(); auto b = sprout::begin(k); auto e = sprout::end(k); c.eq(take(b, e), w, "begin/end"); c.eq(take(sprout::cbegin(k), sprout::cend(k)), w, "cbegin/cend"); c.ok((long)sprout::size(k) == n && sprout::empty(k) == (n == 0), "size and empty"); c.ok(std::is_same<decltype(b), typename sprout::container_traits<K>::iterator>::value, "iterator type"); if (!n) return; c.ok(val(sprout::front(k)) == w[0] && val(sprout::back(k)) == w[n - 1] && val(sprout::cfront(k)) == w[0] && val(sprout::cback(k)) == w[n - 1], "front and back");
	for (long i = 0; i < n; ++i) { c.ok(val(sprout::subscript_at(k, i)) == w[i] && val(sprout::csubscript_at(k, i)) == w[i], "subscript_at"); c.ok(val(sprout::at(k, i)) == w[i] && val(sprout::cat(k, i)) == w[i], "at"); c.ok(val(*sprout::nth(k, i)) == w[i] && val(*sprout::cnth(k, i)) == w[i], "nth"); auto it = sprout::begin(k); std::advance(it, i); { auto ci = sprout::cbegin(k); std::advance(ci, i); c.ok((long)sprout::index_of(k, it) == i && (long)sprout::cindex_of(k, ci) == i, "index_of"); } c.ok(sprout::nth(k, i) == it, "nth is begin + i"); }
	c.ok((long)sprout::index_of(k, sprout::end(k)) == n, "index_of end"); throws<std::out_of_range>(c, [&] { (void)sprout::at(k, n); }); throws<std::out_of_range>(c, [&] { (void)sprout::at(k, (std::size_t)-1); });  count("positions", n); }
template<class C2, class Cs, class K> void addr(Cs& c, K& k, W const& w) { for (std::size_t i = 0; i < w.size(); ++i) { auto it = sprout::begin(k); std::advance(it, i); c.ok(&sprout::subscript_at(k, i) == &*it && &sprout::at(k, i) == &*it && &*sprout::nth(k, i) == &*it, "the same element"); } if (w.size()) c.ok(&sprout::front(k) == &*sprout::begin(k), "front is the first element"); }
template<class Cs, class K> void direct(Cs& c, K& k, W const& w) { auto p = sprout::data(k); for (std::size_t i = 0; i < w.size(); ++i) c.ok(val(p[i]) == w[i] && val(sprout::cdata(k)[i]) == w[i], "data"); }
template<class Cs, class K> void write(Cs& c, K& k, W w) { typedef typename sprout::container_traits<K>::value_type V; for (std::size_t i = 0; i < w.size(); ++i) { V v((int)rng().range(0, 99)); long x = val(v); switch (rng().below(4)) { case 0: sprout::subscript_at(k, i) = v; break; case 1: sprout::at(k, i) = v; break; case 2: *sprout::nth(k, i) = v; break; default: { auto it = sprout::begin(k); std::advance(it, i); *it = v; } } w[i] = x; c.eq(take(sprout::begin(k), sprout::end(k)), w, "writing one element"); } if (w.size()) { V v(3), u(4); sprout::front(k) = v; sprout::back(k) = u; w[0] = 3; w[w.size() - 1] = 4; c.eq(take(sprout::begin(k), sprout::end(k)), w, "writing front and back"); } }
template<class K> void both(char const* nm, K& k, W const& w, bool mut = true) { MON_CASE(c, nm, w); look(c, k, w); K const& q = k; look(c, q, w); (void)mut; }
template<class T> void fill(T& t, W& w) { w.clear(); for (auto& x : t) { x = typename std::remove_reference<decltype(x)>::type((int)rng().range(0, 99)); w.push_back(val(x)); } }
// members of sprout's own containers
template<class Cs, class K> void members(Cs& c, K& k, W const& w) { long n = (long)w.size(); c.ok((long)k.size() == n && k.empty() == !n && (long)k.max_size() >= n, "size()"); c.eq(take(k.begin(), k.end()), w, "begin()"); c.eq(take(k.cbegin(), k.cend()), w, "cbegin()"); W r(w.rbegin(), w.rend()); c.eq(take(k.rbegin(), k.rend()), r, "rbegin()"); c.eq(take(k.crbegin(), k.crend()), r, "crbegin()"); for (long i = 0; i < n; ++i) c.ok(val(k[i]) == w[i] && val(k.at(i)) == w[i], "[] and at()"); if (n) c.ok(val(k.front()) == w[0] && val(k.back()) == w[n - 1], "front() and back()"); throws<std::out_of_range>(c, [&] { (void)k.at(n); }); throws<std::out_of_range>(c, [&] { (void)k.at((std::size_t)-1); }); }
template<class Cs, class K> void datas(Cs& c, K& k, W const& w) { for (std::size_t i = 0; i < w.size(); ++i) c.ok(val(k.data()[i]) == w[i], "data()"); }
template<class Cs, class K> void nths(Cs& c, K& k, W const& w) { long n = (long)w.size(); for (long i = 0; i < n; ++i) c.ok(val(*k.nth(i)) == w[i] && k.nth(i) == k.begin() + i && (long)k.index_of(k.begin() + i) == i, "nth() and index_of()"); }
template<class K> void own(char const* nm, K& k, W const& w) { MON_CASE(c, std::string("members ") + nm, w); members(c, k, w); K const& q = k; members(c, q, w); }
template<class K> void owndata(char const* nm, K& k, W const& w) { MON_CASE(c, std::string("data ") + nm, w); K const& q = k; datas(c, k, w); datas(c, q, w); direct(c, k, w); direct(c, q, w); }
template<class K> void ownnth(char const* nm, K& k, W const& w) { MON_CASE(c, std::string("nth ") + nm, w); K const& q = k; nths(c, k, w); nths(c, q, w); }
template<class K> void writes(char const* nm, K& k, W const& w) { MON_CASE(c, std::string("write ") + nm, w); addr<K>(c, k, w); K const& q = k; addr<K>(c, q, w); write(c, k, w); }
template<class K> void sz(char const* nm, std::size_t n) { MON_CASE(c, std::string("static size ") + nm, n); c.ok(sprout::containers::static_size<K>::value == n && sprout::containers::static_size<K const>::value == n && sprout::container_traits<K>::static_size == n, "static_size"); }
#if MON_PART(0)
template<std::size_t N> void arrays() { for (std::uint64_t r = 0; r < reps(30); ++r) { W w; sprout::array<int, N> a; fill(a, w); both("array", a, w); own("array", a, w); owndata("array", a, w); ownnth("array", a, w); writes("array", a, w); std::array<int, N> s; fill(s, w); both("std::array", s, w); owndata("std::array", s, w); writes("std::array", s, w); int p[N]; fill(p, w); both("C array", p, w); { MON_CASE(c, "data C array", w); direct(c, p, w); int const (&q)[N] = p; direct(c, q, w); } writes("C array", p, w); } sz<sprout::array<int, N> >("array", N); sz<std::array<int, N> >("std::array", N); sz<int[N]>("C array", N); }
MON_TEST(arrays) { arrays<1>(); arrays<2>(); arrays<5>(); arrays<9>(); W w; sprout::array<int, 0> z; both("empty array", z, w); own("empty array", z, w); }
MON_TEST(user) { for (std::uint64_t r = 0; r < reps(60); ++r) { W w; Iter i; fill(i, w); both("begin and end only", i, w); writes("begin and end only", i, w); Sub s; fill(s, w); both("begin, end and []", s, w); writes("begin, end and []", s, w); List l; l.l.assign(1 + rng().below(8), 0); fill(l, w); both("bidirectional", l, w); writes("bidirectional", l, w); user::Adl a; w.clear(); for (int& x : a.a) { x = (int)rng().range(0, 99); w.push_back(x); } both("begin and end by ADL", a, w); writes("begin and end by ADL", a, w); } }
MON_TEST(stdcont) { for (std::uint64_t r = 0; r < reps(60); ++r) { std::size_t n = rng().below(9); W w; std::vector<int> v(n); fill(v, w); both("std::vector", v, w); owndata("std::vector", v, w); writes("std::vector", v, w); std::deque<int> d(n); fill(d, w); both("std::deque", d, w); writes("std::deque", d, w); std::list<int> l(n); fill(l, w); both("std::list", l, w); writes("std::list", l, w); std::map<int, int> m; for (std::size_t i = 0; i < n; ++i) m[(int)rng().below(50)] = (int)rng().below(99); W mw; for (auto& p : m) mw.push_back(val(p)); { MON_CASE(c, "std::map", mw); c.eq(take(sprout::begin(m), sprout::end(m)), mw, "begin/end"); c.ok((std::size_t)sprout::size(m) == m.size(), "size"); } std::string s(n, 'a'); w.clear(); for (char& x : s) { x = (char)('a' + rng().below(26)); w.push_back(x); } both("std::string", s, w); writes("std::string", s, w); } }
#endif
#if MON_PART(1)
template<class E> void strs(char const* nm) { for (std::uint64_t r = 0; r < reps(60); ++r) { std::size_t n = rng().below(8); std::basic_string<E> t; W w; for (std::size_t i = 0; i < n; ++i) { t.push_back((E)('a' + rng().below(26))); w.push_back((long)t[i]); } sprout::basic_string<E, 7> s(t.c_str()); if (n > 7) continue; both(nm, s, w); own(nm, s, w); owndata(nm, s, w); ownnth(nm, s, w); writes(nm, s, w); sprout::basic_string_view<E> v(t.data(), n); MON_CASE(c, std::string("view ") + nm, w); look(c, v, w); auto const& q = v; look(c, q, w); members(c, q, w); datas(c, q, w); E const* cs = t.c_str(); c.ok((std::size_t)v.size() == n && v.data() == t.data() && (n == 0 || &v.front() == t.data()), "view refers to the text"); (void)cs; } }
MON_TEST(strings) { strs<char>("string"); strs<wchar_t>("wstring"); strs<char16_t>("u16string"); strs<char32_t>("u32string"); }
template<class T> void numbers(char const* nm) { for (std::uint64_t r = 0; r < reps(60); ++r) { W w; sprout::complex<T> z; fill(z, w); both((std::string("complex ") + nm).c_str(), z, w); own("complex", z, w); owndata("complex", z, w); writes("complex", z, w); sprout::math::quaternion<T> q; fill(q, w); both("quaternion", q, w); own("quaternion", q, w); owndata("quaternion", q, w); writes("quaternion", q, w); } sz<sprout::complex<T> >("complex", 2); sz<sprout::math::quaternion<T> >("quaternion", 4); }
MON_TEST(numbers) { numbers<float>("float"); numbers<double>("double"); numbers<int>("int"); }
MON_TEST(valarrays) { for (std::uint64_t r = 0; r < reps(60); ++r) { std::size_t n = rng().below(9); W w; sprout::valarray<int, 9> v(n); fill(v, w); both("valarray", v, w); writes("valarray", v, w); } }
#endif
#if MON_PART(2)
// views of a part of a container, and what is inside
MON_TEST(subs) { for (std::uint64_t r = 0; r < reps(150); ++r) { sprout::array<int, 9> a; W w; fill(a, w); int f = (int)rng().below(10), l = f + (int)rng().below(10 - f); W s(w.begin() + f, w.begin() + l); auto x = sprout::sub(a, f, l); typedef decltype(x) X; both("sub_array", x, s); writes("sub_array", x, s); MON_CASE(c, "sub_array parts", w, f, l); x = sprout::sub(a, f, l); s = take(x.begin(), x.end()); c.eq(take(sprout::internal_begin(x), sprout::internal_end(x)), take(sprout::get_internal(x).begin(), sprout::get_internal(x).end()), "internal"); c.ok((long)sprout::internal_size(x) == 9 && sprout::internal_begin_offset(x) == f && sprout::internal_end_offset(x) == l && sprout::internal_begin_offset_backward(x) == 9 - f && sprout::internal_end_offset_backward(x) == 9 - l, "offsets"); auto in = sprout::get_internal(x); c.eq(take(in.begin() + f, in.begin() + l), s, "internal at the offsets"); c.ok(sprout::containers::is_sub_container<X>::value && !sprout::containers::is_sub_container<sprout::array<int, 9> >::value && sprout::containers::static_size<X>::value == 9, "sub container"); c.ok(sprout::internal_begin_offset(a) == 0 && sprout::internal_end_offset(a) == 9 && sprout::internal_end_offset_backward(a) == 0 && sprout::internal_begin_offset_backward(a) == 9, "offsets of a whole container");
	sprout::sub_array<sprout::array<int, 9>&> y(a, f, l); W now = take(a.begin() + f, a.begin() + l); both("sub_array of a reference", y, now); if (l > f) { y[0] = 1234; c.ok(a[f] == 1234, "writes through"); } auto yy = sprout::sub(y, 0, (l - f) / 2); c.eq(take(yy.begin(), yy.end()), take(a.begin() + f, a.begin() + f + (l - f) / 2), "sub of sub"); count("views", 2); } }
MON_TEST(ranges) { for (std::uint64_t r = 0; r < reps(100); ++r) { std::vector<int> v(rng().below(9)); W w; fill(v, w); sprout::range::range_container<std::vector<int>::iterator> rc(v.begin(), v.end()); both("range_container", rc, w); auto pr = sprout::range::make_ptr_range(v.data(), (std::ptrdiff_t)v.size()); both("ptr_range", pr, w); sprout::container_holder<std::vector<int> > h(v); both("container_holder", h, w); MON_CASE(c, "range_container parts", w); if (!w.empty()) { rc[0] = 777; c.ok(v[0] == 777 && rc.front() == 777 && h[0] == 777 && pr[0] == 777 && &h.front() == &v[0], "write through"); } } }
// building containers of the same kind
template<class Cs, class R> void same(Cs& c, R const& r, W w, char const* what) { W g = take(sprout::begin(r), sprout::end(r)); c.eq(g, w, what); }
MON_TEST(build) { for (std::uint64_t r = 0; r < reps(60); ++r) { int x = (int)rng().range(1, 99), y = (int)rng().range(1, 99), z = (int)rng().range(1, 99); MON_CASE(c, "make and remake", x, y, z); typedef sprout::array<int, 3> A; W w{x, y, z}; same(c, sprout::make<A>(x, y, z), w, "make array"); A a = {{9, 9, 9}}; same(c, sprout::remake<A>(a, 3, x, y, z), w, "remake array"); same(c, sprout::make<std::array<int, 3> >(x, y, z), w, "make std::array"); typedef sprout::basic_string<char, 3> S; S s = sprout::make<S>((char)x, (char)y, (char)z); same(c, s, w, "make string"); same(c, sprout::remake<S>(s, 2, (char)x, (char)y, (char)z), W{x, y}, "remake string"); same(c, sprout::make<sprout::valarray<int, 3> >(x, y, z), w, "make valarray"); typedef sprout::sub_array<A> SA; auto sa = sprout::sub(a, 1, 3); same(c, sprout::remake<SA>(sa, 2, x, y, z), W{y, z}, "remake sub_array"); auto q = sprout::make<sprout::math::quaternion<int> >(x, y, z, 4); same(c, q, W{x, y, z, 4}, "make quaternion"); auto cz = sprout::make<sprout::complex<int> >(x, y); same(c, cz, W{x, y}, "make complex"); same(c, sprout::deep_copy(sa), W{9, 9}, "deep_copy"); c.ok(std::is_same<typename sprout::container_transform_traits<A>::template rebind_size<5>::type, sprout::array<int, 5> >::value && std::is_same<typename sprout::container_transform_traits<A>::template rebind_type<char>::type, sprout::array<char, 3> >::value && std::is_same<typename sprout::container_transform_traits<S>::template rebind_size<5>::type, sprout::basic_string<char, 5> >::value && std::is_same<typename sprout::container_transform_traits<int[4]>::template rebind_size<5>::type, sprout::array<int, 5> >::value == false, "rebind"); } }
#endif
#if MON_PART(3)
// containers that repeat one value, and adapted containers of std and boost
template<class P, class Q> void cmp(char const* nm, P const& p, Q x, P const& q, Q y) { MON_CASE(c, std::string("compare ") + nm, x, y); c.ok((p == q) == (x == y) && (p != q) == (x != y) && (p < q) == (x < y) && (p > q) == (x > y) && (p <= q) == (x <= y) && (p >= q) == (x >= y), "order"); if (x == y) c.ok(sprout::to_hash(p) == sprout::to_hash(q), "equal values have equal hashes"); }
template<std::size_t N> void pits() { typedef sprout::pit<sprout::array<int, N> > P; typedef sprout::sized_pit<sprout::array<int, N> > S; for (std::uint64_t r = 0; r < reps(40); ++r) { int x = (int)rng().range(0, 5), y = (int)rng().range(0, 5); W w(N, x); P p(x), q(y); both("pit", p, w); own("pit", p, w); cmp("pit", p, x, q, y); { MON_CASE(c, "pit assignment", x, y); q = p; c.eq(take(q.begin(), q.end()), w, "="); q = y; c.eq(take(q.begin(), q.end()), W(N, y), "= value"); p.swap(q); c.ok(p.front() == y && q.front() == x, "swap"); using std::swap; sprout::swap(p, q); c.ok(p.front() == x && q.front() == y, "free swap"); p[N - 1] = 8; c.eq(take(p.begin(), p.end()), W(N, 8), "write"); P d; c.eq(take(d.begin(), d.end()), W(N, 0), "default"); c.ok(sprout::tuples::get<0>(p) == 8 && sprout::tuples::tuple_size<P>::value == N, "tuple"); }
	std::size_t n = rng().below(N + 1), m = rng().below(N + 1); S s(n, x), t(m, y); W ws(n, x); both("sized_pit", s, ws); own("sized_pit", s, ws); cmp("sized_pit", s, W(n, x), t, W(m, y)); MON_CASE(c, "sized_pit assignment", n, x, m, y); s.swap(t); c.eq(take(t.begin(), t.end()), ws, "swap"); c.eq(take(s.begin(), s.end()), W(m, y), "swap"); s = t; c.eq(take(s.begin(), s.end()), ws, "="); s = 7; c.eq(take(s.begin(), s.end()), W(n, 7), "= value"); S d; c.ok(d.size() == 0 && d.empty() && S(n).size() == n, "default"); count("pits", 2); } }
MON_TEST(pits) { pits<1>(); pits<3>(); pits<8>(); }
template<std::size_t N> void boosts() { for (std::uint64_t r = 0; r < reps(30); ++r) { W w; boost::array<int, N> a; fill(a, w); both("boost::array", a, w); owndata("boost::array", a, w); writes("boost::array", a, w); } sz<boost::array<int, N> >("boost::array", N); }
MON_TEST(boosts) { boosts<1>(); boosts<4>(); boosts<7>(); }
MON_TEST(stdcomplex) { for (std::uint64_t r = 0; r < reps(50); ++r) { std::complex<double> z((double)rng().range(0, 99), (double)rng().range(0, 99)); W w{(long)z.real(), (long)z.imag()}; both("std::complex", z, w); } sz<std::complex<double> >("std::complex", 2); }
struct Base { int v; virtual ~Base() {} }; struct Der : Base {};
MON_TEST(exempt) { for (std::uint64_t r = 0; r < reps(100); ++r) { int a[6]; for (int& x : a) x = (int)rng().range(0, 999); int i = (int)rng().below(6), j = (int)rng().below(6); MON_CASE(c, "exempt_ptr", i, j); typedef sprout::exempt_ptr<int> P; P p(a + i), q(a + j), z, n(nullptr); c.ok(p.get() == a + i && *p == a[i] && p.operator->() == a + i && (bool)p && !(bool)z && !(bool)n && z.get() == nullptr, "access"); c.ok((p == q) == (i == j) && (p != q) == (i != j) && (p < q) == (i < j) && (p > q) == (i > j) && (p <= q) == (i <= j) && (p >= q) == (i >= j), "order"); c.ok(p != nullptr && !(p == nullptr) && nullptr != p && z == nullptr && nullptr == z, "null"); c.ok((p + (j - i)).get() == a + j && (p - (i - j)).get() == a + j && p[j - i] == a[j], "arithmetic"); P s = p; if (i < 5) { ++s; c.ok(s.get() == a + i + 1, "++"); --s; c.ok(s++.get() == a + i && s.get() == a + i + 1 && s--.get() == a + i + 1 && s.get() == a + i, "post"); } s.swap(q); c.ok(s.get() == a + j && q.get() == a + i, "swap"); swap(s, q); c.ok(s.get() == a + i && q.get() == a + j, "free swap"); c.ok(s.release() == a + i && !s, "release"); s.reset(a + j); c.ok(s.get() == a + j, "reset"); s = a + i; c.ok(s.get() == a + i, "= pointer"); s = nullptr; c.ok(!s, "= nullptr"); sprout::exempt_ptr<int const> k(p); c.ok(k.get() == a + i, "to const"); k = q; c.ok(k.get() == a + j, "= to const"); c.ok(sprout::make_exempt(a + i).get() == a + i && sprout::make_observer(a + i).get() == a + i, "make"); c.ok(sprout::get_pointer(p) == a + i && sprout::get_pointer(a + i) == a + i && sprout::to_hash(p) == sprout::to_hash(sprout::make_exempt(a + i)), "get_pointer and hash"); Der d; Base* b = &d; c.ok(sprout::static_pointer_cast<Der>(b) == &d && sprout::dynamic_pointer_cast<Der>(b) == &d && sprout::const_pointer_cast<int>((int const*)a) == a, "casts"); c.ok(sprout::addressof(a[i]) == a + i, "addressof"); } }
#endif
