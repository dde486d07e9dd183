#pragma once
#include "mon.hpp"
#include <sprout/index_tuple.hpp>
#include <sprout/index_tuple/literals.hpp>
#include <sprout/type.hpp>
#include <sprout/type/seq/algorithm.hpp>
#include <sprout/type/uniform_types.hpp>
#include <sprout/type/joint_types.hpp>
#include <sprout/tpp/algorithm.hpp>
#include <sprout/tuple.hpp>
#include <sprout/tuple/indexes.hpp>
#include <tuple>
#include <vector>
using namespace mon;
typedef std::vector<long long> V;
template<int N> struct K : sprout::integral_constant<int, N> {};            // a type with an identity (and a value)
template<int N> struct O { typedef O type; };                                // a type without a value
// observation of a list: the identities of its elements, read off the type itself (not through the library)
template<class T> struct Id { static long long f() { return (long long)T::value; } }; template<int N> struct Id<O<N> > { static long long f() { return 1000 + N; } }; template<> struct Id<int> { static long long f() { return 2001; } }; template<> struct Id<char> { static long long f() { return 2002; } }; template<> struct Id<void> { static long long f() { return 2003; } };
template<class L> struct Ls; template<template<class...> class C, class... T> struct Ls<C<T...> > { static V f() { return V{ Id<T>::f()... }; } }; template<template<class T, T...> class C, class T, T... v> struct Ls<C<T, v...> > { static V f() { return V{ (long long)v... }; } };
template<class L> struct Ls<L const> : Ls<L> {}; template<class T, std::size_t N> struct Ls<sprout::types::uniform_types<T, N> > { static V f() { return V(N, Id<T>::f()); } };
#if !SPROUT_USE_TEMPLATE_ALIASES
template<sprout::index_t... v> struct Ls<sprout::index_tuple<v...> > { static V f() { return V{ (long long)v... }; } };
#endif
template<class L> V ls() { return Ls<L>::f(); }
template<class A, class B> struct SameTpl : std::false_type {}; template<template<class...> class C, class... A, class... B> struct SameTpl<C<A...>, C<B...> > : std::true_type {}; template<template<class T, T...> class C, class T, T... a, T... b> struct SameTpl<C<T, a...>, C<T, b...> > : std::true_type {};
struct Even { template<class T> struct apply : sprout::bool_constant<(T::value % 2 == 0)> {}; }; struct Neg { template<class T> struct apply : sprout::bool_constant<(T::value < 0)> {}; };
struct Poly7 { template<class A, class B> struct apply { typedef sprout::integral_constant<long long, (A::value * 7 + B::value) % 10007> type; }; };  // not associative, not commutative
struct Dbl { template<class T> struct apply { typedef sprout::integral_constant<int, 2 * (int)T::value + 1> type; }; }; struct Mix { template<class A, class B> struct apply { typedef sprout::integral_constant<int, ((int)A::value * 3 - (int)B::value) % 100> type; }; };
template<class E> struct IsK2 { static bool f(long long v) { return v % 2 == 0; } };
template<class L, int I, int N> struct At { static void f(V& v) { v.push_back(Id<typename sprout::types::tuple_element<I, L>::type>::f()); At<L, I + 1, N>::f(v); } }; template<class L, int N> struct At<L, N, N> { static void f(V&) {} };
template<int N, class F, class E> struct Walk { static void f(V& v) { v.push_back(Id<typename sprout::types::deref<F>::type>::f()); Walk<N - 1, typename sprout::types::next<F>::type, E>::f(v); } }; template<class F, class E> struct Walk<0, F, E> { static void f(V& v) { if (!std::is_same<F, E>::value) v.push_back(-99999); } };
inline std::string str(V const& v) { std::string s; for (long long x : v) s += std::to_string(x) + ","; return s; }
// operations on any list of types
template<class L, class X, class... In> void any(std::string const& n, V const& in, V const& ins) { MON_CASE(c, n, str(in), Id<X>::f(), str(ins)); long long x = Id<X>::f(); long N = (long)in.size();
	c.eq(str(ls<L>()), str(in), "the list itself"); c.eq((long)sprout::types::tuple_size<L>::value, N, "tuple_size"); c.eq((long)sprout::types::size<L>::value, N, "size"); c.eq((bool)sprout::types::empty<L>::value, N == 0, "empty"); V g; At<L, 0, (int)sprout::types::tuple_size<L>::value>::f(g); c.eq(str(g), str(in), "tuple_element");
	long cnt = (long)std::count(in.begin(), in.end(), x); long fi = (long)(std::find(in.begin(), in.end(), x) - in.begin()); c.eq((long)sprout::types::count<L, X>::value, cnt, "count"); c.eq((long)sprout::types::find_index<L, X>::value, fi, "find_index"); c.eq((bool)sprout::types::find_index<L, X>::is_found::value, cnt > 0, "find_index is_found"); c.eq((bool)sprout::types::contains<L, X>::value, cnt > 0, "contains"); c.eq((bool)sprout::types::all_of_same<L, X>::value, cnt == N, "all_of_same"); c.eq((bool)sprout::types::any_of_same<L, X>::value, cnt > 0, "any_of_same"); c.eq((bool)sprout::types::none_of_same<L, X>::value, cnt == 0, "none_of_same"); c.eq((bool)sprout::types::one_of_same<L, X>::value, cnt == 1, "one_of_same"); }
template<class L> void shape(std::string const& n, V const& in) { MON_CASE(c, n, "shape", str(in)); typedef typename sprout::types::pop_front<L>::type PF; typedef typename sprout::types::pop_back<L>::type PB; c.eq(str(ls<PF>()), str(V(in.begin() + 1, in.end())), "pop_front"); c.ok((SameTpl<PF, L>::value), "pop_front keeps the template"); c.eq(str(ls<PB>()), str(V(in.begin(), in.end() - 1)), "pop_back"); c.ok((SameTpl<PB, L>::value), "pop_back keeps the template"); c.eq(Id<typename sprout::types::front<L>::type>::f(), in.front(), "front"); c.eq(Id<typename sprout::types::back<L>::type>::f(), in.back(), "back"); }
template<class L, class... T> void grow(std::string const& n, V const& in, V const& ts) { MON_CASE(c, n, "grow", str(in), str(ts)); V b = in; b.insert(b.end(), ts.begin(), ts.end()); V f = ts; f.insert(f.end(), in.begin(), in.end()); typedef typename sprout::types::push_back<L, T...>::type PB; typedef typename sprout::types::push_front<L, T...>::type PF; typedef typename sprout::types::rebind<L, T...>::type RB; c.eq(str(ls<PB>()), str(b), "push_back"); c.ok((SameTpl<PB, L>::value), "push_back keeps the template"); c.eq(str(ls<PF>()), str(f), "push_front"); c.ok((SameTpl<PF, L>::value), "push_front keeps the template"); c.eq(str(ls<RB>()), str(ts), "rebind"); c.ok((SameTpl<RB, L>::value), "rebind keeps the template"); }
template<class L, class A, class B> void joined(std::string const& n, V const& in, V const& a, V const& b) { MON_CASE(c, n, "joined", str(in), str(a), str(b)); V all = in; all.insert(all.end(), a.begin(), a.end()); V la = all; all.insert(all.end(), b.begin(), b.end()); V fr = a; fr.insert(fr.end(), b.begin(), b.end()); fr.insert(fr.end(), in.begin(), in.end());
	typedef typename sprout::types::append_back<L, A, B>::type AB; typedef typename sprout::types::append_front<L, A, B>::type AF; c.eq(str(ls<AB>()), str(all), "append_back"); c.eq(str(ls<AF>()), str(fr), "append_front"); c.ok((SameTpl<AB, L>::value && SameTpl<AF, L>::value), "append keeps the template"); c.eq(str(ls<typename sprout::types::tuple_cat<L, A, B>::type>()), str(all), "tuple_cat"); V five = all; five.insert(five.end(), a.begin(), a.end()); five.insert(five.end(), in.begin(), in.end()); c.eq(str(ls<typename sprout::types::tuple_cat<L, A, B, A, L>::type>()), str(five), "tuple_cat of five"); c.eq(str(ls<typename sprout::types::tuple_cat<L>::type>()), str(in), "tuple_cat of one"); c.eq(str(ls<typename sprout::types::apply<sprout::types::joint_types<L>, A>::type>()), str(la), "joint_types"); typedef typename sprout::types::assign<L, A>::type AS; c.eq(str(ls<AS>()), str(a), "assign"); c.ok((SameTpl<AS, L>::value), "assign keeps the template"); }
// operations on lists of constants
template<class L, int Init> void values(std::string const& n, V const& in) { MON_CASE(c, n, "values", str(in)); long N = (long)in.size(); auto ev = [](long long v) { return v % 2 == 0; }; auto ng = [](long long v) { return v < 0; }; long ce = (long)std::count_if(in.begin(), in.end(), ev), cn = (long)std::count_if(in.begin(), in.end(), ng);
#define PR(P, k, f) c.eq((long)sprout::types::count_if<L, P>::value, k, "count_if " #P); c.eq((bool)sprout::types::all_of<L, P>::value, k == N, "all_of " #P); c.eq((bool)sprout::types::any_of<L, P>::value, k > 0, "any_of " #P); c.eq((bool)sprout::types::none_of<L, P>::value, k == 0, "none_of " #P); c.eq((bool)sprout::types::one_of<L, P>::value, k == 1, "one_of " #P); c.eq((bool)sprout::types::contains_if<L, P>::value, k > 0, "contains_if " #P); c.eq((long)sprout::types::find_index_if<L, P>::value, (long)(std::find_if(in.begin(), in.end(), f) - in.begin()), "find_index_if " #P); c.eq((bool)sprout::types::find_index_if<L, P>::is_found::value, k > 0, "is_found " #P);
	PR(Even, ce, ev) PR(Neg, cn, ng)
	typedef sprout::integral_constant<int, Init> I; long long s = Init, p = Init; for (long long v : in) { s += v; p = (p * 7 + v) % 10007; } c.eq((long long)sprout::types::accumulate<L, I>::type::value, s, "accumulate"); c.eq((long long)sprout::types::fold<L, I, Poly7>::type::value, p, "fold"); V m, t; for (long long v : in) { m.push_back(2 * v + 1); t.push_back(v * 3 - v); } c.eq(str(ls<typename sprout::types::map<L, Dbl>::type>()), str(m), "map"); c.eq(str(ls<typename sprout::types::transform<L, Dbl>::type>()), str(m), "transform"); c.eq(str(ls<typename sprout::types::transform<L, L, Mix>::type>()), str(t), "transform of two"); V ps; long long a = 0; for (std::size_t i = 0; i < in.size(); ++i) { a += in[i]; ps.push_back(a); } c.eq(str(ls<typename sprout::types::partial_sum<L>::type>()), str(ps), "partial_sum"); V qs; for (std::size_t i = 0; i < in.size(); ++i) qs.push_back(i ? (qs.back() * 3 - in[i]) % 100 : in[i]); c.eq(str(ls<typename sprout::types::partial_sum<L, Mix>::type>()), str(qs), "partial_sum with an operation"); }
template<class L, class X> void sorted(std::string const& n, V const& in) { long long x = Id<X>::f(); MON_CASE(c, n, "sorted", str(in), x); c.eq((long)sprout::types::lower_bound_index<L, X>::value, (long)(std::lower_bound(in.begin(), in.end(), x) - in.begin()), "lower_bound_index"); c.eq((long)sprout::types::upper_bound_index<L, X>::value, (long)(std::upper_bound(in.begin(), in.end(), x) - in.begin()), "upper_bound_index"); }
template<class L, class X, int I, int D> void iter(std::string const& n, V const& in) { long long x = Id<X>::f(); MON_CASE(c, n, "iterators", str(in), x); typedef typename sprout::types::begin<L>::type B; typedef typename sprout::types::end<L>::type E; c.eq((long)sprout::types::distance<B, E>::value, (long)in.size(), "distance"); V g; Walk<(int)sprout::types::tuple_size<L>::value, B, E>::f(g); c.eq(str(g), str(in), "walk"); typedef typename sprout::types::seq::find<L, X>::type F; c.eq((long)sprout::types::distance<B, F>::value, (long)(std::find(in.begin(), in.end(), x) - in.begin()), "seq::find"); typedef typename sprout::types::seq::find_if<L, Even>::type FI; c.eq((long)sprout::types::distance<B, FI>::value, (long)(std::find_if(in.begin(), in.end(), [](long long v) { return v % 2 == 0; }) - in.begin()), "seq::find_if"); typedef typename sprout::types::advance<B, I>::type A; c.eq((long)A::value, (long)I, "advance"); c.ok((std::is_same<typename sprout::types::prev<typename sprout::types::next<A>::type>::type, A>::value), "prev of next"); c.ok((std::is_same<typename sprout::types::advance<A, D - I>::type, typename sprout::types::advance<B, D>::type>::value), "advance backwards and forwards"); }
template<class... T> void extremes(V const& in) { MON_CASE(c, "extremes", str(in)); c.eq((long long)sprout::tpp::max_element<T...>::value, *std::max_element(in.begin(), in.end()), "max_element"); c.eq((long long)sprout::tpp::min_element<T...>::value, *std::min_element(in.begin(), in.end()), "min_element"); c.eq((long long)sprout::tpp::max_element_c<int, T::value...>::value, *std::max_element(in.begin(), in.end()), "max_element_c"); c.eq((long long)sprout::tpp::min_element_c<int, T::value...>::value, *std::min_element(in.begin(), in.end()), "min_element_c"); }
// index ranges
template<class S, class C> void seq(C& c, V const& want, std::string const& w) { c.eq(str(ls<typename S::type>()), str(want), w.c_str()); c.eq((long)S::type::size(), (long)want.size(), (w + " size").c_str()); c.eq((long)S::static_size, (long)want.size(), (w + " static_size").c_str()); c.ok((std::is_same<decltype(S::make()), typename S::type>::value), (w + " make").c_str()); }
inline V steps(long long f, long long l, long long s) { V v; if (s > 0) for (long long x = f; x < l; x += s) v.push_back(x); else for (long long x = f; x > l; x += s) v.push_back(x); return v; }
template<class T, T F, T L, typename std::make_signed<T>::type S> void range(char const* t) { MON_CASE(c, "range", std::string(t), (long long)F, (long long)L, (long long)S); V w = steps((long long)F, (long long)L, (long long)S); seq<sprout::integer_range<T, F, L, S> >(c, w, "integer_range"); seq<sprout::integer_range<T, F, L> >(c, steps((long long)F, (long long)L, F <= L ? 1 : -1), "integer_range with the default step"); c.ok((std::is_same<typename sprout::integer_range<T, F, L, S>::type::value_type, T>::value), "value_type"); }
template<sprout::index_t F, sprout::index_t L, sprout::index_t S> void irange() { MON_CASE(c, "index_range", F, L, S); seq<sprout::index_range<F, L, S> >(c, steps(F, L, S), "index_range"); seq<sprout::index_range<F, L> >(c, steps(F, L, F <= L ? 1 : -1), "index_range with the default step"); }
template<sprout::uindex_t F, sprout::uindex_t L, sprout::index_t S> void urange() { MON_CASE(c, "uindex_range", F, L, S); seq<sprout::uindex_range<F, L, S> >(c, steps((long long)F, (long long)L, S), "uindex_range"); }
template<int N, int I> void upto() { MON_CASE(c, "make", N, I); V w = steps(0, N, 1); seq<sprout::make_index_tuple<N> >(c, w, "make_index_tuple"); seq<sprout::make_uindex_tuple<N> >(c, w, "make_uindex_tuple"); seq<sprout::make_integer_sequence<unsigned char, N> >(c, w, "make_integer_sequence"); seq<sprout::make_index_sequence<N> >(c, w, "make_index_sequence"); V k((std::size_t)N, I); seq<sprout::index_n<I, N> >(c, k, "index_n"); seq<sprout::uindex_n<(sprout::uindex_t)I, N> >(c, k, "uindex_n"); seq<sprout::integer_n<short, I, N> >(c, k, "integer_n"); }
template<class... T> void packs() { MON_CASE(c, "packs", sizeof...(T)); V w = steps(0, (long long)sizeof...(T), 1); seq<sprout::index_pack<T...> >(c, w, "index_pack"); seq<sprout::uindex_pack<T...> >(c, w, "uindex_pack"); seq<sprout::integer_pack<char, T...> >(c, w, "integer_pack"); seq<sprout::index_sequence_for<T...> >(c, w, "index_sequence_for"); seq<sprout::tuple_indexes<sprout::tuples::tuple<T...> > >(c, w, "tuple_indexes"); }
template<int A, int B> void fun() { MON_CASE(c, "functional", A, B); typedef K<A> a; typedef K<B> b;
#define F2(n, op) c.eq((long long)sprout::types::n<a, b>::value, (long long)(A op B), #n); c.eq((long long)sprout::types::apply<sprout::types::n##_, a, b>::type::value, (long long)(A op B), #n "_");
	F2(plus, +) F2(minus, -) F2(multiplies, *) F2(divides, /) F2(modulus, %) F2(less, <) F2(greater, >) F2(less_equal, <=) F2(greater_equal, >=) F2(equal_to, ==) F2(not_equal_to, !=) c.eq((int)sprout::types::negate<a>::value, -A, "negate"); c.eq((int)sprout::types::apply<sprout::types::negate_, a>::type::value, -A, "negate_"); c.eq((int)sprout::types::posite<a>::value, A, "posite"); c.eq((int)sprout::types::apply<sprout::types::quote<sprout::types::plus>, a, b>::type::value, A + B, "quote"); }
