// C19: range algorithms. The range overload must mean exactly what the iterator-pair algorithm means (the iterator forms are judged against std by C01..C07;
// here the most used ones are judged against std as well).
#include <src.hpp>
#include <spr.hpp>
#include <cmath>
#include <numeric>
#include <functional>
#include <complex>
#include <sprout/algorithm.hpp>
#include <sprout/numeric.hpp>
#include <sprout/range/algorithm.hpp>
#include <sprout/range/numeric.hpp>
#include <sprout/range/range_container.hpp>
#include <sprout/array.hpp>
#include <sprout/container.hpp>
using namespace mon; typedef std::vector<int> V;
template<class I> struct R : sprout::range::range_container<I> { R(I b, I e) : sprout::range::range_container<I>(b, e) {} };
template<class I> R<I> mkr(I b, I e) { return R<I>(b, e); }
// normalise results: iterators become element addresses, ranges and pairs become pairs of them
template<class T, class C, class L> void const* nm(It<T, C, L> const& i) { return i.p; } inline void const* nm(int const* p) { return p; } inline void const* nm(int* p) { return p; }
inline long nm(bool b) { return b; } inline long nm(int b) { return b; } inline long nm(long b) { return b; }
template<class A, class B> std::pair<decltype(nm(std::declval<A const&>())), decltype(nm(std::declval<B const&>()))> nm(sprout::pair<A, B> const& p) { return std::make_pair(nm(p.first), nm(p.second)); }
template<class I> std::pair<void const*, void const*> nm(sprout::range::range_container<I> const& r) { return std::make_pair(nm(r.begin()), nm(r.end())); }
inline std::string sh(void const*p) { std::ostringstream o; o << p; return o.str(); }
#define XQ(...) __VA_ARGS__
#define A1 s.cb(), s.ce()
#define A2 t.cb(), t.ce()
typedef mon::Src<mon::Fw, int> SFw; typedef mon::Src<mon::Bi, int> SBi; typedef mon::Src<mon::Ra, int> SRa; typedef mon::Ptr<int> SPt;
