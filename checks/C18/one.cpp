// C18: adaptors over one base range.
#include "laws.hpp"
#include <sprout/iterator/various.hpp>
#include <sprout/iterator/adaptor.hpp>
#include <sprout/iterator/clamp_iterator.hpp>
#include <sprout/iterator/to_lower_iterator.hpp>
#include <sprout/iterator/to_upper_iterator.hpp>
#include <sprout/iterator/move_iterator.hpp>
#include <sprout/iterator/const_iterator_cast.hpp>
#include <sprout/iterator/const_reference_cast.hpp>
template<class F> V mp(V const& v, F f) { V r; for (int x : v) r.push_back(f(x)); return r; }
template<class F> V fl(V const& v, F f) { V r; for (int x : v) if (f(x)) r.push_back(x); return r; }
struct Aff { int a; explicit Aff(int x) : a(x) {} Aff() : a(0) {} typedef int result_type; int operator()(int x) const { return x * 3 + a; } };
struct GeqD : Geq { GeqD() : Geq(0) {} explicit GeqD(int k) : Geq(k) {} };
struct AdjD { int m; AdjD(int k = 2) : m(k) {} bool operator()(int a, int b) const { return a % m != b % m; } };
struct EqModD { int m; EqModD(int k = 2) : m(k) {} bool operator()(int a, int b) const { return a % m == b % m; } };
template<class F> void wl(F f) { workload(4, 3, reps(60), 12, f); }
#if MON_PART(0)
template<class S> void xform() { wl([](V const& v) { S s(v); Aff g(7); LAWS("transform", sprout::make_transform_iterator(s.cb(), g), sprout::make_transform_iterator(s.ce(), g), mp(v, g)); GeqD p(2); LAWS("replace_if", sprout::make_replace_if_iterator(s.cb(), p, 9), sprout::make_replace_if_iterator(s.ce(), p, 9), mp(v, [=](int x) { return x >= 2 ? 9 : x; })); LAWS("replace", sprout::make_replace_iterator(s.cb(), 1, 9), sprout::make_replace_iterator(s.ce(), 1, 9), mp(v, [](int x) { return x == 1 ? 9 : x; })); }); }
MON_SRC_TESTS_FW(xform, int)
template<class S> void filt() { wl([](V const& v) { S s(v); GeqD p(1); LAWS("filter", sprout::make_filter_iterator(p, s.cb(), s.ce()), sprout::make_filter_iterator(p, s.ce(), s.ce()), fl(v, p)); LAWS("remove_if", sprout::make_remove_if_iterator(p, s.cb(), s.ce()), sprout::make_remove_if_iterator(p, s.ce(), s.ce()), fl(v, [=](int x) { return x < 1; })); LAWS("remove", sprout::make_remove_iterator(1, s.cb(), s.ce()), sprout::make_remove_iterator(1, s.ce(), s.ce()), fl(v, [](int x) { return x != 1; })); }); }
MON_SRC_TESTS_FW(filt, int)
#endif
#if MON_PART(1)
template<class S> void adj() { wl([](V const& v) { S s(v); AdjD p(3); V x; for (std::size_t i = 0; i < v.size(); ++i) if (!i || p(v[i - 1], v[i])) x.push_back(v[i]); LAWS("adjacent_filter", sprout::make_adjacent_filter_iterator(p, s.cb(), s.ce()), sprout::make_adjacent_filter_iterator(p, s.ce(), s.ce()), x); V u = v; u.erase(std::unique(u.begin(), u.end()), u.end()); LAWS("unique", sprout::make_unique_iterator(s.cb(), s.ce()), sprout::make_unique_iterator(s.ce(), s.ce()), u); EqModD q(2); V w; for (std::size_t i = 0; i < v.size(); ++i) if (!i || !q(v[i - 1], v[i])) w.push_back(v[i]); LAWS("unique pred", sprout::make_unique_iterator(q, s.cb(), s.ce()), sprout::make_unique_iterator(q, s.ce(), s.ce()), w); }); }
MON_SRC_TESTS_FW(adj, int)
template<class S> void whl() { wl([](V const& v) { S s(v); GeqD p(1); V x; for (int e : v) { if (!p(e)) break; x.push_back(e); } auto f = sprout::make_while_iterator(p, s.cb(), s.ce()); auto l = sprout::make_while_iterator(p, s.ce(), s.ce()); { MON_CASE(c, "while/" + S::name(), v); laws(c, f, l, x, Cap(false)); } }); }
MON_SRC_TESTS_FW(whl, int)
template<class S> void clampi() { wl([](V const& v) { S s(v); LAWS("clamp", sprout::make_clamp_iterator(s.cb(), 1, 2), sprout::make_clamp_iterator(s.ce(), 1, 2), mp(v, [](int x) { return x < 1 ? 1 : x > 2 ? 2 : x; })); Desc d(0); (void)d; LAWS("clamp comp", sprout::make_clamp_iterator(s.cb(), 3, 1, std::greater<int>()), sprout::make_clamp_iterator(s.ce(), 3, 1, std::greater<int>()), mp(v, [](int x) { return x > 3 ? 3 : x < 1 ? 1 : x; })); }); }
MON_SRC_TESTS_FW(clampi, int)
#endif
#if MON_PART(2)
template<class S> void idx() { wl([](V const& v) { S s(v); int base = (int)rng().below(5); V ix; for (std::size_t i = 0; i < v.size(); ++i) ix.push_back((int)i + base); auto f = sprout::make_indexed_iterator(s.cb(), base); auto l = sprout::make_indexed_iterator(s.ce(), base + (int)v.size()); LAWS("indexed", f, l, v, base); if (!v.empty()) { MON_CASE(c, "indexed index/" + S::name(), v, base); auto i = f; std::size_t k = 0; for (; i != l; ++i, ++k) c.ok((std::size_t)i.index() == k + base, "index"); c.ok((std::size_t)i.index() == k + base, "index at the end"); c.ok((std::size_t)sprout::next(f).index() == 1u + base, "index of next"); } LAWS("valued", sprout::make_valued_iterator(s.cb(), 5), sprout::make_valued_iterator(s.ce(), 5), v); { MON_CASE(c, "valued value/" + S::name(), v); auto i = sprout::make_valued_iterator(s.cb(), 5); auto e = sprout::make_valued_iterator(s.ce(), 5); for (; i != e; ++i) c.ok(i.get() == 5, "get"); } }); }
MON_SRC_TESTS_FW(idx, int)
template<class S> void mov() { wl([](V const& v) { S s(v); LAWS("move", sprout::make_move_iterator(s.mb()), sprout::make_move_iterator(s.me()), v); }); }
MON_SRC_TESTS_FW(mov, int)
template<class S> void rev() { wl([](V const& v) { S s(v); LAWS("reverse", sprout::make_reverse_iterator(s.ce()), sprout::make_reverse_iterator(s.cb()), V(v.rbegin(), v.rend())); }); }
MON_SRC_TESTS_BI(rev, int)
MON_TEST(moves) { typedef std::string T; for (int n = 0; n < 6; ++n) { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back("a string long enough " + std::to_string(i)); MON_CASE(c, "move elements", n); std::vector<T> a = v, out; for (auto i = sprout::make_move_iterator(a.begin()), e = sprout::make_move_iterator(a.end()); i != e; ++i) out.push_back(*i); c.ok(out == v, "moved values"); for (auto& x : a) c.ok(x.empty(), "the source is moved from"); } }
template<class S> void bytes() { workload(3, 3, reps(40), 7, [](V const& b) { std::vector<std::uint32_t> v; for (int x : b) v.push_back((std::uint32_t)(x * 0x9e3779b9u + 0x01020304u)); S s(v); std::vector<unsigned char> le, be; for (auto x : v) { for (int k = 0; k < 4; ++k) le.push_back((unsigned char)(x >> (8 * k))); for (int k = 3; k >= 0; --k) be.push_back((unsigned char)(x >> (8 * k))); } LAWS("bytes", sprout::make_bytes_iterator(s.cb(), sprout::little_endian_traits<std::uint32_t>()), sprout::make_bytes_iterator(s.ce(), sprout::little_endian_traits<std::uint32_t>()), le); LAWS("bytes big", sprout::make_bytes_iterator(s.cb(), sprout::big_endian_traits<std::uint32_t>()), sprout::make_bytes_iterator(s.ce(), sprout::big_endian_traits<std::uint32_t>()), be); }); }
MON_SRC_TESTS_FW(bytes, std::uint32_t)
#endif
#if MON_PART(3)
template<class S> void step() { wl([](V const& v) { for (int w = 1; w <= 4; ++w) { S s(v); V x; for (std::size_t i = 0; i < v.size(); i += w) x.push_back(v[i]); typedef decltype(s.cb()) B; typedef sprout::step_iterator<B> I; I f(s.cb(), w, s.ce()), l(s.ce(), w, s.ce()); { MON_CASE(c, "step to a constructed end/" + S::name(), v, w); laws(c, f, l, x, Cap(false)); } I e = f; for (std::size_t k = 0; k < x.size(); ++k) ++e; LAWS("step to the reached end", f, e, x, w); } }); }
MON_SRC_TESTS_FW(step, int)
MON_TEST(enumed) { struct S { static std::string name() { return "ptr"; } }; for (std::uint64_t r = 0; r < reps(150); ++r) { std::vector<std::string> ss; V v; std::size_t n = rng().below(6); for (std::size_t i = 0; i < n; ++i) { ss.push_back(std::string(rng().below(9), 'x')); v.push_back((int)ss.back().size()); } Buf<std::string> b(ss); std::string const* p = b.p; LAWS("size_enum", sprout::make_size_enum_iterator(p), sprout::make_size_enum_iterator(p + n), v); V w; for (int x : v) { w.push_back(x); w.push_back(2); } LAWS("size_enum separated", sprout::make_size_enum_iterator(p, 2), sprout::make_size_enum_iterator(p + n, 2), w); } }
template<class S> void lower() { for (std::uint64_t r = 0; r < reps(100); ++r) { std::string t; std::size_t n = rng().below(8); for (std::size_t i = 0; i < n; ++i) t += (char)rng().range(32, 126); std::vector<char> v(t.begin(), t.end()), lo, up; for (char ch : t) { lo.push_back((char)std::tolower(ch)); up.push_back((char)std::toupper(ch)); } S s(v); LAWS("to_lower", sprout::make_to_lower_iterator(s.cb()), sprout::make_to_lower_iterator(s.ce()), lo); LAWS("to_upper", sprout::make_to_upper_iterator(s.cb()), sprout::make_to_upper_iterator(s.ce()), up); } }
MON_SRC_TESTS_FW(lower, char)
struct Sx { static std::string name() { return "value"; } }; 
MON_TEST(gens) { typedef Sx S; for (int a = -3; a < 4; ++a) for (int n = 0; n < 7; ++n) { V v; for (int i = 0; i < n; ++i) v.push_back(a + i); LAWS("counting", sprout::make_counting_iterator(a), sprout::make_counting_iterator(a + n), v); V k(n, a); LAWS("value", sprout::value_iterator<int>(a, n), sprout::value_iterator<int>(a, 0), k); int const obj = a; LAWS("value ref", sprout::value_iterator<int const&>(obj, n), sprout::value_iterator<int const&>(obj, 0), k); { Buf<int> b(v); LAWS("ptr_index", sprout::make_ptr_index_iterator((int const*)b.p), sprout::make_ptr_index_iterator((int const*)b.p, n), v); } if (n == 4) { sprout::array<int, 4> ar = arr<int, 4>(v); sprout::array<int, 4> const& ca = ar; LAWS("index", ca.begin(), ca.end(), v); LAWS("index mutable", ar.begin(), ar.end(), v); LAWS("index explicit", (sprout::index_iterator<sprout::array<int, 4> const&>(ca, 0)), (sprout::index_iterator<sprout::array<int, 4> const&>(ca, 4)), v); } }
	{ std::vector<unsigned> u; for (unsigned i = 0; i < 4; ++i) u.push_back(7u + i); V v; LAWS("counting unsigned", sprout::make_counting_iterator(7u), sprout::make_counting_iterator(11u), u); } for (long a : {-5L, 0L, 3L}) { std::vector<long> v; for (int i = 0; i < 4; ++i) v.push_back(a + i); LAWS("counting long", sprout::make_counting_iterator(a), sprout::make_counting_iterator(a + 4), v); } Buf<int> b(V{1, 2, 3, 4}); typedef sprout::counting_iterator<int*> P; V v; { std::vector<int*> x; for (int i = 0; i < 4; ++i) x.push_back(b.p + i); LAWS("counting pointers", P(b.p), P(b.p + 4), x); } }
#endif
