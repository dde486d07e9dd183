// Range sources for algorithm monitors: one per (iterator category, literal or not) plus raw pointers.
#ifndef SRC_HPP
#define SRC_HPP
#include <mon.hpp>
namespace mon {
	template<class T> struct Ptr { // raw pointers into an exact-size heap block (ASan red zones)
		Buf<T> buf; template<class C> explicit Ptr(C const& c) : buf(c) {}
		T const* cb() const { return buf.p; } T const* ce() const { return buf.p + buf.n; } T* mb() const { return buf.p; } T* me() const { return buf.p + buf.n; }
		T const* cat(std::size_t i) const { return buf.p + i; } T* mat(std::size_t i) const { return buf.p + i; }
		std::ptrdiff_t off(T const* i) const { return i - buf.p; }
		static std::string name() { return "ptr"; }
	};
	template<class Cat, class T, class L = Lit> struct Src : Rg<Cat, T, L> { template<class C> explicit Src(C const& c) : Rg<Cat, T, L>(c) {}
		static std::string name() { return std::string(cname<Cat>()) + (std::is_same<L, Lit>::value ? "" : "-nl"); } };
	// workload of int sequences: exhaustive over {0..k-1}^n for n<=nmax, then nrand random ones of length <= mx
	template<class F> void workload(int nmax, int k, std::uint64_t nrand, std::size_t mx, F f) {
		for (int n = 0; n <= nmax; ++n) all_seqs(n, k, f);
		for (std::uint64_t i = 0; i < nrand; ++i) { int hi = (int)rng().range(0, 5); if (rng().coin(1, 4)) hi = 1000; f(rand_seq(rand_len(mx), 0, hi)); }
	}
	// comparators and predicates with state, so that a dropped functor is noticed
	struct ByMod { int m; explicit ByMod(int m_) : m(m_) {} template<class T> bool operator()(T const& a, T const& b) const { return a % m < b % m; } };
	struct EqMod { int m; explicit EqMod(int m_) : m(m_) {} template<class T, class U> bool operator()(T const& a, U const& b) const { return a % m == b % m; } };
	struct Desc { int pad; explicit Desc(int) : pad(1) {} template<class T, class U> bool operator()(T const& a, U const& b) const { return b < a; } };
	struct Geq { int k; explicit Geq(int k_) : k(k_) {} template<class T> bool operator()(T const& a) const { return !(a < k); } };
	struct Is { int k; explicit Is(int k_) : k(k_) {} template<class T> bool operator()(T const& a) const { return a == k; } };
	struct Less { template<class T, class U> bool operator()(T const& a, U const& b) const { return a < b; } };
}
#define MON_ALL_SRC(F, T) F<mon::Src<mon::In, T>>(); F<mon::Src<mon::In, T, mon::NonLit>>(); F<mon::Src<mon::Fw, T>>(); F<mon::Src<mon::Fw, T, mon::NonLit>>(); F<mon::Src<mon::Bi, T>>(); F<mon::Src<mon::Ra, T>>(); F<mon::Src<mon::Ra, T, mon::NonLit>>(); F<mon::Ptr<T>>();
#define MON_SRC_TESTS_FW(F, T) \
	MON_TEST(F##_fw) { F<mon::Src<mon::Fw, T>>(); } MON_TEST(F##_fwnl) { F<mon::Src<mon::Fw, T, mon::NonLit>>(); } MON_TEST(F##_bi) { F<mon::Src<mon::Bi, T>>(); } \
	MON_TEST(F##_ra) { F<mon::Src<mon::Ra, T>>(); } MON_TEST(F##_ranl) { F<mon::Src<mon::Ra, T, mon::NonLit>>(); } MON_TEST(F##_ptr) { F<mon::Ptr<T>>(); }
#define MON_SRC_TESTS(F, T) MON_TEST(F##_in) { F<mon::Src<mon::In, T>>(); } MON_TEST(F##_innl) { F<mon::Src<mon::In, T, mon::NonLit>>(); } MON_SRC_TESTS_FW(F, T)
#define MON_SRC_TESTS_BI(F, T) MON_TEST(F##_bi) { F<mon::Src<mon::Bi, T>>(); } MON_TEST(F##_ra) { F<mon::Src<mon::Ra, T>>(); } MON_TEST(F##_ranl) { F<mon::Src<mon::Ra, T, mon::NonLit>>(); } MON_TEST(F##_ptr) { F<mon::Ptr<T>>(); }
#define MON_SRC_TESTS_RA(F, T) MON_TEST(F##_ra) { F<mon::Src<mon::Ra, T>>(); } MON_TEST(F##_ranl) { F<mon::Src<mon::Ra, T, mon::NonLit>>(); } MON_TEST(F##_ptr) { F<mon::Ptr<T>>(); }
#endif
