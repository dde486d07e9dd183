// Result containers of the value-returning (fixed / fit) forms, and the monitors that compare them with a model.
#ifndef KINDS_HPP
#define KINDS_HPP
#include <src.hpp>
#include <spr.hpp>
#include <sprout/string.hpp>
#include <sprout/container/std/array.hpp>
namespace mon {
typedef std::vector<int> V; typedef std::vector<std::pair<int, int> > P;
#define OPN(n) (std::string(n) + tag)
// elements: Tag (key and identity) or char
template<class E> struct El; template<> struct El<Tag> { static Tag mk(int k, int i) { return Tag(k, i); } static char const* nm() { return ""; } }; template<> struct El<unsigned> { static unsigned mk(int k, int) { return (unsigned)k; } static char const* nm() { return "uint,"; } }; template<> struct El<char> { static char mk(int k, int) { return (char)('a' + k % 20); } static char const* nm() { return "char,"; } };
inline int key(Tag const& t) { return t.key; } inline int key(char c) { return c - 'a'; } inline int key(unsigned c) { return (int)c; } inline int idt(unsigned) { return 0; } inline int idt(Tag const& t) { return t.id; } inline int idt(char) { return 0; }
template<class C> P dump(C const& c) { P p; for (auto i = sprout::begin(c); i != sprout::end(c); ++i) p.push_back(std::make_pair(key(*i), idt(*i))); return p; }
template<class E> std::vector<E> els(V const& v, int base) { std::vector<E> r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(El<E>::mk(v[i], base + (int)i)); return r; }
// ---- result kinds: the value r, its full internal content, and the window [off, off+len) it shows
template<class E, std::size_t N> struct KArr { typedef E elem; typedef sprout::array<E, N> R; R r; std::vector<E> full; std::size_t off, len; KArr() : full(els<E>(rand_seq(N, 0, 9), 5000)), off(0), len(N) { r = arr<E, N>(full); } static std::string name() { return std::string(El<E>::nm()) + "array<" + std::to_string(N) + ">"; } static P internal(R const& x) { return dump(x); } static std::size_t pitlen() { return N; } enum { sub = 0, cap = N }; };
template<class E, std::size_t N> struct KStd { typedef E elem; typedef std::array<E, N> R; R r; std::vector<E> full; std::size_t off, len; KStd() : full(els<E>(rand_seq(N, 0, 9), 5000)), off(0), len(N) { std::copy(full.begin(), full.end(), r.begin()); } static std::string name() { return std::string(El<E>::nm()) + "std::array<" + std::to_string(N) + ">"; } static P internal(R const& x) { return dump(x); } static std::size_t pitlen() { return N; } enum { sub = 0, cap = N }; };
template<class E, std::size_t N> struct KSub { typedef E elem; typedef sprout::sub_array<sprout::array<E, N> > R; std::vector<E> full; std::size_t off, len; R r; KSub() : full(els<E>(rand_seq(N, 0, 9), 5000)), off(rng().below(N + 1)), len(rng().below(N - off + 1)), r(arr<E, N>(full), off, off + len) {} static std::string name() { return std::string(El<E>::nm()) + "sub_array<" + std::to_string(N) + ">"; } static P internal(R const& x) { return dump(sprout::get_internal(x)); } static std::size_t pitlen() { return N; } enum { sub = 1, cap = N }; };
template<class E, std::size_t N> struct KStr { typedef E elem; typedef sprout::basic_string<E, N> R; std::vector<E> full; std::size_t off, len; R r; KStr() : full(els<E>(rand_seq(rng().below(N + 1), 0, 9), 5000)), off(0), len(full.size()) { r = R(std::basic_string<E>(full.begin(), full.end()).c_str()); } static std::string name() { return "string<" + std::to_string(N) + ">"; } static P internal(R const& x) { return dump(x); } static std::size_t pitlen() { return N; } enum { sub = 0, cap = N }; };
template<class K> P content(K const& k, std::vector<typename K::elem> w, bool back, bool view) { // expected content after the produced elements w were put in front (or at the back) of the window
	P p = dump(k.full); if (w.size() > k.len) { if (back) w.erase(w.begin(), w.end() - k.len); else w.resize(k.len); } P q = dump(w); std::copy(q.begin(), q.end(), p.begin() + k.off + (back ? k.len - w.size() : 0)); return view ? P(p.begin() + k.off, p.begin() + k.off + k.len) : p;
}
template<class C, class K> void chk(C& c, K const& k, typename K::R const& r, std::vector<typename K::elem> const& w, bool back = false) { c.eq(dump(r), content(k, w, back, true), "fixed result"); c.eq(K::internal(r), content(k, w, back, false), "internal container of the fixed result"); c.eq(K::internal(k.r), dump(k.full), "argument unchanged"); }
template<class C, class K, class F> void chkfit(C& c, K const& k, F const& r, std::vector<typename K::elem> w, bool back = false) { if (w.size() > k.len) { if (back) w.erase(w.begin(), w.end() - k.len); else w.resize(k.len); } c.eq(dump(r), dump(w), "fit view"); c.eq(dump(sprout::get_internal(r)), content(k, w, back, false), "internal container of the fit result"); c.eq((long)sprout::internal_begin_offset(r), (long)(k.off + (back ? k.len - w.size() : 0)), "fit view offset"); c.eq(K::internal(k.r), dump(k.full), "argument unchanged"); }
template<class C, class K, class R> void chkpit(C& c, R const& r, std::vector<typename K::elem> w, bool back = false) { P p = dump(std::vector<typename K::elem>(K::pitlen(), typename K::elem())); if (w.size() > p.size()) { if (back) w.erase(w.begin(), w.end() - p.size()); else w.resize(p.size()); } P q = dump(w); std::copy(q.begin(), q.end(), back ? p.end() - q.size() : p.begin()); c.eq(dump(r), p, "result of the form without a result argument"); }
struct KGeq { int k; template<class E> bool operator()(E const& e) const { return key(e) >= k; } };
struct KMod { int m; template<class A, class B> bool operator()(A const& a, B const& b) const { return key(a) % m == key(b) % m; } };
struct KDesc { int pad; explicit KDesc(int) : pad(0) {} template<class E> bool operator()(E const& a, E const& b) const { return key(b) < key(a); } };
struct Bump { int d; template<class E> E operator()(E const& t) const { return El<E>::mk(key(t) + d, idt(t) + 50000); } };
struct Comb { int d; template<class E> E operator()(E const& t, E const& u) const { return El<E>::mk(key(t) * 3 + key(u) + d, idt(t) * 7 - idt(u)); } };
#define EXPAND(...) __VA_ARGS__
#define UNP(X) EXPAND X
// NAME(first.., result, extra..) : fixed with result, via sprout::, and without result argument
#define ALG(NAME, LABEL, WANT, PRE, POST, BACK) { auto w_ = WANT; MON_CASE(c, OPN(LABEL), v, dump(k.full), (int)k.off, (int)k.len, a1, a2); chk(c, k, sprout::fixed::NAME(UNP(PRE), k.r UNP(POST)), w_, BACK); chk(c, k, sprout::NAME(UNP(PRE), k.r UNP(POST)), w_, BACK); chkpit<decltype(c), K>(c, sprout::fixed::NAME<R>(UNP(PRE) UNP(POST)), w_, BACK); }
#define ALGFIT(NAME, LABEL, WANT, PRE, POST, BACK) { auto w_ = WANT; MON_CASE(c, OPN("fit::" LABEL), v, dump(k.full), (int)k.off, (int)k.len, a1, a2); chkfit(c, k, sprout::fit::NAME(UNP(PRE), k.r UNP(POST)), w_, BACK); }
#define ALG2(NAME, LABEL, WANT, PRE, POST, BACK) ALG(NAME, LABEL, WANT, PRE, POST, BACK) ALGFIT(NAME, LABEL, WANT, PRE, POST, BACK)
}
#endif
