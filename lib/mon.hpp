// Runtime-monitor framework: seeded workload generation, event counting, oracle comparison, violation reports.
// C++11-compatible.  One process runs one test (see tools/run.py); results go to the file named by MON_OUT.
#ifndef MON_HPP
#define MON_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#ifndef MON_SHARD
#define MON_SHARD -1
#endif
#define MON_PART(i) (MON_SHARD < 0 || MON_SHARD == (i))

namespace mon {
	// ---------------------------------------------------------------- RNG
	inline std::uint64_t mix(std::uint64_t z) {
		z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
	}
	struct Rng {
		typedef std::uint64_t result_type;
		std::uint64_t s;
		explicit Rng(std::uint64_t seed = 1) : s(mix(seed)) {}
		static constexpr result_type min() { return 0; }
		static constexpr result_type max() { return ~result_type(0); }
		std::uint64_t operator()() { return mix(s += 0x632be59bd9b4e019ull); }
		std::uint64_t below(std::uint64_t n) { return n ? (*this)() % n : 0; }
		long long range(long long a, long long b) { return a + (long long)below((std::uint64_t)(b - a) + 1); }
		bool coin(unsigned num = 1, unsigned den = 2) { return below(den) < num; }
		double unit() { return ((*this)() >> 11) * (1.0 / 9007199254740992.0); }
		template<class C> auto pick(C const& c) -> decltype(c[0]) { return c[below(c.size())]; }
	};

	// ---------------------------------------------------------------- printing
	template<class T> struct has_iter {
		template<class U> static auto f(U const* u) -> decltype(u->begin(), u->end(), std::true_type());
		static std::false_type f(...);
		static constexpr bool value = decltype(f((T const*)0))::value;
	};
	template<class T> struct has_ostream {
		template<class U> static auto f(U const* u) -> decltype(std::declval<std::ostream&>() << *u, std::true_type());
		static std::false_type f(...);
		static constexpr bool value = decltype(f((T const*)0))::value;
	};
	inline void show(std::ostream& o, bool b) { o << (b ? "true" : "false"); }
	inline void show_char(std::ostream& o, unsigned long c) {
		if (c >= 32 && c < 127 && c != '\\') o << (char)c; else { char b[16]; std::snprintf(b, sizeof b, "\\x%02lx", c); o << b; }
	}
	inline void show(std::ostream& o, char c) { o << '\''; show_char(o, (unsigned char)c); o << '\''; }
	inline void show(std::ostream& o, wchar_t c) { o << "L'"; show_char(o, (unsigned long)c); o << '\''; }
	inline void show(std::ostream& o, char16_t c) { o << "u'"; show_char(o, (unsigned long)c); o << '\''; }
	inline void show(std::ostream& o, char32_t c) { o << "U'"; show_char(o, (unsigned long)c); o << '\''; }
	inline void show(std::ostream& o, signed char c) { o << (int)c; }
	inline void show(std::ostream& o, unsigned char c) { o << (int)c; }
	inline void show(std::ostream& o, std::nullptr_t) { o << "nullptr"; }
	inline void show(std::ostream& o, float f) { char b[64]; std::snprintf(b, sizeof b, "%.9g", f); o << b; }
	inline void show(std::ostream& o, double f) { char b[64]; std::snprintf(b, sizeof b, "%.17g", f); o << b; }
	inline void show(std::ostream& o, long double f) { char b[64]; std::snprintf(b, sizeof b, "%.21Lg", f); o << b; }
	inline void show(std::ostream& o, __int128 v) {
		if (v < 0) { o << '-'; } unsigned __int128 u = v < 0 ? -(unsigned __int128)v : v; std::string s;
		do { s.insert(s.begin(), char('0' + (int)(u % 10))); u /= 10; } while (u); o << s;
	}
	template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type
	show_arith(std::ostream& o, T t) { o << (long long)t; if (std::is_unsigned<T>::value && (long long)t < 0) o << "u"; }
	template<class Ch> void show_str(std::ostream& o, Ch const* b, std::size_t n) {
		o << '"'; for (std::size_t i = 0; i < n; ++i) show_char(o, (unsigned long)(typename std::make_unsigned<Ch>::type)b[i]); o << '"';
	}
	template<class Ch, class Tr, class Al> void show(std::ostream& o, std::basic_string<Ch, Tr, Al> const& s) {
		o << '"'; for (auto c : s) show_char(o, sizeof(Ch) == 1 ? (unsigned long)(unsigned char)c : (unsigned long)c); o << '"';
	}
	inline void show(std::ostream& o, char const* s) { o << s; }
	template<class A, class B> void show(std::ostream& o, std::pair<A, B> const& p);
	template<class... A> void show(std::ostream& o, std::tuple<A...> const& t);
	template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type show(std::ostream& o, T const& t) { show_arith(o, t); }
	template<class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value && has_iter<T>::value>::type show(std::ostream& o, T const& t) {
		o << '['; bool f = true; std::size_t n = 0;
		for (auto i = t.begin(); i != t.end(); ++i) { if (!f) o << ','; f = false; if (++n > 64) { o << "..."; break; } show(o, *i); } o << ']';
	}
	template<class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value && !has_iter<T>::value && has_ostream<T>::value>::type show(std::ostream& o, T const& t) { o << t; }
	template<class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value && !has_iter<T>::value && !has_ostream<T>::value>::type show(std::ostream& o, T const&) { o << "<?>"; }
	template<class A, class B> void show(std::ostream& o, std::pair<A, B> const& p) { o << '('; show(o, p.first); o << ','; show(o, p.second); o << ')'; }
	template<std::size_t I, std::size_t N> struct show_tup { template<class T> static void f(std::ostream& o, T const& t) { if (I) o << ' '; show(o, std::get<I>(t)); show_tup<I + 1, N>::f(o, t); } };
	template<std::size_t N> struct show_tup<N, N> { template<class T> static void f(std::ostream&, T const&) {} };
	template<class... A> void show(std::ostream& o, std::tuple<A...> const& t) { o << '('; show_tup<0, sizeof...(A)>::f(o, t); o << ')'; }
	template<class T> std::string str(T const& t) { std::ostringstream o; show(o, t); return o.str(); }

	// ---------------------------------------------------------------- input hashing and triviality
	inline void hcomb(std::uint64_t& h, std::uint64_t v) { h = mix(h ^ v); }
	template<class T> typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type hin(std::uint64_t& h, T const& t) { hcomb(h, (std::uint64_t)t); }
	template<class T> typename std::enable_if<std::is_floating_point<T>::value>::type hin(std::uint64_t& h, T const& t) {
		unsigned char b[16] = {0}; std::memcpy(b, &t, sizeof(T) == 16 ? 10 : sizeof(T)); std::uint64_t a, c; std::memcpy(&a, b, 8); std::memcpy(&c, b + 8, 8); hcomb(h, a); hcomb(h, c); }
	inline void hin(std::uint64_t& h, char const* s) { while (*s) hcomb(h, (unsigned char)*s++); }
	template<class A, class B> void hin(std::uint64_t& h, std::pair<A, B> const& p);
	template<class T> typename std::enable_if<has_iter<T>::value>::type hin(std::uint64_t& h, T const& t) { std::uint64_t n = 0; for (auto i = t.begin(); i != t.end(); ++i) { hin(h, *i); ++n; } hcomb(h, n); }
	template<class T> typename std::enable_if<!std::is_integral<T>::value && !std::is_enum<T>::value && !std::is_floating_point<T>::value && !has_iter<T>::value>::type
	hin(std::uint64_t& h, T const& t) { std::ostringstream o; show(o, t); std::string s = o.str(); for (char c : s) hcomb(h, (unsigned char)c); }
	template<class A, class B> void hin(std::uint64_t& h, std::pair<A, B> const& p) { hin(h, p.first); hin(h, p.second); }
	template<class T> typename std::enable_if<has_iter<T>::value, int>::type weight(T const& t) { int n = 0; for (auto i = t.begin(); i != t.end() && n < 2; ++i) ++n; return n >= 2 ? 2 : 0; }
	template<class T> typename std::enable_if<!has_iter<T>::value && std::is_arithmetic<T>::value, int>::type weight(T const& t) { return t != T() ? 1 : 0; }
	template<class T> typename std::enable_if<!has_iter<T>::value && !std::is_arithmetic<T>::value, int>::type weight(T const&) { return 1; }

	// ---------------------------------------------------------------- state
	struct OpStat {
		std::string name; std::uint64_t events = 0, fails = 0; std::vector<std::string> samples, fail_details;
		std::uint64_t next_sample = 1;
	};
	struct Shared { char op[256]; std::uint64_t events; char det[1024]; };
	struct State {
		Rng rng; bool thorough = false; std::uint64_t seed = 1, events = 0, nontrivial = 0; std::string test;
		std::unordered_map<std::string, OpStat> ops; std::unordered_set<std::uint64_t> distinct; bool distinct_full = false;
		std::map<std::string, std::uint64_t> counters;
		Shared* sh = nullptr;
	};
	inline State& st() { static State s; return s; }
	inline Rng& rng() { return st().rng; }
	inline bool thorough() { return st().thorough; }
	// scaled number of iterations
	inline std::uint64_t reps(std::uint64_t quick, std::uint64_t factor = 8) { return thorough() ? quick * factor : quick; }
	inline void count(std::string const& k, std::uint64_t n = 1) { st().counters[k] += n; }

	inline OpStat*& cur() { static OpStat* o = nullptr; return o; }
	inline OpStat& op(std::string const& name) {
		OpStat& o = st().ops[name]; if (o.name.empty()) o.name = name;
		if (cur() != &o) { cur() = &o; if (st().sh) { std::strncpy(st().sh->op, name.c_str(), 255); } }
		if (st().sh) st().sh->events = st().events;
		return o;
	}
	inline void fail_in(OpStat& o, std::string const& detail) { ++o.fails; if (o.fail_details.size() < 60) o.fail_details.push_back(detail.substr(0, 900)); }
	inline void fail(std::string const& detail) { static OpStat& none = op("?"); fail_in(cur() ? *cur() : none, detail); }

	template<class T> struct eq_impl { template<class U> static bool f(T const& a, U const& b) { return a == b; } };
	// containers: element-wise against any other container
	template<class A, class B> typename std::enable_if<has_iter<A>::value && has_iter<B>::value, bool>::type same(A const& a, B const& b) {
		auto i = a.begin(); auto j = b.begin();
		for (; i != a.end() && j != b.end(); ++i, ++j) if (!(*i == *j)) return false;
		return !(i != a.end()) && !(j != b.end());
	}
	template<class A, class B> typename std::enable_if<!(has_iter<A>::value && has_iter<B>::value) && !(std::is_floating_point<A>::value && std::is_floating_point<B>::value), bool>::type same(A const& a, B const& b) { return a == b; }
	// floating point: same value, same zero sign, NaN == NaN
	template<class A, class B> typename std::enable_if<std::is_floating_point<A>::value && std::is_floating_point<B>::value, bool>::type same(A a, B b) {
		if (a != a || b != b) return a != a && b != b;
		return a == b && std::signbit(a) == std::signbit(b);
	}

	// Case: one observed execution of one operation with its inputs.
	template<class... A> struct Case {
		OpStat& o; std::tuple<A...> args; bool sample; std::uint64_t before;
		explicit Case(std::string const& name, A&&... a) : o(op(name)), args(std::forward<A>(a)...), sample(false) {
			init(name, a...);
		}
		template<class... B> void init(std::string const& name, B const&... a) {
			State& s = st(); ++s.events; ++o.events; before = o.fails;
			std::uint64_t h = 0; for (char c : name) hcomb(h, (unsigned char)c);
			int w = 0; int dummy[] = {0, (hin(h, a), w = std::max(w, weight(a)), 0)...}; (void)dummy;
			if (s.distinct.size() < 3000000) { if (s.distinct.insert(h).second && w) ++s.nontrivial; } else s.distinct_full = true;
			if (o.events == o.next_sample) { sample = true; o.next_sample *= 40; }
		}
		std::string text() const { std::ostringstream os; os << o.name << " "; show(os, args); return os.str(); }
		template<class G, class W> bool eq(G const& got, W const& want, std::string const& what) { return eq(got, want, what.c_str()); }
		template<class G, class W> bool eq(G const& got, W const& want, char const* what = "result") {
			bool ok = same(got, want);
			if (!ok) { std::ostringstream os; os << text() << " : " << what << " got="; show(os, got); os << " want="; show(os, want); fail_in(o, os.str()); }
			if (sample && o.samples.size() < 3) { std::ostringstream os; os << text() << " -> " << what << "="; show(os, got); o.samples.push_back(os.str().substr(0, 300)); sample = false; }
			return ok;
		}
		bool ok(bool c, char const* what = "condition") { return eq(c, true, what); }
		bool ok(bool c, std::string const& what) { return eq(c, true, what.c_str()); }
		bool failed(std::string const& d) { fail_in(o, text() + " : " + d); return false; }
	};
	template<class... A> Case<A...> mk(std::string const& name, A&&... a) { return Case<A...>(name, std::forward<A>(a)...); } // temporaries are kept by value
#define MON_CASE(var, ...) auto var = ::mon::mk(__VA_ARGS__)

	// expects exception E from f(); any other exception or none fails
	template<class E, class C, class F> bool throws(C& c, F f, char const* what = "throws") {
		try { f(); } catch (E const&) { return c.eq(std::string("E"), std::string("E"), what); } catch (std::exception const& e) { return c.failed(std::string(what) + " wrong exception: " + e.what()); }
		return c.failed(std::string(what) + ": no exception");
	}

	// ---------------------------------------------------------------- exact-size heap buffers (ASan red zones on both sides)
	template<class T> struct Buf {
		std::size_t n; T* p;
		template<class C> explicit Buf(C const& c) : n((std::size_t)std::distance(c.begin(), c.end())), p(static_cast<T*>(std::malloc(n ? n * sizeof(T) : 1))) { std::size_t k = 0; for (auto const& x : c) new (p + k++) T(x); if (!n) { std::free(p); p = static_cast<T*>(std::malloc(0)); } }
		Buf(std::size_t m, T const& v) : n(m), p(static_cast<T*>(std::malloc(m * sizeof(T)))) { for (std::size_t k = 0; k < n; ++k) new (p + k) T(v); }
		Buf(Buf const&) = delete; Buf& operator=(Buf const&) = delete;
		~Buf() { for (std::size_t k = 0; k < n; ++k) p[k].~T(); std::free(p); }
		T* begin() const { return p; } T* end() const { return p + n; } std::size_t size() const { return n; }
		T& operator[](std::size_t i) const { return p[i]; }
		std::vector<T> vec() const { return std::vector<T>(p, p + n); }
	};

	// ---------------------------------------------------------------- checked iterators of a chosen category
	struct bounds_error : std::logic_error { bounds_error(std::string const& s) : std::logic_error(s) {} };
	struct NonLit { NonLit() {} NonLit(NonLit const&) {} NonLit& operator=(NonLit const&) { return *this; } ~NonLit() {} };
	struct Lit {};
	inline std::uint64_t& derefs() { static std::uint64_t d = 0; return d; }
	inline void oob(char const* w) { fail(std::string("iterator out of range: ") + w); throw bounds_error(w); }
	template<class T, class Cat, class L = Lit> struct It : L {
		typedef Cat iterator_category; typedef typename std::remove_cv<T>::type value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer; typedef T& reference;
		T *p, *b, *e;
		constexpr It() : L(), p(nullptr), b(nullptr), e(nullptr) {}
		constexpr It(T* p_, T* b_, T* e_) : L(), p(p_), b(b_), e(e_) {}
		reference operator*() const { ++derefs(); if (!(b <= p && p < e)) oob("dereference"); return *p; }
		pointer operator->() const { if (!(b <= p && p < e)) oob("dereference"); return p; }
		It& operator++() { if (!(p < e)) oob("increment past end"); ++p; return *this; }
		It operator++(int) { It t(*this); ++*this; return t; }
		It& operator--() { if (!(b < p)) oob("decrement before begin"); --p; return *this; }
		It operator--(int) { It t(*this); --*this; return t; }
		It& operator+=(difference_type n) { if (n > e - p || n < b - p) oob("advance out of range"); p += n; return *this; }
		It& operator-=(difference_type n) { return *this += -n; }
		reference operator[](difference_type n) const { return *(*this + n); }
		friend It operator+(It a, difference_type n) { return a += n; }
		friend It operator+(difference_type n, It a) { return a += n; }
		friend It operator-(It a, difference_type n) { return a += -n; }
		friend difference_type operator-(It const& x, It const& y) { return x.p - y.p; }
		friend bool operator==(It const& x, It const& y) { return x.p == y.p; }
		friend bool operator!=(It const& x, It const& y) { return x.p != y.p; }
		friend bool operator<(It const& x, It const& y) { return x.p < y.p; }
		friend bool operator>(It const& x, It const& y) { return x.p > y.p; }
		friend bool operator<=(It const& x, It const& y) { return x.p <= y.p; }
		friend bool operator>=(It const& x, It const& y) { return x.p >= y.p; }
	};
	typedef std::input_iterator_tag In; typedef std::forward_iterator_tag Fw; typedef std::bidirectional_iterator_tag Bi; typedef std::random_access_iterator_tag Ra;
	template<class Cat, class T, class L = Lit> struct Rg { // a range of checked iterators over a Buf
		Buf<T> buf;
		template<class C> explicit Rg(C const& c) : buf(c) {}
		typedef It<T const, Cat, L> ci; typedef It<T, Cat, L> mi;
		ci cb() const { return ci(buf.p, buf.p, buf.p + buf.n); } ci ce() const { return ci(buf.p + buf.n, buf.p, buf.p + buf.n); }
		mi mb() const { return mi(buf.p, buf.p, buf.p + buf.n); } mi me() const { return mi(buf.p + buf.n, buf.p, buf.p + buf.n); }
		ci cat(std::size_t i) const { return ci(buf.p + i, buf.p, buf.p + buf.n); } mi mat(std::size_t i) const { return mi(buf.p + i, buf.p, buf.p + buf.n); }
		std::ptrdiff_t off(ci const& i) const { return i.p - buf.p; } std::ptrdiff_t off(mi const& i) const { return i.p - buf.p; }
	};
	template<class Cat> char const* cname() { return std::is_same<Cat, In>::value ? "in" : std::is_same<Cat, Fw>::value ? "fw" : std::is_same<Cat, Bi>::value ? "bi" : "ra"; }

	// element with identity: compares by key only, remembers where it came from
	struct Tag { int key, id; constexpr Tag(int k = 0, int i = 0) : key(k), id(i) {}
#ifdef MON_FINE_TAG // == finer than equivalence under <: an algorithm ordered by < that consults == is exposed
		friend constexpr bool operator==(Tag const& a, Tag const& b) { return a.key == b.key && a.id == b.id; } friend constexpr bool operator!=(Tag const& a, Tag const& b) { return !(a == b); }
#else
		friend constexpr bool operator==(Tag const& a, Tag const& b) { return a.key == b.key; } friend constexpr bool operator!=(Tag const& a, Tag const& b) { return a.key != b.key; }
#endif
		friend constexpr bool operator<(Tag const& a, Tag const& b) { return a.key < b.key; } friend constexpr bool operator>(Tag const& a, Tag const& b) { return a.key > b.key; }
		friend std::ostream& operator<<(std::ostream& o, Tag const& t) { return o << t.key << '#' << t.id; } };
	// ordered by key only, equal only when key and id agree: tells "not less" from "equal" apart
	struct Fine { int key, id; constexpr Fine(int k = 0, int i = 0) : key(k), id(i) {}
		friend constexpr bool operator==(Fine const& a, Fine const& b) { return a.key == b.key && a.id == b.id; } friend constexpr bool operator!=(Fine const& a, Fine const& b) { return !(a == b); }
		friend constexpr bool operator<(Fine const& a, Fine const& b) { return a.key < b.key; }
		friend std::ostream& operator<<(std::ostream& o, Fine const& t) { return o << t.key << '#' << t.id; } };
	struct OnlyLess { int v; constexpr OnlyLess(int x = 0) : v(x) {} friend constexpr bool operator<(OnlyLess const& a, OnlyLess const& b) { return a.v < b.v; } friend std::ostream& operator<<(std::ostream& o, OnlyLess const& t) { return o << t.v; } };
	inline std::vector<std::pair<int, int> > ids(std::vector<Tag> const& v) { std::vector<std::pair<int, int> > r; for (auto const& t : v) r.push_back(std::make_pair(t.key, t.id)); return r; }

	// ---------------------------------------------------------------- generators
	// all sequences over {0..k-1} of length n, then random ones
	template<class F> void all_seqs(int n, int k, F f) {
		std::vector<int> v(n, 0);
		for (;;) { f(v); int i = 0; while (i < n && ++v[i] == k) v[i++] = 0; if (i == n) break; }
	}
	inline std::vector<int> rand_seq(std::size_t n, int lo, int hi) { std::vector<int> v(n); for (auto& x : v) x = (int)rng().range(lo, hi); return v; }
	inline std::size_t rand_len(std::size_t mx) { // favours powers of two +-1
		if (rng().coin()) { std::size_t p = std::size_t(1) << rng().below(8); std::size_t q = p + rng().below(3); return std::min(mx, q ? q - 1 : 0); }
		return (std::size_t)rng().below(mx + 1);
	}

	// ---------------------------------------------------------------- registry and main
	struct Test { char const* name; void (*f)(); };
	inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
	struct Reg { Reg(char const* n, void (*f)()) { tests().push_back(Test{n, f}); } };
#define MON_CAT2(a, b) a##b
#define MON_CAT(a, b) MON_CAT2(a, b)
#define MON_TEST(name) static void MON_CAT(mon_t_, name)(); static ::mon::Reg MON_CAT(mon_r_, name)(#name, &MON_CAT(mon_t_, name)); static void MON_CAT(mon_t_, name)()

	inline void jesc(std::ostream& o, std::string const& s) {
		o << '"'; for (unsigned char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o << b; } else o << c; } o << '"';
	}
	inline void write_report(bool done, std::string const& exc) {
		State& s = st(); char const* path = std::getenv("MON_OUT"); std::ostringstream o;
		o << "{\"test\":"; jesc(o, s.test); o << ",\"done\":" << (done ? "true" : "false") << ",\"exception\":"; jesc(o, exc);
		o << ",\"events\":" << s.events << ",\"distinct\":" << s.distinct.size() << ",\"nontrivial\":" << s.nontrivial << ",\"counters\":{";
		bool f = true; for (auto& c : s.counters) { if (!f) o << ','; f = false; jesc(o, c.first); o << ':' << c.second; }
		o << "},\"ops\":["; f = true;
		for (auto& p : s.ops) { OpStat& q = p.second; if (!q.events && !q.fails) continue; if (!f) o << ','; f = false;
			o << "{\"op\":"; jesc(o, q.name); o << ",\"events\":" << q.events << ",\"fails\":" << q.fails << ",\"samples\":[";
			for (std::size_t i = 0; i < q.samples.size(); ++i) { if (i) o << ','; jesc(o, q.samples[i]); } o << "],\"details\":[";
			for (std::size_t i = 0; i < q.fail_details.size(); ++i) { if (i) o << ','; jesc(o, q.fail_details[i]); } o << "]}"; }
		o << "]}\n";
		std::string t = o.str();
		if (path) { FILE* fp = std::fopen(path, "w"); if (fp) { std::fwrite(t.data(), 1, t.size(), fp); std::fclose(fp); } }
		else std::fwrite(t.data(), 1, t.size(), stdout);
	}
	inline int main_(int argc, char** argv) {
		State& s = st(); if (argc >= 2 && !std::strcmp(argv[1], "--list")) { for (auto& t : tests()) std::puts(t.name); return 0; }
		char const* e = std::getenv("VERIF_SEED"); s.seed = e ? std::strtoull(e, 0, 10) : 1; e = std::getenv("VERIF_TIER"); s.thorough = e && !std::strcmp(e, "thorough");
		char const* sp = std::getenv("MON_SHARED");
		if (sp) { int fd = ::open(sp, O_RDWR | O_CREAT, 0600); if (fd >= 0 && ::ftruncate(fd, sizeof(Shared)) == 0) { void* m = ::mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (m != MAP_FAILED) s.sh = static_cast<Shared*>(m); ::close(fd); } }
		std::string only = argc >= 2 ? argv[1] : "";
		for (auto& t : tests()) if (only.empty() || only == t.name) {
			s.test = t.name; std::uint64_t h = s.seed; for (char const* c = t.name; *c; ++c) hcomb(h, (unsigned char)*c); s.rng = Rng(h);
			try { t.f(); } catch (std::exception const& x) { write_report(false, std::string("std::exception: ") + x.what()); return 3; } catch (...) { write_report(false, "unknown exception"); return 3; }
		}
		write_report(true, ""); return 0;
	}
}
#ifndef MON_NO_MAIN
int main(int argc, char** argv) { return mon::main_(argc, argv); }
#endif
#endif
