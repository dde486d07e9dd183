// C35: weed grammars against an independent PEG interpreter: acceptance, stop position, attribute leaves.
#include <mon.hpp>
#include <string>
#include <memory>
#include <functional>
#include <sprout/weed.hpp>
#include <sprout/weed/parser/directive/replace.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
#include <sprout/tuple.hpp>
#include <sprout/variant.hpp>
using namespace mon;
namespace w = sprout::weed;
// ---------------------------------------------------------------- reference: PEG interpreter over a syntax tree
typedef std::vector<std::string> Leaves;
struct R { bool ok; std::size_t pos; Leaves a; bool any; };
typedef std::string const& T;
typedef std::function<R(T, std::size_t)> N;
inline std::string leaf(long long v) { return "i" + std::to_string(v); }
inline std::string uleaf(unsigned long long v) { return "i" + std::to_string(v); }
inline std::string cleaf(long v) { return "c" + std::to_string(v); }
inline R no(std::size_t p) { return R{ false, p, {}, true }; }
inline N one(std::function<bool(char)> f, bool attr = true) { return [=](T t, std::size_t p) { return p < t.size() && f(t[p]) ? R{ true, p + 1, attr ? Leaves{ cleaf(t[p]) } : Leaves{}, true } : no(p); }; }
inline N ch(char x) { return one([=](char y) { return x == y; }); }
inline N lc(char x) { return one([=](char y) { return x == y; }, false); }
inline N rg(char a, char b) { return one([=](char y) { return a <= y && y <= b; }); }
inline N set(std::string s) { return one([=](char y) { return s.find(y) != std::string::npos; }); }
inline N any() { return one([](char) { return true; }); }
inline N cls(int (*f)(int)) { return one([=](char y) { return (unsigned char)y < 128 && f((unsigned char)y) != 0; }); }
inline N lit(std::string s, bool attr = false) { return [=](T t, std::size_t p) { if (t.compare(p, s.size(), s) != 0) return no(p); Leaves l; if (attr) for (char c : s) l.push_back(cleaf(c)); return R{ true, p + s.size(), l, true }; }; }
inline N eps() { return [](T, std::size_t p) { return R{ true, p, {}, true }; }; }
inline N eoi() { return [](T t, std::size_t p) { return p == t.size() ? R{ true, p, {}, true } : no(p); }; }
inline N eol() { return [](T t, std::size_t p) { if (p < t.size() && t[p] == '\r') return R{ true, p + (p + 1 < t.size() && t[p + 1] == '\n' ? 2 : 1), {}, true }; if (p < t.size() && t[p] == '\n') return R{ true, p + 1, {}, true }; return no(p); }; }
inline int dig(char c, int radix) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; return d < radix ? d : -1; }
// value of the digits modulo 2^bits, as the type has it; the leaf is "*" when the number does not fit
template<class I> N num(bool sign, int radix, std::size_t mn, std::size_t mx) { return [=](T t, std::size_t p) { std::size_t q = p; bool neg = false; if (sign && q < t.size() && (t[q] == '+' || t[q] == '-')) neg = t[q++] == '-'; unsigned __int128 v = 0; std::size_t n = 0; bool fits = true; unsigned __int128 lim = (unsigned __int128)std::numeric_limits<I>::max() + (neg ? 1 : 0); while (q < t.size() && n < mx && dig(t[q], radix) >= 0) { v = v * radix + dig(t[q++], radix); ++n; if (v > lim) { fits = false; v = lim; } } if (n < mn || n == 0) return no(p); return R{ true, q, { !fits ? "*" : neg ? leaf((long long)(0 - (unsigned long long)v)) : uleaf((unsigned long long)v) }, true }; }; }
inline N operator>>(N a, N b) { return [=](T t, std::size_t p) { R x = a(t, p); if (!x.ok) return no(p); R y = b(t, x.pos); if (!y.ok) return no(p); x.a.insert(x.a.end(), y.a.begin(), y.a.end()); return R{ true, y.pos, x.a, true }; }; }
inline N operator|(N a, N b) { return [=](T t, std::size_t p) { R x = a(t, p); return x.ok ? x : b(t, p); }; }
inline N operator-(N a, N b) { return [=](T t, std::size_t p) { R x = a(t, p); return x.ok && !b(t, p).ok ? x : no(p); }; }
inline N nt(N a) { return [=](T t, std::size_t p) { return a(t, p).ok ? no(p) : R{ true, p, {}, true }; }; }
inline N at(N a) { return [=](T t, std::size_t p) { return a(t, p).ok ? R{ true, p, {}, true } : no(p); }; }
inline N om(N a) { return [=](T t, std::size_t p) { R x = a(t, p); x.a.clear(); return x; }; }
inline N rp(std::string v, N a) { return [=](T t, std::size_t p) { R x = a(t, p); if (x.ok) x.a = { v }; return x; }; }
inline N opt(N a) { return [=](T t, std::size_t p) { R x = a(t, p); return x.ok ? x : R{ true, p, {}, true }; }; }
const std::size_t inf = (std::size_t)-1;
// between mn and unlimited matches of a (separated by sep when given); lim/cat choose which attributes are kept, hard stops after that many
inline N many(N a, std::size_t mn, std::size_t lim = inf, w::limited::category cat = w::limited::discard, Leaves pad = {}, N sep = N(), std::size_t hard = inf) { return [=](T t, std::size_t p) { std::vector<Leaves> got; std::size_t pos = p, n = 0; std::size_t stop = cat == w::limited::stopover ? std::min(lim, hard) : hard; while (n < stop) { std::size_t q = pos; if (n && sep) { R s = sep(t, q); if (!s.ok) break; q = s.pos; } R x = a(t, q); if (!x.ok) break; pos = x.pos; ++n; got.push_back(x.a); } if (n < mn) return no(p); Leaves l; if (lim != inf) { std::size_t b = 0, e = got.size(); if (e > lim) { if (cat == w::limited::circular) b = e - lim; else e = lim; } for (std::size_t i = b; i < e; ++i) l.insert(l.end(), got[i].begin(), got[i].end()); for (std::size_t i = e - b; i < lim; ++i) l.insert(l.end(), pad.begin(), pad.end()); } return R{ true, pos, l, true }; }; }
// ---------------------------------------------------------------- leaves of a sprout attribute
inline void leaves(Leaves&, w::unused const&) {}
inline void leaves(Leaves& l, char const& v) { l.push_back(cleaf(v)); }
inline void leaves(Leaves& l, wchar_t const& v) { l.push_back(cleaf(v)); }
template<class I> typename std::enable_if<std::is_integral<I>::value>::type leaves(Leaves& l, I const& v) { l.push_back(std::is_signed<I>::value ? leaf((long long)v) : uleaf((unsigned long long)v)); }
template<class E, std::size_t M, class Tr> void leaves(Leaves& l, sprout::basic_string<E, M, Tr> const& s);
template<class E, std::size_t M> void leaves(Leaves& l, sprout::array<E, M> const& s);
template<class... Ts> void leaves(Leaves& l, sprout::tuples::tuple<Ts...> const& t);
template<class... Ts> void leaves(Leaves& l, sprout::variant<Ts...> const& v);
template<class E, std::size_t M, class Tr> void leaves(Leaves& l, sprout::basic_string<E, M, Tr> const& s) { for (std::size_t i = 0; i < s.size(); ++i) leaves(l, s[i]); }
template<class E, std::size_t M> void leaves(Leaves& l, sprout::array<E, M> const& s) { for (std::size_t i = 0; i < M; ++i) leaves(l, s[i]); }
template<std::size_t I, std::size_t S> struct Tl { template<class U> static void f(Leaves& l, U const& t) { leaves(l, sprout::tuples::get<I>(t)); Tl<I + 1, S>::f(l, t); } };
template<std::size_t S> struct Tl<S, S> { template<class U> static void f(Leaves&, U const&) {} };
template<class... Ts> void leaves(Leaves& l, sprout::tuples::tuple<Ts...> const& t) { Tl<0, sizeof...(Ts)>::f(l, t); }
template<std::size_t I, std::size_t S> struct Vl { template<class U> static void f(Leaves& l, U const& v) { if ((std::size_t)v.which() == I) leaves(l, sprout::tuples::get<I>(v)); else Vl<I + 1, S>::f(l, v); } };
template<std::size_t S> struct Vl<S, S> { template<class U> static void f(Leaves& l, U const&) { l.push_back("no alternative"); } };
template<class... Ts> void leaves(Leaves& l, sprout::variant<Ts...> const& v) { Vl<0, sizeof...(Ts)>::f(l, v); }
// ---------------------------------------------------------------- monitor
template<class Elem, class G> void text(char const* name, G const& g, N const& ref, std::string const& s) { MON_CASE(c, std::string(name) + (sizeof(Elem) == 1 ? "" : " (wide)"), s); Buf<Elem> b(std::vector<Elem>(s.begin(), s.end())); R r = ref(s, 0); Elem const* f = b.p; Elem const* e = b.p + b.n; auto x = w::parse(f, e, g); c.eq(x.success(), r.ok, "accepted"); c.eq((std::size_t)(x.current() - f), r.ok ? r.pos : 0, "stop position"); if (x.success() && r.ok) { Leaves l; leaves(l, x.attr()); for (std::size_t i = 0; i < r.a.size() && i < l.size(); ++i) if (r.a[i] == "*") l[i] = "*"; c.eq(l, r.a, "attribute"); } }
inline std::string mutate(std::string s, std::string const& al) { auto& g = rng(); int k = (int)g.below(3); for (int i = 0; i < k; ++i) { if (s.empty() || g.coin(1, 3)) s.insert((std::size_t)g.below(s.size() + 1), 1, al[g.below(al.size())]); else if (g.coin()) s.erase((std::size_t)g.below(s.size()), 1); else s[g.below(s.size())] = al[g.below(al.size())]; } return s; }
template<class Elem, class G> void grammar(char const* name, std::string const& al, std::vector<std::string> const& seeds, G const& g, N const& ref) { for (auto const& s : seeds) { text<Elem>(name, g, ref, s); for (std::size_t k = 0; k < s.size(); ++k) { text<Elem>(name, g, ref, s.substr(0, k)); text<Elem>(name, g, ref, s.substr(k)); } for (std::uint64_t k = 0; k < reps(12); ++k) text<Elem>(name, g, ref, mutate(s, al)); } text<Elem>(name, g, ref, ""); for (char x : al) { text<Elem>(name, g, ref, std::string(1, x)); for (char y : al) text<Elem>(name, g, ref, std::string(1, x) + y); } for (std::uint64_t k = 0; k < reps(60); ++k) { std::string s; std::size_t n = (std::size_t)rng().below(rng().coin(1, 8) ? 40 : 9); for (std::size_t i = 0; i < n; ++i) s += al[rng().below(al.size())]; text<Elem>(name, g, ref, s); } }
#define G(name, al, seeds, expr, ref) { auto g_ = (expr); N r_ = (ref); grammar<char>(name, al, std::vector<std::string> seeds, g_, r_); }
#define GW(name, al, seeds, expr, ref) { auto g_ = (expr); N r_ = (ref); grammar<char>(name, al, std::vector<std::string> seeds, g_, r_); grammar<wchar_t>(name, al, std::vector<std::string> seeds, g_, r_); }
#define S(...) { __VA_ARGS__ }
#if MON_PART(0)
MON_TEST(primitives) {
	GW("char_('a')", "ab\x7f ", S("a"), w::char_('a'), ch('a')) GW("char_", "ab\x01", S("a"), w::char_, any()) GW("range", "`amz{", S("m"), w::char_('a', 'z'), rg('a', 'z')) G("set", "abc-xyz9", S("x"), w::char_("cx9a"), set("cx9a")) G("set ranges", "abcdef-09wxyz_/:", S("c"), w::char_("b-dx0-8_"), set("bcdx012345678_")) G("one range set", "abcdz-", S("c"), w::char_("b-d"), set("bcd"))
	G("lit char", "ab", S("a"), w::lit('a'), lc('a')) GW("lit string", "abc", S("abc"), w::lit("abc"), lit("abc")) G("string", "abc", S("abc"), w::string("abc"), lit("abc", true)) GW("eps", "a", S("a"), w::eps, eps()) GW("eoi", "a", S("a"), w::eoi, eoi()) GW("eol", "\r\na", S("\r\n", "\n\r"), w::eol, eol())
	G("eol sequence", "\r\na", S("\r\n\n\r"), w::eol >> w::eol, eol() >> eol()) }
MON_TEST(classes) {
	std::string all; for (int i = 0; i < 128; ++i) all += (char)i;
#define CL(n) { auto g_ = w::n; N r_ = cls(std::is##n); for (int i = -128; i < 128; ++i) { text<char>(#n, g_, r_, std::string(1, (char)i)); if (i >= 0) text<wchar_t>(#n, g_, r_, std::string(1, (char)i)); } text<char>(#n, g_, r_, ""); }
	CL(alnum) CL(alpha) CL(blank) CL(cntrl) CL(digit) CL(graph) CL(lower) CL(print) CL(punct) CL(space) CL(upper) CL(xdigit) }
MON_TEST(char_results) {
	G("char sequence", "abc", S("ab", "abc"), w::char_('a') >> w::char_('b'), ch('a') >> ch('b')) G("char and unused", "abc:", S("a:b"), w::char_ >> ':' >> w::char_, any() >> lc(':') >> any()) G("leading unused", "abc:", S("[a", "ab"), '[' >> w::char_ , lc('[') >> any()) G("string sequence", "abcd", S("abcd"), w::string("ab") >> w::string("cd"), lit("ab", true) >> lit("cd", true)) G("string and char", "abcd", S("abc"), w::string("ab") >> w::char_ >> w::char_('a', 'c'), lit("ab", true) >> any() >> rg('a', 'c')) G("char and string", "abcd", S("xab"), w::char_ >> w::string("ab"), any() >> lit("ab", true))
	G("alternative", "abc", S("a", "b"), w::char_('a') | w::char_('b'), ch('a') | ch('b')) G("ordered choice", "abc", S("ab", "abc"), w::string("ab") | w::string("abc"), lit("ab", true) | lit("abc", true)) G("choice backtracks", "abcd", S("abd", "abc"), (w::string("ab") >> w::char_('c')) | (w::string("ab") >> w::char_('d')), (lit("ab", true) >> ch('c')) | (lit("ab", true) >> ch('d'))) G("choice of unused", "ab", S("a", "b"), w::lit('a') | w::lit('b'), lc('a') | lc('b')) G("choice with unused", "abc", S("a", "b"), w::char_('a') | 'b', ch('a') | lc('b')) G("choice with unused first", "abc", S("a", "b"), 'b' | w::char_('a'), lc('b') | ch('a')) G("choice of lengths", "abcx", S("abc", "x"), w::string("abc") | w::string("x"), lit("abc", true) | lit("x", true)) G("choice string or char", "abcx", S("abc", "x"), w::string("abc") | w::char_('x'), lit("abc", true) | ch('x')) }
#endif
#if MON_PART(1)
MON_TEST(repetition) { const auto D = w::limited::discard, C = w::limited::circular, O = w::limited::stopover;
	G("kleene unused", "ab", S("aaa", "aab"), *w::lit('a'), many(lc('a'), 0)) G("kleene unlimited", "ab", S("aaa"), *w::omit[w::char_('a')], many(ch('a'), 0)) G("kleene lim 3", "ab", S("aaaaa", "aab", "aaa"), *w::lim<3>(w::char_('a', 'b')), many(rg('a', 'b'), 0, 3, D)) G("kleene lim 1", "ab", S("aaaaa"), *w::lim<1>(w::char_('a', 'b')), many(rg('a', 'b'), 0, 1, D)) G("kleene circular", "abcx", S("abcabc", "abc", "ab"), *w::lim<3>(w::char_('a', 'c'), w::limited::circular), many(rg('a', 'c'), 0, 3, C)) G("kleene stopover", "abcx", S("abcabc", "abc", "ab"), *w::lim<3>(w::char_('a', 'c'), w::limited::stopover), many(rg('a', 'c'), 0, 3, O)) G("kleene circular 1", "abcx", S("abcabc"), *w::lim<1>(w::char_('a', 'c'), w::limited::circular), many(rg('a', 'c'), 0, 1, C))
	G("plus unused", "ab", S("aaa", "b"), +w::lit('a'), many(lc('a'), 1)) G("plus lim 3", "ab", S("aaaaa", "aab", "aaa"), +w::lim<3>(w::char_('a')), many(ch('a'), 1, 3, D)) G("plus circular", "abcx", S("abcabc"), +w::lim<4>(w::char_('a', 'c'), w::limited::circular), many(rg('a', 'c'), 1, 4, C)) G("plus stopover", "abcx", S("abcabc"), +w::lim<4>(w::char_('a', 'c'), w::limited::stopover), many(rg('a', 'c'), 1, 4, O)) G("plus unlimited", "ab", S("aaab"), +w::omit[w::char_('a')], many(ch('a'), 1)) G("two runs", "ab", S("aabbb"), *w::lim<3>(w::char_('a')) >> +w::lim<2>(w::char_('b')), many(ch('a'), 0, 3) >> many(ch('b'), 1, 2)) G("greedy", "ab", S("aaab", "aaa"), *w::omit[w::char_('a')] >> 'a', many(ch('a'), 0) >> lc('a'))
	G("kleene of sequence", "ab.", S("ab.ab."), *w::lim<3>(w::char_('a') >> w::char_('b') >> '.'), many(ch('a') >> ch('b') >> lc('.'), 0, 3)) G("kleene of strings", "abx", S("abxab"), *w::lim<3>(w::string("ab") | w::string("x")), many(lit("ab", true) | lit("x", true), 0, 3))
	G("optional", "ab", S("ab", "b"), -w::lit('a') >> w::char_('b'), opt(lc('a')) >> ch('b')) G("optional alone", "ab", S("a"), -w::lit("ab"), opt(lit("ab"))) G("optional sequence", "abc", S("abc", "c"), -(w::lit('a') >> 'b') >> 'c', opt(lc('a') >> lc('b')) >> lc('c')) }
MON_TEST(lists) { const auto D = w::limited::discard, C = w::limited::circular, O = w::limited::stopover;
	G("list unused", "a,b", S("a,a,a", "a,", "a,b"), w::lit('a') % ',', many(lc('a'), 1, inf, D, {}, lc(','))) G("list unlimited", "ab,", S("a,a,a", "a,,a"), w::omit[w::char_('a')] % ',', many(ch('a'), 1, inf, D, {}, lc(','))) G("list lim 3", "ab,", S("a,b,a,b", "a,b", "a,b,a", "a,b,a,", "a,"), w::lim<3>(w::char_('a', 'b')) % ',', many(rg('a', 'b'), 1, 3, D, {}, lc(','))) G("list circular", "abcd,", S("a,b,c,d,a", "a,b,c", "a,b,"), w::lim<3>(w::char_('a', 'd'), w::limited::circular) % ',', many(rg('a', 'd'), 1, 3, C, {}, lc(','))) G("list stopover", "abcd,", S("a,b,c,d,a", "a,b,c", "a,b,c,"), w::lim<3>(w::char_('a', 'd'), w::limited::stopover) % ',', many(rg('a', 'd'), 1, 3, O, {}, lc(','))) G("list then separator", "ab,", S("a,a,", "a,"), w::omit[w::char_('a')] % ',' >> ',', many(ch('a'), 1, inf, D, {}, lc(',')) >> lc(',')) G("list of ints", "12,;x", S("1,2,3", "12,7,", "1"), w::lim<4>(w::int_) % ',', many(num<std::intmax_t>(true, 10, 1, inf), 1, 4, D, { "i0" }, lc(','))) G("nested list", "12,;", S("1,2;3,4;5", "1,;2"), (w::omit[w::char_('1', '2')] % ',') % ';', many(many(rg('1', '2'), 1, inf, D, {}, lc(',')), 1, inf, D, {}, lc(';'))) }
MON_TEST(repeats) { const auto D = w::limited::discard;
	G("repeat 3", "ab", S("aaa", "aa", "aaaa"), w::repeat(3)[w::omit[w::char_('a')]], many(ch('a'), 3)) G("repeat 0", "ab", S("aaa", "b"), w::repeat(0)[w::omit[w::char_('a')]], many(ch('a'), 0)) G("repeat 1", "ab", S("aaa", "b"), w::repeat(1)[w::lit('a')], many(lc('a'), 1)) G("repeat 2 then", "ab", S("aab", "aaab"), w::repeat(2)[w::lit('a')] >> 'b', many(lc('a'), 2) >> lc('b')) G("repeat any", "ab", S("aaa", "b"), w::repeat[w::lit('a')], many(lc('a'), 0)) G("repeat 2 lim 4", "ab", S("aaaaaa", "aaaa", "aaa", "aa", "a"), w::repeat(2)[w::lim<4>(w::char_('a'))], many(ch('a'), 2, 4, D, {}, N(), 4)) G("repeat 3 lim 3", "ab", S("aaaa", "aaa", "aa"), w::repeat(3)[w::lim<3>(w::char_('a', 'b'))], many(rg('a', 'b'), 3, 3, D, {}, N(), 3)) G("repeat lim 2", "ab", S("aaaa", "aa", "a"), w::repeat[w::lim<2>(w::char_('a', 'b'))], many(rg('a', 'b'), 2, 2, D, {}, N(), 2)) G("repeat then more", "ab", S("aaab", "aab"), w::repeat(1)[w::lim<2>(w::char_('a'))] >> *w::lim<2>(w::char_('b')), many(ch('a'), 1, 2, D, {}, N(), 2) >> many(ch('b'), 0, 2)) }
#endif
#if MON_PART(2)
#define DG "0189afAFgx+- "
MON_TEST(numbers) {
#define NU(n, I, sg, rx, mn, mx, ...) G(#n, DG "234567", S(__VA_ARGS__), w::n, num<I>(sg, rx, mn, mx))
	NU(int_, std::intmax_t, true, 10, 1, inf, "9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "000000000000000000000000012", "+12", "-0", "12-") NU(int8, std::int8_t, true, 10, 1, 3, "127", "-128", "128", "1234", "-12x") NU(int16, std::int16_t, true, 10, 1, 5, "32767", "-32768", "99999", "123456") NU(int32, std::int32_t, true, 10, 1, 10, "2147483647", "-2147483648", "2147483648", "12345678901") NU(int64, std::int64_t, true, 10, 1, 19, "9223372036854775807", "-9223372036854775808", "12345678901234567890")
	NU(uint_, std::uintmax_t, false, 10, 1, inf, "18446744073709551615", "18446744073709551616", "00000000000000000000000000001") NU(uint8, std::uint8_t, false, 10, 1, 3, "255", "256", "1234") NU(uint16, std::uint16_t, false, 10, 1, 5, "65535", "65536", "123456") NU(uint32, std::uint32_t, false, 10, 1, 10, "4294967295", "4294967296", "12345678901") NU(uint64, std::uint64_t, false, 10, 1, 20, "18446744073709551615", "18446744073709551616", "123456789012345678901")
	NU(hex, std::uintmax_t, false, 16, 1, inf, "ffffffffffffffff", "0000000000000000000000ff", "DeadBeef", "1g") NU(hex8, std::uint8_t, false, 16, 1, 2, "ff", "1ff", "f") NU(hex32, std::uint32_t, false, 16, 1, 8, "ffffffff", "123456789") NU(hex8f, std::uint8_t, false, 16, 2, 2, "ff", "1ff", "f", "1x", "fg") NU(hex16f, std::uint16_t, false, 16, 4, 4, "ffff", "123", "123x", "12345") NU(hex64f, std::uint64_t, false, 16, 16, 16, "ffffffffffffffff", "123456789abcdef", "123456789abcdefx")
	NU(oct, std::uintmax_t, false, 8, 1, inf, "1777777777777777777777", "0008", "7") NU(oct8, std::uint8_t, false, 8, 1, 3, "377", "1234") NU(oct8f, std::uint8_t, false, 8, 3, 3, "377", "37", "378") NU(bin, std::uintmax_t, false, 2, 1, inf, "101101", "2", "12") NU(bin8, std::uint8_t, false, 2, 1, 8, "11111111", "110011001") NU(bin8f, std::uint8_t, false, 2, 8, 8, "11111111", "1111111", "1111111x", "1111111112") NU(bin16, std::uint16_t, false, 2, 1, 16, "1111111111111111", "11111111111111110") }
typedef w::int_p<int, 10, 2, 4> I24; typedef w::uint_p<unsigned, 10, 3, inf> U3; typedef w::uint_p<unsigned char, 10, 3, 5> U35; typedef w::int_p<long, 8, 1, 6> I7;
MON_TEST(digit_limits) { G("int_p<int,10,2,4>", DG "2", S("12", "1", "12345", "1x", "-12", "-1"), I24(), num<int>(true, 10, 2, 4)) G("uint_p<unsigned,10,3>", DG "2", S("123", "12", "12x", "000000000000123"), U3(), num<unsigned>(false, 10, 3, inf)) G("uint_p<unsigned char,10,3,5>", DG "2", S("123", "00123", "001234", "12x", "12"), U35(), num<unsigned char>(false, 10, 3, 5)) G("int_p<long,8,1,6>", DG "234567", S("666666", "1234567", "-67", "7"), I7(), num<long>(true, 8, 1, 6)) }
#endif
#if MON_PART(3)
MON_TEST(predicates) {
	G("difference", "ab:", S("ab:", ":"), *w::lim<4>(w::char_ - ':'), many(any() - lc(':'), 0, 4)) G("difference of strings", "abc", S("abc", "abb"), w::char_('a') - (w::lit('a') >> 'b'), ch('a') - (lc('a') >> lc('b'))) G("comment", "/*x", S("/*xx*/", "/*x*x*/", "/**/", "/* */ */"), "/*" >> *w::lim<8>(w::char_ - "*/") >> "*/", lit("/*") >> many(any() - lit("*/"), 0, 8) >> lit("*/")) G("not", "abc", S("ac", "ab"), w::char_('a') >> !w::lit('b'), ch('a') >> nt(lc('b'))) G("and", "abc", S("ab", "ac"), w::char_('a') >> &w::lit('b') >> w::char_, ch('a') >> at(lc('b')) >> any()) G("not not", "ab", S("a"), !!w::lit('a') >> w::char_, nt(nt(lc('a'))) >> any()) G("whole input", "ab", S("aa", "aab"), *w::lit('a') >> w::eoi, many(lc('a'), 0) >> eoi()) G("not eoi", "ab", S("aa"), *w::omit[w::char_ >> !w::eoi], many(any() >> nt(eoi()), 0)) G("a^n b^n lookahead", "ab", S("aab", "ab"), &(+w::lit('a') >> 'b') >> w::char_, at(many(lc('a'), 1) >> lc('b')) >> any()) }
MON_TEST(directives) {
	G("omit", "ab:", S("a:b"), w::omit[w::char_ >> ':'] >> w::char_, om(any() >> lc(':')) >> any()) G("remove space", " ab\n", S(" a b  ab "), *w::lim<6>(*w::omit[w::space] >> w::char_), many(many(om(cls(std::isspace)), 0) >> any(), 0, 6)) G("replace", "abc", S("ab", "b"), w::replace('X')[w::lit("ab")] | w::replace('Y')[w::lit('b')], rp(cleaf('X'), lit("ab")) | rp(cleaf('Y'), lc('b'))) G("replace with int", "abc", S("ab"), w::replace(42)[w::char_('a') >> w::char_('b')], rp("i42", ch('a') >> ch('b'))) G("kleene of replace", "abx", S("abxab"), *w::lim<5>(w::replace('1')[w::lit('a')] | w::replace('2')[w::lit("b")] | w::replace('3')[w::char_]), many(rp(cleaf('1'), lc('a')) | rp(cleaf('2'), lc('b')) | rp(cleaf('3'), any()), 0, 5)) G("as_array", "ab", S("ab"), w::as_array[w::char_('a')] >> w::as_array[w::char_('b')], ch('a') >> ch('b')) G("as_tuple", "ab:", S("ab:ba", "a:b"), w::as_tuple[*w::lim<4>(w::char_ - ':')] >> ':' >> w::as_tuple[*w::lim<3>(w::char_)], many(any() - lc(':'), 0, 4) >> lc(':') >> many(any(), 0, 3)) }
MON_TEST(mixed_attributes) {
	G("time", "0123:", S("12:34:56", "1:2:3", "12:34"), w::int_ >> ':' >> w::int_ >> ':' >> w::int_, num<std::intmax_t>(true, 10, 1, inf) >> lc(':') >> num<std::intmax_t>(true, 10, 1, inf) >> lc(':') >> num<std::intmax_t>(true, 10, 1, inf)) G("int and char", "12a+", S("12a", "12"), w::int_ >> w::char_, num<std::intmax_t>(true, 10, 1, inf) >> any()) G("char and int", "12a-", S("a12"), w::char_ >> w::int8, any() >> num<std::int8_t>(true, 10, 1, 3)) G("int char uint", "12a,", S("12,3"), w::int16 >> w::char_ >> w::uint8, num<std::int16_t>(true, 10, 1, 5) >> any() >> num<std::uint8_t>(false, 10, 1, 3)) G("int or char", "12a", S("12", "a"), w::int_ | w::char_, num<std::intmax_t>(true, 10, 1, inf) | any()) G("char or int", "12a", S("12", "a"), w::char_('a') | w::int_, ch('a') | num<std::intmax_t>(true, 10, 1, inf)) G("int or unused", "12a", S("12", "a"), w::int8 | 'a', num<std::int8_t>(true, 10, 1, 3) | (lc('a') >> [](T, std::size_t p) { return R{ true, p, { "i0" }, true }; })) G("kleene of ints", "12, ", S("1 2 3 4", "12 "), *w::lim<3>(w::int_ >> ' '), many(num<std::intmax_t>(true, 10, 1, inf) >> lc(' '), 0, 3, w::limited::discard, { "i0" })) G("pairs", "12=;", S("1=2;2=1;", "1=2;1="), *w::lim<2>(w::uint8 >> '=' >> w::uint8 >> ';'), many(num<std::uint8_t>(false, 10, 1, 3) >> lc('=') >> num<std::uint8_t>(false, 10, 1, 3) >> lc(';'), 0, 2, w::limited::discard, { "i0", "i0" })) G("kleene of tuples", "12ab", S("a1b2", "a1b"), *w::lim<3>(w::char_('a', 'b') >> w::uint8), many(rg('a', 'b') >> num<std::uint8_t>(false, 10, 1, 3), 0, 3, w::limited::discard, { "c0", "i0" })) }
MON_TEST(constant_expressions) { MON_CASE(c, "constant expression", 0); constexpr auto p = w::int_ >> ':' >> w::int_ >> ':' >> w::int_; static constexpr auto t = sprout::to_string("12:34:-9223372036854775808"); static constexpr auto r = w::parse(t.begin(), t.end(), p); c.ok(r.success() && r.current() == t.end(), "whole text"); c.ok(r.attr()[0] == 12 && r.attr()[1] == 34 && r.attr()[2] == std::numeric_limits<std::intmax_t>::min(), "values"); }
#endif
