// C41: tribool against the Kleene truth tables (exhaustive) and its stream protocol against a table of texts.
#include <mon.hpp>
#include <sstream>
#include <locale>
#include <iomanip>
#include <unordered_set>
#include <sprout/logic/tribool.hpp>
#include <sprout/functional/hash.hpp>
using namespace mon;
namespace L = sprout::logic;
typedef L::tribool T;
// reference: 0 false, 1 true, 2 unknown
inline int rnot(int a) { return a == 2 ? 2 : 1 - a; }
inline int rand_(int a, int b) { return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : 2; }
inline int ror(int a, int b) { return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : 2; }
inline int req(int a, int b) { return a == 2 || b == 2 ? 2 : a == b ? 1 : 0; }
inline int rne(int a, int b) { return rnot(req(a, b)); }
inline int val(T t) { return t.value == T::false_value ? 0 : t.value == T::true_value ? 1 : t.value == T::indeterminate_value ? 2 : 99; }
inline int val(bool b) { return b; }
inline T mk(int a) { return a == 2 ? T(L::indeterminate) : T(a == 1); }
template<class K, class A, class B> void ops(K& c, A a, B b, int x, int y, std::string n) {
	c.eq(val(a && b), rand_(x, y), n + " &&"); c.eq(val(a || b), ror(x, y), n + " ||"); c.eq(val(a == b), req(x, y), n + " =="); c.eq(val(a != b), rne(x, y), n + " !=");
	T l = mk(x); l = a && b; c.eq(val(l), rand_(x, y), n + " assigned &&"); if (a && b) c.eq(rand_(x, y), 1, n + " taken branch &&"); else c.ok(rand_(x, y) != 1, n + " untaken branch &&"); if (a || b) c.eq(ror(x, y), 1, n + " taken branch ||"); else c.ok(ror(x, y) != 1, n + " untaken branch ||"); if (a == b) c.eq(req(x, y), 1, n + " taken branch =="); else c.ok(req(x, y) != 1, n + " untaken branch =="); if (a != b) c.eq(rne(x, y), 1, n + " taken branch !="); else c.ok(rne(x, y) != 1, n + " untaken branch !="); }
MON_TEST(one_operand) { MON_CASE(d, "default", 0); d.eq(val(T()), 0, "default is false"); for (int a = 0; a < 3; ++a) { MON_CASE(c, "operand", a); T t = mk(a); c.eq(val(t), a, "value"); c.eq(val(!t), rnot(a), "!"); c.eq(val(!!t), a, "!!"); c.eq(L::indeterminate(t), a == 2, "indeterminate"); c.eq(static_cast<bool>(t), a == 1, "conversion"); c.eq(t ? 1 : 0, a == 1 ? 1 : 0, "condition"); c.eq((!t) ? 1 : 0, a == 0 ? 1 : 0, "negated condition"); int n = 0; if (t) n |= 1; if (!t) n |= 2; if (L::indeterminate(t)) n |= 4; c.eq(n, a == 1 ? 1 : a == 0 ? 2 : 4, "exactly one of the three branches"); T u; u = t; c.eq(val(u), a, "copy"); for (int b = 0; b < 3; ++b) { T w = mk(b); w = t; c.eq(val(w), a, "assignment"); if (a < 2) { w = mk(b); w = (a == 1); c.eq(val(w), a, "assignment from bool"); } else { w = mk(b); w = L::indeterminate; c.eq(val(w), 2, "assignment from the keyword"); } }
	c.eq(sprout::hash<T>()(t), sprout::hash<T>()(mk(a)), "hash"); c.eq(std::hash<T>()(t), sprout::to_hash(mk(a)), "std::hash"); c.eq(sprout::to_hash(!!t), sprout::to_hash(t), "hash of a computed value"); for (int b = 0; b < 3; ++b) if (b != a) c.ok(sprout::to_hash(mk(b)) != sprout::to_hash(t), "the three hashes differ"); } }
MON_TEST(two_operands) { for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { MON_CASE(c, "operands", a, b); ops(c, mk(a), mk(b), a, b, "tribool,tribool"); if (b < 2) ops(c, mk(a), b == 1, a, b, "tribool,bool"); if (a < 2) ops(c, a == 1, mk(b), a, b, "bool,tribool"); if (b == 2) ops(c, mk(a), L::indeterminate, a, b, "tribool,keyword"); if (a == 2) ops(c, L::indeterminate, mk(b), a, b, "keyword,tribool");
	c.eq(val(!(mk(a) && mk(b))), val(!mk(a) || !mk(b)), "De Morgan"); for (int d = 0; d < 3; ++d) { c.eq(val((mk(a) && mk(b)) || mk(d)), ror(rand_(a, b), d), "nested"); c.eq(val(mk(a) && (mk(b) || mk(d))), rand_(a, ror(b, d)), "nested"); c.eq(val((mk(a) == mk(b)) != mk(d)), rne(req(a, b), d), "nested"); } } }
#ifdef CX
MON_TEST(constant_expressions) { MON_CASE(c, "constant expressions", 0); constexpr T u(L::indeterminate), t(true), f(false); constexpr T r[] = { u && t, u && f, u || t, u || f, !u, u == t, u != f, t == t, t != t, f && u, t || u }; constexpr bool b = L::indeterminate(u), e = static_cast<bool>(t && !f); int w[] = { 2, 0, 1, 2, 2, 2, 2, 1, 0, 0, 1 }; for (int i = 0; i < 11; ++i) c.eq(val(r[i]), w[i], "entry " + std::to_string(i)); c.ok(b && e, "booleans"); }
#endif
// ---------------------------------------------------------------- streams
template<class Ch> std::basic_string<Ch> wi(std::string const& s) { return std::basic_string<Ch>(s.begin(), s.end()); }
template<class Ch> struct Names : std::numpunct<Ch> { std::string t, f; Names(std::string a, std::string b) : t(a), f(b) {} std::basic_string<Ch> do_truename() const override { return wi<Ch>(t); } std::basic_string<Ch> do_falsename() const override { return wi<Ch>(f); } };
struct Loc { char const* f; char const* t; char const* u; bool facet; };
static Loc const locs[] = { { "false", "true", "indeterminate", false }, { "false", "true", "maybe", true }, { "nein", "ja", "vielleicht", true }, { "no", "yes", "indeterminate", false }, { "fa", "fb", "fc", true }, { "off", "on", "open", true }, { "inno", "inja", "indeterminate", false } };
template<class Ch> std::locale mkloc(Loc const& l) { std::locale a = std::locale::classic(); if (std::string(l.t) != "true" || std::string(l.f) != "false") a = std::locale(a, new Names<Ch>(l.t, l.f)); if (l.facet) a = std::locale(a, new L::indeterminate_name<Ch>(wi<Ch>(l.u))); return a; }
template<class Ch> void out(Loc const& l, int li, int a, bool alpha, int width, bool kw) { MON_CASE(c, "output", li, a, alpha, width, sizeof(Ch), kw); std::basic_ostringstream<Ch> o; o.imbue(mkloc<Ch>(l)); if (alpha) o << std::boolalpha; o.fill(Ch('*')); o.width(width); if (kw) o << L::indeterminate; else o << mk(a); std::string w = alpha ? a == 0 ? l.f : a == 1 ? l.t : l.u : std::string(1, (char)('0' + a)); std::string p = (int)w.size() < width ? std::string(width - w.size(), '*') + w : w; c.ok(o.str() == wi<Ch>(p), "text"); c.ok(o.good(), "state"); c.eq((long)o.width(), 0l, "width reset");
	std::basic_istringstream<Ch> i(wi<Ch>(w + " ")); i.imbue(mkloc<Ch>(l)); if (alpha) i >> std::boolalpha; for (int b = 0; b < 3; ++b) { i.clear(); i.seekg(0); T t = mk(b); c.ok(static_cast<bool>(i >> t), "reads back"); c.eq(val(t), a, "read value"); } }
template<class Ch> void in(Loc const& l, int li, std::string const& s, bool alpha) { MON_CASE(c, "input", li, alpha, sizeof(Ch), s); std::vector<int> want; std::vector<int> got; bool wf = false; 
	// model: skip blanks, then one complete name (or one integer 0..2) per extraction
	std::size_t p = 0; while (p < s.size() && s[p] == ' ') ++p; int v = -1; std::size_t e = p; if (alpha) { char const* nm[3] = { l.f, l.t, l.u }; for (int k = 0; k < 3; ++k) { std::string n(nm[k]); if (s.compare(p, n.size(), n) == 0) { v = k; e = p + n.size(); } } } else { std::size_t q = p; bool neg = false; if (q < s.size() && (s[q] == '-' || s[q] == '+')) neg = s[q++] == '-'; std::size_t ds = q; double x = 0; while (q < s.size() && std::isdigit((unsigned char)s[q])) x = x * 10 + (s[q++] - '0'); if (q > ds && (!neg || x == 0) && x <= 2) v = (int)x; e = q; }
	wf = v >= 0; (void)want; (void)got; for (int b = 0; b < 3; ++b) { std::basic_istringstream<Ch> i(wi<Ch>(s)); i.imbue(mkloc<Ch>(l)); if (alpha) i >> std::boolalpha; T t = mk(b); i >> t; c.eq(!i.fail(), wf, "accepted"); c.eq(val(t), wf ? v : b, "value"); if (wf) { std::basic_string<Ch> rest; Ch ch; i.clear(); while (i.get(ch)) rest += ch; c.ok(rest == wi<Ch>(s.substr(e)), "rest of the text"); } } }
template<class Ch> void all() { for (int li = 0; li < 7; ++li) { Loc const& l = locs[li]; for (int a = 0; a < 3; ++a) for (int al = 0; al < 2; ++al) for (int w : { 0, 1, 3, 20 }) { out<Ch>(l, li, a, al, w, false); if (a == 2) out<Ch>(l, li, a, al, w, true); }
	std::vector<std::string> ns = { l.f, l.t, l.u, "0", "1", "2", "3", "-1", "10", "00", "+1", "-0", "99999999999999999999", "", " ", "x", "indeterminat", "truly", "tru", "t" }; for (auto const& n : ns) for (std::string pre : { "", " ", "   " }) for (std::string suf : { "", " ", "x", "1", ".5", " true", "e" }) for (int al = 0; al < 2; ++al) in<Ch>(l, li, pre + n + suf, al); for (char const* n : { l.f, l.t, l.u }) { std::string s(n); for (std::size_t k = 0; k <= s.size(); ++k) { in<Ch>(l, li, s.substr(0, k), true); for (char x : { 'z', ' ', s[0] }) { std::string t = s; if (k < t.size()) t[k] = x; in<Ch>(l, li, t, true); in<Ch>(l, li, s.substr(0, k) + x, true); } } }
	for (std::uint64_t k = 0; k < reps(60); ++k) { std::string s; char const* nm[3] = { l.f, l.t, l.u }; int parts = (int)rng().range(1, 3); for (int j = 0; j < parts; ++j) { std::string n(nm[rng().below(3)]); s += n.substr(0, rng().coin(1, 3) ? rng().below(n.size() + 1) : n.size()); } in<Ch>(l, li, s, true); } } }
MON_TEST(streams_char) { all<char>(); }
MON_TEST(streams_wchar_t) { all<wchar_t>(); }
MON_TEST(sequence_of_values) { for (std::uint64_t k = 0; k < reps(100); ++k) { std::vector<int> v(rng().below(12)); for (auto& x : v) x = (int)rng().below(3); bool al = rng().coin(); MON_CASE(c, "sequence", al, v); std::stringstream s; if (al) s << std::boolalpha; for (int x : v) s << mk(x) << ' '; std::vector<int> r; T t; while (s >> t) r.push_back(val(t)); c.ok(r == v, "written values come back"); } }
