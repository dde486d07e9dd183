// C36: brainfuck, ook and misa against a reference interpreter and reference translators.
#include <mon.hpp>
#include <string>
#include <stdexcept>
#include <sprout/brainfuck/brainfuck.hpp>
#include <sprout/brainfuck/ook.hpp>
#include <sprout/brainfuck/misa.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
#include <sprout/pit.hpp>
using namespace mon;
namespace bf = sprout::brainfuck;
enum End { normal, no_output_room, no_input, off_tape, too_long };
struct Run { End end; std::vector<long> out; long steps; int hi; bool loose; };
// reference: tape of TAPE cells of type V, head movement is free, touching a cell off the tape is an error (a value read into such a cell is either an error or dropped)
template<class V> Run ref(std::basic_string<V> const& p, std::vector<V> const& in, bool endless, std::size_t tape, std::size_t outn, long limit) {
	Run r; r.end = normal; r.steps = 0; r.hi = 0; r.loose = false; std::vector<std::size_t> jump(p.size()), st; for (std::size_t i = 0; i < p.size(); ++i) { if (p[i] == V('[')) st.push_back(i); else if (p[i] == V(']')) { jump[i] = st.back(); jump[st.back()] = i; st.pop_back(); } }
	std::vector<V> t(tape); long pos = 0; std::size_t ip = 0; std::size_t k = 0; for (std::size_t i = 0; i < p.size(); ++i) { ++r.steps; if (r.steps >= limit) { r.end = too_long; return r; } V c = p[i]; bool on = pos >= 0 && pos < (long)tape; bool use = c == V('+') || c == V('-') || c == V('.') || c == V(',') || c == V('[') || c == V(']');
		if (c == V('.') && k == outn) { r.end = no_output_room; return r; } if (c == V(',') && !endless && ip == in.size()) { r.end = no_input; return r; } if (c == V(',') && !on) { r.loose = true; if (!endless) ++ip; continue; } if (use && !on) { r.end = off_tape; return r; }
		if (c == V('>')) ++pos; else if (c == V('<')) --pos; else if (c == V('+')) t[pos] = V(t[pos] + 1); else if (c == V('-')) t[pos] = V(t[pos] - 1); else if (c == V('.')) { r.out.push_back((long)t[pos]); ++k; } else if (c == V(',')) { t[pos] = endless ? V() : in[ip++]; } else if (c == V('[')) { if (t[pos] == 0) i = jump[i]; } else if (c == V(']')) { if (t[pos] != 0) i = jump[i]; } if (pos > r.hi) r.hi = (int)pos; }
	return r; }
inline std::string gen(int depth, int len) { auto& g = rng(); std::string s; for (int i = 0; i < len; ++i) { unsigned k = (unsigned)g.below(20); if (k < 4) s += '+'; else if (k < 6) s += std::string(1 + g.below(6), '+'); else if (k < 9) s += '-'; else if (k < 11) s += '>'; else if (k < 12) s += '<'; else if (k < 14) s += '.'; else if (k == 14) s += ','; else if (k == 15) s += "x #]["[g.below(3)]; else if (depth > 0) { switch (g.below(6)) { case 0: s += "[" + gen(depth - 1, (int)g.below(5)) + "]"; break; case 1: s += "[>" + gen(depth - 1, (int)g.below(3)) + "<-]"; break; case 2: s += "[->" + gen(depth - 1, (int)g.below(3)) + "+<]"; break; case 3: s += "[-" + gen(depth - 1, (int)g.below(3)) + "]"; break; case 4: s += "[]"; break; default: s += "+++[>+++<-]>."; } } else s += '+'; } return s; }
template<class V> void feed(std::vector<V>& in) { std::size_t n = (std::size_t)rng().below(8); for (std::size_t i = 0; i < n; ++i) in.push_back(V(rng().coin(1, 4) ? 0 : rng().below(130))); }
template<class C> std::vector<long> vec(C const& c) { std::vector<long> v; for (auto const& x : c) v.push_back((long)x); return v; }
static char const* const ends[] = { "normal", "no output room", "no input", "off tape", "too long" };
template<class K, class F> void expect(K& c, Run const& r, std::size_t outn, std::vector<long> fill, F f, std::string n) { std::vector<long> w = fill; for (std::size_t i = 0; i < r.out.size(); ++i) w[i] = r.out[i]; (void)outn; try { std::vector<long> g = f(); c.ok(r.end == normal, n + " returned but the program ends with: " + ends[r.end]); if (r.end == normal) c.eq(g, w, n + " output"); } catch (std::out_of_range const&) { c.ok(r.end != normal || r.loose, n + " reported a limit but the program ends normally"); } }
template<std::size_t T, std::size_t O, class V> void prog(std::basic_string<V> const& p, std::vector<V> const& in) {
	Run r = ref<V>(p, in, false, T, O, 700), z = ref<V>(p, std::vector<V>(), true, T, O, 700), y = ref<V>(p, std::vector<V>(), true, T, T, 700); if (r.end == too_long || z.end == too_long || y.end == too_long) return; MON_CASE(c, "program <" + std::to_string(sizeof(V)) + "," + std::to_string(T) + "," + std::to_string(O) + ">", std::string(p.begin(), p.end()), in.size(), vec(in)); Buf<V> b(p), ib(in); V const* f = b.p; V const* l = b.p + b.n;
	std::vector<long> zero(O); typedef sprout::array<V, O> A; expect(c, r, O, zero, [&] { return vec(bf::exec<T>(f, l, sprout::pit<A>(), (V const*)ib.p, (V const*)ib.p + ib.n)); }, "exec"); expect(c, z, O, zero, [&] { return vec(bf::exec<T>(f, l, sprout::pit<A>())); }, "exec without input"); expect(c, y, T, std::vector<long>(T), [&] { return vec(bf::exec<T>(f, l)); }, "exec of the source only");
	sprout::array<int, O> pre; std::vector<long> fl; for (std::size_t i = 0; i < O; ++i) { pre[i] = 1000 + (int)i; fl.push_back(1000 + (long)i); } expect(c, r, O, fl, [&] { return vec(bf::exec<T>(f, l, pre, in.begin(), in.end())); }, "exec into an array"); expect(c, r, O, fl, [&] { return vec(bf::exec_range<T>(p, pre, in)); }, "exec_range"); expect(c, z, O, zero, [&] { return vec(bf::exec_range<T>(p, sprout::pit<A>())); }, "exec_range without input"); }
template<class V> void one(std::string const& s) { std::basic_string<V> p(s.begin(), s.end()); std::vector<V> in; feed(in); switch (rng().below(3)) { case 0: prog<32, 8, V>(p, in); break; case 1: prog<4, 3, V>(p, in); break; default: prog<1, 16, V>(p, in); } }
inline bool wf(std::string const& s) { long d = 0; for (char ch : s) { if (ch == '[') ++d; if (ch == ']' && --d < 0) return false; } return d == 0; }
#if MON_PART(0)
MON_TEST(fixed_programs) { for (char const* s : { "", "+.", "-.", "[.]", "[-]", "+[-.]", "++[->++<]>.", ",.", ",[.,]", ",[->+>+<<]>.>.", "++++[>++++<-]>[<++>-]<.", "+++[>+++[>++<-]<-]>>.", "<>+.", "<", "<+", ">>>>+", ">+<.>.", "++[-[]]", "[[]]+.", "[[[+]]].", "[+[+]+]+.", "+[[-]]-.", "-[+]", ".........", "+[.+]", ",,,,,,,,,,", "++++++++[>++++[>++>+++>+++>+<<<<-]>+>+>->>+[<]<-]>>.>---.", "+[>+]", "+[<+]", "a.b+c-d[e]f." }) for (int k = 0; k < 12; ++k) { one<char>(s); one<char16_t>(s); one<wchar_t>(s); } }
MON_TEST(random_programs) { for (std::uint64_t k = 0; k < reps(2500); ++k) { std::string s = gen(3, 1 + (int)rng().below(12)); one<char>(s); if (rng().coin(1, 3)) one<char16_t>(s); if (rng().coin(1, 3)) one<wchar_t>(s); } }
MON_TEST(wrap_around) { for (int n : { 127, 128, 129, 200, 255, 256, 257, 300 }) { prog<4, 3, char>(std::string(n, '+') + ".", {}); prog<4, 3, char>(std::string(n, '-') + ".", {}); prog<4, 3, char16_t>(std::u16string(n, u'+') + u'.', {}); prog<4, 3, char16_t>(std::u16string(n, u'-') + u'.', {}); } }
MON_TEST(well_formedness) { for (std::uint64_t k = 0; k < reps(2000); ++k) { std::string s; std::size_t n = (std::size_t)rng().below(14); for (std::size_t i = 0; i < n; ++i) s += "[]+.[]"[rng().below(6)]; if (rng().coin(1, 3)) s = gen(3, 4); MON_CASE(c, "brackets", s); Buf<char> b(s); c.eq(bf::is_well_formed((char const*)b.p, (char const*)b.p + b.n), wf(s), "is_well_formed"); std::basic_string<wchar_t> w(s.begin(), s.end()); c.eq(bf::is_well_formed(w.begin(), w.end()), wf(s), "is_well_formed of wide text"); } }
MON_TEST(constant_expressions) { MON_CASE(c, "constant expression", 0); constexpr auto src = sprout::to_string("+++[>++<-]>."); constexpr auto r = bf::exec_range<8>(src, sprout::pit<sprout::array<char, 4>>()); c.ok(r[0] == 6 && r[1] == 0 && r[2] == 0, "output"); }
#endif
#if MON_PART(1)
static char const cmds[] = "><+-.,[]";
inline std::string ook_ref(std::string const& s, std::size_t n) { static char const* a[] = { "Ook.", "Ook?", "Ook.", "Ook!", "Ook!", "Ook.", "Ook!", "Ook?" }; static char const* b[] = { "Ook?", "Ook.", "Ook.", "Ook!", "Ook.", "Ook!", "Ook?", "Ook!" }; std::string r; for (std::size_t i = 0; i < s.size();) { bool hit = false; for (int k = 0; k < 8 && !hit; ++k) if (s.compare(i, 4, a[k]) == 0) { std::size_t j = i + 4; while (j < s.size() && (s[j] == ' ' || (s[j] >= 9 && s[j] <= 13))) ++j; if (s.compare(j, 4, b[k]) == 0) { r += cmds[k]; i = j + 4; hit = true; } } if (!hit) { r += ' '; ++i; } } if (r.size() > n) r.resize(n); return r; }
inline std::string misa_ref(std::string const& s, std::size_t n) { static std::vector<std::vector<std::string>> t = { { ">", "\x81\xA8", "\x81\x60", "\x81\x5B" }, { "<", "\x81\xA9", "\x81\x9A", "\x81\x99" }, { "+", "\x82\xA0", "\x82\x9F", "\x82\xA8", "\x82\xA7" }, { "-", "\x82\xC1", "\x83\x62" }, { ".", "\x81\x49" }, { ",", "\x81\x48" }, { "[", "\x81\x75", "\x81\x77" }, { "]", "\x81\x76", "\x81\x78" } }; std::string r; for (std::size_t i = 0; i < s.size();) { bool hit = false; for (int k = 0; k < 8 && !hit; ++k) for (auto const& x : t[k]) if (s.compare(i, x.size(), x) == 0) { r += cmds[k]; i += x.size(); hit = true; break; } if (!hit) { r += ' '; ++i; } } if (r.size() > n) r.resize(n); return r; }
inline std::string to_ook(std::string const& p) { static char const* t[] = { "Ook.|Ook?", "Ook?|Ook.", "Ook.|Ook.", "Ook!|Ook!", "Ook!|Ook.", "Ook.|Ook!", "Ook!|Ook?", "Ook?|Ook!" }; std::string r; bool sp = rng().coin(); for (char ch : p) { char const* q = ch ? std::strchr(cmds, ch) : nullptr; if (q) { std::string x = t[q - cmds]; std::string gap = rng().coin() ? " " : rng().coin() ? "" : " \n\t"; x.replace(4, 1, gap); r += x; if (sp && rng().coin()) r += ' '; } else r += ch; } return r; }
inline std::string to_misa(std::string const& p) { static std::vector<std::vector<std::string>> t = { { ">", "\x81\xA8", "\x81\x60", "\x81\x5B" }, { "<", "\x81\xA9", "\x81\x9A", "\x81\x99" }, { "+", "\x82\xA0", "\x82\x9F", "\x82\xA8", "\x82\xA7" }, { "-", "\x82\xC1", "\x83\x62" }, { ".", "\x81\x49" }, { ",", "\x81\x48" }, { "[", "\x81\x75", "\x81\x77" }, { "]", "\x81\x76", "\x81\x78" } }; std::string r; for (char ch : p) { char const* q = ch ? std::strchr(cmds, ch) : nullptr; if (q) r += rng().pick(t[q - cmds]); else r += ch; } return r; }
template<std::size_t N, class F, class G> void trans(std::string const& s, F f, G g, char const* n) { MON_CASE(c, n, s); Buf<char> b(s); std::string w = g(s, N); auto r = f((char const*)b.p, (char const*)b.p + b.n); c.ok(r.second, "every text translates"); std::string got(r.first.begin(), r.first.end()); c.ok(got == w + std::string(N - w.size(), '\0'), "translation: got " + got + " want " + w); }
template<std::size_t N, class P> void texts(P mk, char const* n) {
	typedef sprout::array<char, N> A; bool ook = n[0] == 'o'; for (int k = 0; k < 8; ++k) for (int j = 0; j < 8; ++j) mk(std::string() + cmds[k] + cmds[j]); (void)ook; (void)sizeof(A); }
inline std::string rp(int m) { std::string s; int n = (int)rng().below(m); for (int i = 0; i < n; ++i) s += rng().coin(1, 7) ? "xO k.?!"[rng().below(7)] : cmds[rng().below(8)]; return s; }
inline std::string noise(std::string s) { if (s.empty() || rng().coin()) return s; std::size_t i = (std::size_t)rng().below(s.size()); switch (rng().below(3)) { case 0: s.erase(i, 1); break; case 1: s.insert(i, 1, "O!?. k\x81"[rng().below(7)]); break; default: s[i] = "O!?. k\x82"[rng().below(7)]; } return s; }
typedef sprout::array<char, 20> R;
struct Ook { template<class I> auto operator()(I f, I l) const -> decltype(bf::ook::to_brainfuck(f, l, sprout::pit<R>())) { return bf::ook::to_brainfuck(f, l, sprout::pit<R>()); } };
struct Misa { template<class I> auto operator()(I f, I l) const -> decltype(bf::misa::to_brainfuck(f, l, sprout::pit<R>())) { return bf::misa::to_brainfuck(f, l, sprout::pit<R>()); } };
MON_TEST(ook_translation) { auto one = [](std::string const& s) { trans<20>(s, Ook(), ook_ref, "ook text"); }; for (int k = 0; k < 8; ++k) for (int j = 0; j < 8; ++j) one(to_ook(std::string() + cmds[k] + cmds[j])); for (std::uint64_t k = 0; k < reps(300); ++k) one(noise(to_ook(rp(16)))); one(""); one("Ook."); one("Ook.Ook"); one("Ook. "); }
MON_TEST(misa_translation) { auto one = [](std::string const& s) { trans<20>(s, Misa(), misa_ref, "misa text"); }; for (int r = 0; r < 8; ++r) for (int k = 0; k < 8; ++k) for (int j = 0; j < 8; ++j) one(to_misa(std::string() + cmds[k] + cmds[j])); for (std::uint64_t k = 0; k < reps(300); ++k) one(noise(to_misa(rp(26)))); one(""); one("\x81"); for (int a = 0; a < 256; ++a) for (char p : { '\x81', '\x82', '\x83' }) one(std::string() + p + (char)a); }
template<std::size_t N> sprout::array<char, N> pad(std::string const& s) { sprout::array<char, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = i < s.size() ? s[i] : ' '; return a; }
MON_TEST(execution) { for (std::uint64_t k = 0; k < reps(120); ++k) { std::string p = gen(1, 1 + (int)rng().below(3)); std::string m = to_misa(p); std::vector<char> in; feed(in); bool ook = rng().coin(); std::string t = ook ? to_ook(p) : to_misa(p); const std::size_t N = 40; if (t.size() > N) { p = p.substr(0, 4); if (!wf(p)) p = "+."; t = ook ? to_ook(p) : to_misa(p); if (t.size() > N) continue; }
	std::string q = ook ? ook_ref(t, N) : misa_ref(t, N); if (!wf(q)) continue; Run r = ref<char>(q, in, false, 6, 5, 500), z = ref<char>(q, {}, true, 6, 5, 500); if (r.end == too_long || z.end == too_long) continue; MON_CASE(c, ook ? "ook program" : "misa program", t, vec(in)); auto a = pad<N>(t); typedef sprout::array<char, 5> O; std::vector<long> zero(5); if (ook) { expect(c, r, 5, zero, [&] { return vec(bf::ook::exec_range<6>(a, sprout::pit<O>(), in)); }, "exec_range"); expect(c, z, 5, zero, [&] { return vec(bf::ook::exec_range<6>(a, sprout::pit<O>())); }, "exec_range without input"); } else { expect(c, r, 5, zero, [&] { return vec(bf::misa::exec_range<6>(a, sprout::pit<O>(), in)); }, "exec_range"); expect(c, z, 5, zero, [&] { return vec(bf::misa::exec_range<6>(a, sprout::pit<O>())); }, "exec_range without input"); } } }
#endif
