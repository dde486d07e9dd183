// C12: sprout::basic_string_view (and its string_ref alias) against std::basic_string semantics, over views that end at a red zone.
#include <spr.hpp>
#include <src.hpp>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/utility/string_ref.hpp>
#include <sstream>
using namespace mon;
#if MON_PART(0)
typedef char T; typedef sprout::string_view SV; typedef sprout::string_ref SR; static char const* TN = "char ";
#elif MON_PART(1)
typedef wchar_t T; typedef sprout::wstring_view SV; typedef sprout::wstring_ref SR; static char const* TN = "wchar_t ";
#elif MON_PART(2)
typedef char16_t T; typedef sprout::u16string_view SV; typedef sprout::u16string_ref SR; static char const* TN = "char16_t ";
#else
typedef char32_t T; typedef sprout::u32string_view SV; typedef sprout::u32string_ref SR; static char const* TN = "char32_t ";
#endif
static_assert(std::is_same<SV, SR>::value && std::is_same<SV, sprout::basic_string_ref<T> >::value, "string_ref is an alias");
typedef std::basic_string<T> M;
static std::string nm(char const* op) { return std::string(TN) + op; }
static T gc(bool nul = true) { switch (rng().below(nul ? 12 : 11)) { case 0: case 1: case 2: case 3: return T('a'); case 4: case 5: case 6: return T('b'); case 7: return T('c'); case 8: return T(0xe9); case 9: return T(0x7f); case 10: return T(' '); default: return T(0); } }
static M gs(std::size_t n, bool nul = true) { M m; for (std::size_t i = 0; i < n; ++i) m += gc(nul); return m; }
static M mod(SV const& v) { return M(v.data(), v.size()); }
template<class C> void state(C& c, SV& v, M const& m, T const* p, char const* w) {
	SV const& k = v; c.eq((long)k.size(), (long)m.size(), w); if (k.size() != m.size()) return; c.eq(mod(k), m, w); c.ok(k.length() == m.size() && k.empty() == m.empty() && k.data() == p && k.c_str() == p, "length/empty/data"); M f, r, g; for (auto i = k.begin(); i != k.end(); ++i) f += *i; for (auto i = k.rbegin(); i != k.rend(); ++i) r += *i; for (auto i = v.begin(); i != v.end(); ++i) g += *i; c.eq(f, m, "begin..end"); c.eq(g, m, "mutable begin..end"); c.eq(M(r.rbegin(), r.rend()), m, "reverse"); M cf(k.cbegin(), k.cend()), cr(k.crbegin(), k.crend()); c.eq(cf, m, "cbegin"); c.eq(cr, r, "crbegin");
	if (!m.empty()) { std::size_t i = rng().below(m.size()); c.ok(k.front() == m.front() && k.back() == m.back() && k[i] == m[i] && k.at(i) == m[i] && &k[i] == p + i, "element access"); } throws<std::out_of_range>(c, [&] { k.at(m.size() + rng().below(3)); }, "at");
}
static void search(M const& m, M const& x) {
	Buf<T> am(m), raw(x), cs(M(x + T())); SV const a(am.p, m.size()), b(raw.p, x.size()); M xc(cs.p); SV const bt(cs.p, x.size()); std::size_t const npos = SV::npos;
	std::vector<std::size_t> ps; for (std::size_t p = 0; p <= m.size() + 2; ++p) ps.push_back(p); ps.push_back(npos); ps.push_back(npos - 1); T ch = x.empty() ? gc() : x[0];
	for (std::size_t p : ps) { MON_CASE(c, nm("find family"), m, x, p);
#define F(FN) c.eq(a.FN(b, p), m.FN(x, p), #FN "(view,pos)"); c.eq(a.FN((T const*)raw.p, p, x.size()), m.FN(x.data(), p, x.size()), #FN "(p,pos,n)"); c.eq(a.FN((T const*)cs.p, p), m.FN(xc, p), #FN "(cstr,pos)"); c.eq(a.FN(ch, p), m.FN(ch, p), #FN "(c,pos)"); c.eq(a.FN(b.begin(), p, x.size()), m.FN(x, p), #FN "(it,pos,n)"); c.eq(a.FN(bt.begin(), p), m.FN(xc, p), #FN "(it,pos)");
		F(find) F(rfind) F(find_first_of) F(find_last_of) F(find_first_not_of) F(find_last_not_of)
#undef F
	}
	{ MON_CASE(c, nm("find family defaults"), m, x);
#define F(FN) c.eq(a.FN(b), m.FN(x), #FN "(view)"); c.eq(a.FN((T const*)cs.p), m.FN(xc), #FN "(cstr)"); c.eq(a.FN(ch), m.FN(ch), #FN "(c)"); c.eq(a.FN(bt.begin()), m.FN(xc), #FN "(it)");
		F(find) F(rfind) F(find_first_of) F(find_last_of) F(find_first_not_of) F(find_last_not_of)
#undef F
	}
	auto sg = [](int v) { return v < 0 ? -1 : v > 0; };
	{ MON_CASE(c, nm("compare"), m, x); c.eq(sg(a.compare(b)), sg(m.compare(x)), "compare(view)"); c.eq(sg(a.compare((T const*)cs.p)), sg(m.compare(xc)), "compare(cstr)"); c.eq(sg(a.compare(bt.begin())), sg(m.compare(xc)), "compare(it)"); T const* p = cs.p;
		c.eq(a == b, m == x, "=="); c.eq(a != b, m != x, "!="); c.eq(a < b, m < x, "<"); c.eq(a > b, m > x, ">"); c.eq(a <= b, m <= x, "<="); c.eq(a >= b, m >= x, ">=");
		c.eq(a == p, m == xc, "== p"); c.eq(a != p, m != xc, "!= p"); c.eq(a < p, m < xc, "< p"); c.eq(a > p, m > xc, "> p"); c.eq(a <= p, m <= xc, "<= p"); c.eq(a >= p, m >= xc, ">= p"); c.eq(p == a, xc == m, "p =="); c.eq(p != a, xc != m, "p !="); c.eq(p < a, xc < m, "p <"); c.eq(p > a, xc > m, "p >"); c.eq(p <= a, xc <= m, "p <="); c.eq(p >= a, xc >= m, "p >=");
		c.eq(a.starts_with(b), m.compare(0, x.size(), x) == 0 && x.size() <= m.size(), "starts_with(view)"); c.eq(a.ends_with(b), x.size() <= m.size() && m.compare(m.size() - x.size(), x.size(), x) == 0, "ends_with(view)"); c.eq(a.starts_with(ch), !m.empty() && m[0] == ch, "starts_with(c)"); c.eq(a.ends_with(ch), !m.empty() && m.back() == ch, "ends_with(c)");
		if (m == x) c.ok(sprout::to_hash(a) == sprout::to_hash(b) && std::hash<SV>()(a) == std::hash<SV>()(b), "equal views hash equally"); }
	for (std::size_t p = 0; p <= m.size() + 1; ++p) for (std::size_t n : {std::size_t(0), std::size_t(1), m.size() / 2, m.size(), npos - 1, npos}) { MON_CASE(c, nm("substr/compare/copy at"), m, x, p, n); bool in = p <= m.size();
		if (in) { SV s = a.substr(p, n); state(c, s, m.substr(p, n), am.p + p, "substr"); c.eq(sg(a.compare(p, n, b)), sg(m.compare(p, n, x)), "compare(pos,n,view)"); c.eq(sg(a.compare(p, n, (T const*)cs.p)), sg(m.compare(p, n, xc)), "compare(pos,n,cstr)"); c.eq(sg(a.compare(p, n, (T const*)raw.p, x.size())), sg(m.compare(p, n, x)), "compare(pos,n,p,n2)"); c.eq(sg(a.compare(p, n, b.begin(), x.size())), sg(m.compare(p, n, x)), "compare(pos,n,it,n2)"); c.eq(sg(a.compare(p, n, bt.begin())), sg(m.compare(p, n, xc)), "compare(pos,n,it)");
			Buf<T> out(m.size() - p < n ? m.size() - p : n, T('#')); c.eq(a.copy(out.p, n, p), out.n, "copy"); c.eq(M(out.p, out.n), m.substr(p, n), "copied");
			std::size_t q = rng().below(x.size() + 1), n2 = rng().coin(1, 3) ? npos : rng().below(4); c.eq(sg(a.compare(p, n, b, q, n2)), sg(m.compare(p, n, x, q, n2)), "compare(pos,n,view,pos,n)"); throws<std::out_of_range>(c, [&] { (void)a.compare(p, n, b, x.size() + 1, n2); });
		} else { throws<std::out_of_range>(c, [&] { a.substr(p, n); }, "substr"); throws<std::out_of_range>(c, [&] { (void)a.compare(p, n, b); }, "compare"); throws<std::out_of_range>(c, [&] { (void)a.compare(p, n, (T const*)cs.p); }, "compare cstr"); T o; throws<std::out_of_range>(c, [&] { a.copy(&o, 1, p); }, "copy"); }
	}
}
MON_TEST(search) { for (int l = 0; l <= 4; ++l) for (int k = 0; k <= 2; ++k) all_seqs(l, 2, [&](std::vector<int> const& v) { all_seqs(k, 2, [&](std::vector<int> const& u) { M m, x; for (int i : v) m += T('a' + i); for (int i : u) x += T('a' + i); search(m, x); }); });
	for (std::uint64_t r = 0; r < reps(500); ++r) { M m = gs(rng().below(13)); M x = rng().coin() && !m.empty() ? m.substr(rng().below(m.size()), rng().below(6)) : gs(rng().below(5)); search(m, x); } for (std::uint64_t r = 0; r < reps(60); ++r) { search(gs(rng().below(4)), gs(rng().below(9))); } for (std::uint64_t r = 0; r < reps(4); ++r) { M m = gs(60); search(m, m.substr(rng().below(50), 7)); } }
MON_TEST(slice) {
	for (std::uint64_t r = 0; r < reps(3000); ++r) { // histories of narrowing operations
		M full = gs(rng().below(14)); Buf<T> b(full); SV v(b.p, b.n); M m = full; T const* p = b.p;
		for (int st_ = 0; st_ < 5; ++st_) { std::size_t n = rng().below(6); SV const& k = v; M o = m;
			switch (rng().below(7)) {
			case 0: { MON_CASE(c, nm("remove_prefix"), o, n); v.remove_prefix(n); n = std::min(n, m.size()); m.erase(0, n); p += n; state(c, v, m, p, "remove_prefix"); break; }
			case 1: { MON_CASE(c, nm("remove_suffix"), o, n); v.remove_suffix(n); n = std::min(n, m.size()); m.resize(m.size() - n); state(c, v, m, p, "remove_suffix"); break; }
			case 2: { MON_CASE(c, nm("remove_prefix const"), o, n); SV z = k.remove_prefix(n); n = std::min(n, m.size()); M w = m.substr(n); state(c, z, w, p + n, "remove_prefix"); state(c, v, m, p, "source"); break; }
			case 3: { MON_CASE(c, nm("remove_suffix const"), o, n); SV z = k.remove_suffix(n); n = std::min(n, m.size()); M w = m.substr(0, m.size() - n); state(c, z, w, p, "remove_suffix"); state(c, v, m, p, "source"); break; }
			case 4: { std::size_t q = rng().below(m.size() + 1); MON_CASE(c, nm("substr chain"), o, q, n); v = v.substr(q, n); m = m.substr(q, n); p += q; state(c, v, m, p, "substr"); break; }
			case 5: { M y = gs(rng().below(5)); Buf<T> yb(y); SV z(yb.p, yb.n); MON_CASE(c, nm("swap"), o, y); if (n & 1) v.swap(z); else { using sprout::swap; swap(v, z); } state(c, v, y, yb.p, "swap"); state(c, z, m, p, "swap other"); v = z; state(c, v, m, p, "assign"); break; }
			default: if (rng().coin(1, 6)) { MON_CASE(c, nm("clear"), o); v.clear(); m.clear(); state(c, v, m, p, "clear"); }
			}
		}
	}
}
MON_TEST(build) {
	{ MON_CASE(c, nm("default")); SV v; c.ok(v.size() == 0 && v.empty() && v.begin() == v.end(), "empty"); }
	for (std::uint64_t r = 0; r < reps(1500); ++r) { M y = gs(rng().below(9), false), z = gs(rng().below(9)); Buf<T> cs(M(y + T())), b(z); sprout::basic_string<T, 8> s; for (T ch : z) s.push_back(ch); std::basic_string<T, sprout::char_traits<T> > ss(z.data(), z.size());
		MON_CASE(c, nm("construct/convert"), y, z); SV v1((T const*)cs.p); state(c, v1, y, cs.p, "cstr"); SV v2(s); state(c, v2, z, s.data(), "sprout string"); SV v3(ss); state(c, v3, z, ss.data(), "std string"); SV v4(b.p, b.n); state(c, v4, z, b.p, "ptr,len"); SV v5(v4); state(c, v5, z, b.p, "copy");
		SV t1 = sprout::to_string_view((T const*)cs.p); state(c, t1, y, cs.p, "to_string_view"); SV t2 = sprout::to_string_view((T const*)b.p, b.n); state(c, t2, z, b.p, "to_string_view n"); SV t3 = sprout::to_string_view(s); state(c, t3, z, s.data(), "to_string_view s"); SV t4 = sprout::to_string_view(v4); state(c, t4, z, b.p, "to_string_view v"); SV t5 = sprout::to_string_view(ss); state(c, t5, z, ss.data(), "to_string_view ss");
		SV q1 = sprout::to_string_ref((T const*)cs.p); state(c, q1, y, cs.p, "to_string_ref"); SV q2 = sprout::to_string_ref((T const*)b.p, b.n); state(c, q2, z, b.p, "to_string_ref n"); SV q3 = sprout::to_string_ref(s); state(c, q3, z, s.data(), "to_string_ref s"); SV q4 = sprout::to_string_ref(v4); state(c, q4, z, b.p, "to_string_ref v");
		sprout::basic_string<T, 8> bs = v4.template to_string<8>(); c.eq(M(bs.data(), bs.size()), z, "to_string<N>"); sprout::basic_string<T, 12> bs2(static_cast<sprout::basic_string<T, 12> >(v4)); c.eq(M(bs2.data(), bs2.size()), z, "conversion to basic_string"); auto st2 = v4.to_string(); c.eq(M(st2.data(), st2.size()), z, "to_string"); std::basic_string<T, sprout::char_traits<T> > st3(static_cast<std::basic_string<T, sprout::char_traits<T> > >(v4)); c.eq(M(st3.data(), st3.size()), z, "conversion to std::basic_string");
		if (z.size() > 3) throws<std::length_error>(c, [&] { v4.template to_string<3>(); }, "to_string<N> overflow"); else c.eq(mod(SV(v4.template to_string<3>())), z, "to_string<3>");
#if MON_PART(0) || MON_PART(1)
		int w = (int)rng().below(12); std::basic_ostringstream<T> o1, o2; if (r & 1) { o1.setf(std::ios::left, std::ios::adjustfield); o2.setf(std::ios::left, std::ios::adjustfield); } o1.width(w); o2.width(w); o1 << v4 << T('|'); o2 << z << T('|'); c.eq(o1.str(), o2.str(), "stream output");
#endif
	}
	{ using namespace sprout::literals; MON_CASE(c, nm("literal")); c.eq("ab\0c"_sv.size(), std::size_t(4), "char"); c.ok("ab\0c"_sv[3] == 'c', "char"); c.ok(L"wx"_sv.size() == 2 && L"wx"_sv[1] == L'x' && u"yz"_sv.size() == 2 && u"yz"_sv[0] == u'y' && U"\0"_sv.size() == 1, "other literals"); }
}
