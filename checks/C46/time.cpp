// C46: calendar time against the C library; compile-time predicates over type lists against loops.
#include <mon.hpp>
#include <ctime>
#include <cstring>
#include <sprout/ctime.hpp>
#include <sprout/tpp/algorithm.hpp>
using namespace mon;
static std::time_t ref(long y, int mo, int d, long h, long mi, long s) { std::tm t; std::memset(&t, 0, sizeof t); t.tm_year = (int)(y - 1900); t.tm_mon = mo - 1; t.tm_mday = 1; return ::timegm(&t) + (std::time_t)(d - 1) * 86400 + h * 3600 + mi * 60 + s; }
static int mdays(long y, int m) { static int const k[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return k[m - 1] + (m == 2 && (y % 4 == 0) && (y % 100 != 0 || y % 400 == 0)); }
#if MON_PART(0)
MON_TEST(days) { long n = 0; std::time_t prev = 0; for (long y = 1; y <= 2800; ++y) for (int m = 1; m <= 12; ++m) for (int d = 1; d <= mdays(y, m); ++d) { std::time_t g = sprout::to_time_t((int)y, m, d, 0, 0, 0); if (n && g != prev + 86400) { MON_CASE(c, "to_time_t every day", y, m, d); c.ok(false, "the day after has the next day's time"); } prev = g; ++n; if (d == 1) { MON_CASE(c, "to_time_t", y, m, d); c.ok(g == ref(y, m, d, 0, 0, 0), "to_time_t is the C library's timegm"); } } count("consecutive days", n); }
MON_TEST(times) { for (std::uint64_t i = 0; i < reps(20000); ++i) { long y; switch (rng().below(4)) { case 0: y = 1 + (long)rng().below(9999); break; case 1: y = 1969 + (long)rng().below(70); break; case 2: y = 100 * (1 + (long)rng().below(99)) + (long)rng().below(3) - 1; break; default: y = 1 + (long)rng().below(5000000); } int m = 1 + (int)rng().below(12), d = rng().coin() ? 1 + (int)rng().below(mdays(y, m)) : mdays(y, m), h = (int)rng().below(24), mi = (int)rng().below(60), s = (int)rng().below(61); MON_CASE(c, "to_time_t", y, m, d, h, mi, s); std::time_t w = ref(y, m, d, h, mi, s); count("times", 1); c.ok(sprout::to_time_t((int)y, m, d, h, mi, s) == w, "to_time_t of numbers");
	std::tm t; std::memset(&t, 0, sizeof t); t.tm_year = (int)(y - 1900); t.tm_mon = m - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s; c.ok(sprout::to_time_t(t) == w, "to_time_t of std::tm"); std::tm q; if (s < 60 && ::gmtime_r(&w, &q)) c.ok(sprout::to_time_t(q) == w, "to_time_t undoes gmtime");
	if (y <= 9999) { static char const* const mn[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; char a[32], b[32]; std::snprintf(a, sizeof a, "%s %2d %04ld", mn[m - 1], d, y); std::snprintf(b, sizeof b, "%02d:%02d:%02d", h, mi, s); std::vector<char> u(a, a + 11), v(b, b + 8); char const* up = u.data(); char const* vp = v.data(); c.ok(sprout::to_time_t(up, vp) == w, "to_time_t of texts"); c.ok(sprout::to_time_t(std::string(a).begin(), std::string(b).begin()) == w, "to_time_t of text iterators"); count("texts", 1); }
	long k = (long)rng().below(2) ? (long)(1L << 52) : 1L << 33; std::time_t x = rng().range(-k, k), z = rng().range(-k, k); c.ok(sprout::difftime(x, z) == std::difftime(x, z), "difftime"); }
	constexpr std::time_t ct = sprout::to_time_t(2000, 2, 29, 12, 0, 0), cd = sprout::to_time_t("Feb 29 2000", "12:00:00"); MON_CASE(c, "constant time", 0); c.ok(ct == ref(2000, 2, 29, 12, 0, 0) && cd == ct, "constant to_time_t"); }
#endif
#if MON_PART(1)
template<unsigned V, unsigned N, class... B> struct Bits : Bits<(V >> 1), N - 1, std::integral_constant<bool, V & 1>, B...> {};
template<unsigned V, class... B> struct Bits<V, 0, B...> { static void run(unsigned orig) { MON_CASE(c, "predicates over types", orig, sizeof...(B)); int k = 0; bool a[] = {false, B::value...}; for (bool x : a) k += x; int n = sizeof...(B); count("type lists", 1);
	c.ok(sprout::tpp::all_of<B...>::value == (k == n), "all_of"); c.ok(sprout::tpp::any_of<B...>::value == (k > 0), "any_of"); c.ok(sprout::tpp::none_of<B...>::value == (k == 0), "none_of"); c.ok(sprout::tpp::one_of<B...>::value == (k == 1), "one_of");
	c.ok(sprout::tpp::all_of_c<B::value...>::value == (k == n), "all_of_c"); c.ok(sprout::tpp::any_of_c<B::value...>::value == (k > 0), "any_of_c"); c.ok(sprout::tpp::none_of_c<B::value...>::value == (k == 0), "none_of_c"); c.ok(sprout::tpp::one_of_c<B::value...>::value == (k == 1), "one_of_c"); } };
template<unsigned N, unsigned V> struct All { static void run() { Bits<V, N>::run(V); All<N, V - 1>::run(); } }; template<unsigned N> struct All<N, 0> { static void run() { Bits<0, N>::run(0); } };
MON_TEST(predicates) { All<0, 0>::run(); All<1, 1>::run(); All<2, 3>::run(); All<3, 7>::run(); All<4, 15>::run(); All<5, 31>::run(); All<6, 63>::run(); All<7, 127>::run(); Bits<0, 17>::run(0); Bits<(1u << 16), 17>::run(1u << 16); Bits<1, 17>::run(1); Bits<0x1ffff, 17>::run(0x1ffff); Bits<0x10100, 17>::run(0x10100); Bits<0x1feff, 17>::run(0x1feff); }
template<unsigned V, unsigned N, long... D> struct Digs : Digs<V / 4, N - 1, (long)(V * 2654435761u >> 20 & 7) * (V & 1 ? 1 : -1), D...> {};
template<unsigned V, long... D> struct Digs<V, 0, D...> { template<long X> using I = std::integral_constant<long, X>; static void run(unsigned orig) { long a[] = {D...}; MON_CASE(c, "extremes over types", orig, std::vector<long>(a, a + sizeof...(D))); long mn = a[0], mx = a[0]; for (long x : a) { mn = std::min(mn, x); mx = std::max(mx, x); } count("value lists", 1); c.ok(sprout::tpp::min_element<I<D>...>::value == mn, "min_element"); c.ok(sprout::tpp::max_element<I<D>...>::value == mx, "max_element"); c.ok(sprout::tpp::min_element_c<long, D...>::value == mn, "min_element_c"); c.ok(sprout::tpp::max_element_c<long, D...>::value == mx, "max_element_c"); } };
template<unsigned N, unsigned V> struct AllD { static void run() { Digs<V * 977 + N, N>::run(V); AllD<N, V - 1>::run(); } }; template<unsigned N> struct AllD<N, 0> { static void run() { Digs<N, N>::run(0); } };
MON_TEST(extremes) { AllD<1, 20>::run(); AllD<2, 40>::run(); AllD<3, 40>::run(); AllD<4, 40>::run(); AllD<5, 60>::run(); AllD<7, 60>::run(); AllD<12, 40>::run(); }
#endif
