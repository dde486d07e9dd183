// Bridges between Sprout containers and std::vector.
#ifndef SPR_HPP
#define SPR_HPP
#include <mon.hpp>
#include <sprout/config.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
namespace mon {
	template<class T, std::size_t N, class C> sprout::array<T, N> arr(C const& v, T const& pad = T()) { sprout::array<T, N> a = {{}}; std::size_t k = 0; for (auto const& x : v) { if (k >= N) break; a[k++] = x; } for (; k < N; ++k) a[k] = pad; return a; }
	template<class C> auto vec(C const& c) -> std::vector<typename std::decay<decltype(*c.begin())>::type> { std::vector<typename std::decay<decltype(*c.begin())>::type> r; for (auto i = c.begin(); i != c.end(); ++i) r.push_back(*i); return r; }
	inline std::vector<Tag> tags(std::vector<int> const& v, int base) { std::vector<Tag> r; int i = base; for (int k : v) r.push_back(Tag(k, i++)); return r; }
	template<class C> std::vector<std::pair<int, int> > idsof(C const& c) { std::vector<std::pair<int, int> > r; for (auto i = c.begin(); i != c.end(); ++i) r.push_back(std::make_pair((*i).key, (*i).id)); return r; }
	// call f with an integral_constant for the N of a list
	template<std::size_t... N> struct sizes { template<class F> static void each(F& f) { int d[] = {0, (f(std::integral_constant<std::size_t, N>()), 0)...}; (void)d; } };
}
#endif
