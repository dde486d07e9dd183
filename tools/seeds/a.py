import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='#include <cstdio>\n#include <vector>\n#include <string>\n#include <list>\n#include <algorithm>\n'
seed('C01a','C01','sprout/algorithm/find_end.hpp',[('''				: n == 1 ? sprout::detail::find_end_impl_check_bi(
					current, first1,
					sprout::detail::search_one_rev(first1, current.first, first2, last2, pred)''','''				: n == 1 ? sprout::detail::find_end_impl_check_bi(
					current, first1,
					sprout::detail::search_one_rev(sprout::next(first1), current.first, first2, last2, pred)''')],
H+'''#include <sprout/algorithm/find_end.hpp>
int main() { std::list<int> a; for (int i : {1,2,3,4,5}) a.push_back(i); std::list<int> b; b.push_back(1); b.push_back(2);
 auto r = sprout::find_end(a.begin(), a.end(), b.begin(), b.end()); return r == a.begin() ? 0 : 1; }
''','bidirectional iterators and the only match at the very beginning','find_end over bidirectional iterators ignores a match at the first position')
seed('C02a','C02','sprout/algorithm/fixed/set_union.hpp',[('''									: sprout::fixed::detail::set_union_impl(
										sprout::next(first1), last1, sprout::next(first2), last2, result, comp,
										size, args..., *first1
										)''','''									: sprout::fixed::detail::set_union_impl(
										sprout::next(first1), last1, sprout::next(first2), last2, result, comp,
										size, args..., *first2
										)''')],
H+'''#include <sprout/array.hpp>
#include <sprout/algorithm/fixed/set_union.hpp>
struct E { int k, id; }; struct L { constexpr bool operator()(E const& a, E const& b) const { return a.k < b.k; } };
int main() { sprout::array<E,2> a = {{{1,10},{2,11}}}, b = {{{1,20},{3,21}}}; auto r = sprout::fixed::set_union<sprout::array<E,3> >(a.begin(), a.end(), b.begin(), b.end(), L()); return r[0].id == 10 && r[1].id == 11 && r[2].id == 21 ? 0 : 1; }
''','equivalent but distinguishable elements','set_union takes equivalent elements from the second range')
seed('C03a','C03','sprout/algorithm/cxx14/partial_sort.hpp',[('if (comp(*i, *first)) {','if (!comp(*first, *i)) {')],
H+'''#include <sprout/algorithm/cxx14/partial_sort.hpp>
int main() { return 0; }
''','x','x') if 0 else None
seed('C04a','C04','sprout/algorithm/cxx14/rotate.hpp',[('''				} else if (first == middle) {
					middle = first2;
				}
			}
		}
		return result;''','''				}
			}
		}
		return result;''')],
H+'''#include <sprout/algorithm/cxx14/rotate.hpp>
int main() { for (int n = 1; n < 12; ++n) for (int m = 0; m <= n; ++m) { std::vector<int> v(n); for (int i = 0; i < n; ++i) v[i] = i; std::vector<int> w(v); sprout::rotate(v.begin(), v.begin() + m, v.end()); std::rotate(w.begin(), w.begin() + m, w.end()); if (v != w) return 1; } return 0; }
''','particular length/split combinations','rotate stops before the permutation is complete or loops')
