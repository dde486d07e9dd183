import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='#include <cstdio>\n#include <vector>\n#include <string>\n#include <list>\n#include <algorithm>\n#include <random>\n'
seed('C03a','C03','sprout/algorithm/cxx14/inplace_merge.hpp',[('first_cut = sprout::upper_bound(first, middle, *second_cut, comp);','first_cut = sprout::lower_bound(first, middle, *second_cut, comp);')],
H+'''#include <sprout/algorithm/cxx14/inplace_merge.hpp>
struct E { int k, id; }; struct L { bool operator()(E const& a, E const& b) const { return a.k < b.k; } };
int main() { std::mt19937 g(1); for (int t = 0; t < 2000; ++t) { int n = g() % 6, m = n + g() % 9; std::vector<E> v; for (int i = 0; i < m; ++i) v.push_back({int(g() % 3), i}); std::stable_sort(v.begin(), v.begin() + n, L()); std::stable_sort(v.begin() + n, v.end(), L());
 std::vector<E> w(v); sprout::inplace_merge(v.begin(), v.begin() + n, v.end(), L()); std::inplace_merge(w.begin(), w.begin() + n, w.end(), L()); for (int i = 0; i < m; ++i) if (v[i].id != w[i].id) return 1; } return 0; }
''','equivalent distinguishable elements, left half not longer than the right half','inplace_merge is not stable')
seed('C05a','C05','sprout/algorithm/fixed/unique_copy.hpp',[('''					? !(head == *first)
						? unique_copy_impl(sprout::next(first), last, result, size, *first, args..., head)
						: unique_copy_impl(sprout::next(first), last, result, size, head, args...)''','''					? !(head == *first)
						? unique_copy_impl(sprout::next(first), last, result, size, *first, args..., head)
						: unique_copy_impl(sprout::next(first), last, result, size, *first, args...)''')],
H+'''#include <sprout/array.hpp>
#include <sprout/algorithm/fixed/unique_copy.hpp>
struct E { int k, id; constexpr bool operator==(E const& o) const { return k == o.k; } };
int main() { sprout::array<E,4> a = {{{1,10},{1,11},{2,12},{3,13}}}; auto r = sprout::fixed::unique_copy<sprout::array<E,3> >(a.begin(), a.end()); return r[0].id == 10 && r[1].id == 12 && r[2].id == 13 ? 0 : 1; }
''','elements that are equal yet distinguishable','unique_copy keeps the last instead of the first of equal elements')
seed('C06a','C06','sprout/algorithm/cxx14/sample.hpp',[('''				param_type const p(0, pop_size);''','''				param_type const p(0, pop_size - 1);''')],
H+'''#include <sprout/random.hpp>
#include <sprout/algorithm/cxx14/sample.hpp>
#include <sstream>
#include <iterator>
int main() { sprout::random::mt19937 g(5); int c = 0; for (int t = 0; t < 64; ++t) { std::istringstream s("1 2"); int o[1] = {0}; sprout::sample(std::istream_iterator<int>(s), std::istream_iterator<int>(), o, 1, g); c += o[0] == 1; } return c > 10 && c < 54 ? 0 : 1; }
''','sampling from an input-iterator population (reservoir)','early elements are selected with too small probability')
seed('C07a','C07','sprout/numeric/fixed/adjacent_difference.hpp',[('size, *first, args..., binary_op(*first, value))','size, binary_op(*first, value), args..., binary_op(*first, value))')],
H+'''#include <sprout/array.hpp>
#include <sprout/numeric/fixed/adjacent_difference.hpp>
struct M { constexpr int operator()(int a, int b) const { return a - b; } };
int main() { sprout::array<int,4> a = {{1,3,10,11}}; auto r = sprout::fixed::adjacent_difference(a.begin(), a.end(), a, M()); return r[1] == 2 && r[2] == 7 && r[3] == 1 ? 0 : 1; }
''','user-supplied operation and at least three elements','adjacent_difference with an operation combines with the previous result')
seed('C08a','C08','sprout/numeric/fft/fixed/fft.hpp',[('''					(sprout::math::less(Indexes, size)
						? *sprout::next(first, Indexes)''','''					(!sprout::math::less(size, Indexes)
						? *sprout::next(first, Indexes)''')],
H+'''#include <sprout/array.hpp>
#include <sprout/complex.hpp>
#include <sprout/numeric/fft/fixed/fft.hpp>
int main() { typedef sprout::complex<double> C; sprout::array<C,4> a = {{C(1),C(2),C(3),C(100)}}; auto r = sprout::fixed::fft(a.begin(), a.begin() + 3, sprout::array<C,4>()); return r[0].real() < 6.5 && r[0].real() > 5.5 ? 0 : 1; }
''','input range shorter than the transform (zero padding)','fft reads one element past the end of its input instead of padding')
seed('C09a','C09','sprout/sub_array/sub_array.hpp',[('''			sprout::swap(other.impl_.array_, impl_.array_);
			sprout::swap(other.impl_.to_first_, impl_.to_first_);
			sprout::swap(other.impl_.to_last_, impl_.to_last_);''','''			sprout::swap(other.impl_.array_, impl_.array_);
			sprout::swap(other.impl_.to_last_, impl_.to_last_);''')],
H+'''#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
int main() { sprout::array<int,5> a = {{1,2,3,4,5}}, b = {{6,7,8,9,10}}; typedef sprout::sub_array<sprout::array<int,5> > S; S s(a, 1, 3), t(b, 2, 5); s.swap(t); return s.size() == 3 && s[0] == 8 && t.size() == 2 && t[0] == 2 ? 0 : 1; }
''','swapping sub_arrays with different offsets','swap leaves the begin offsets behind')
seed('C10a','C10','sprout/operation/fixed/insert_n.hpp',[('(Indexes - pos) % (1 + sizeof...(Values)), v, values...','(Indexes - pos) / N, v, values...')],
H+'''#include <sprout/array.hpp>
#include <sprout/operation/fixed/insert_n.hpp>
int main() { sprout::array<int,2> a = {{1,2}}; auto r = sprout::fixed::insert_n<2>(a, 1, 7, 8); return r[1] == 7 && r[2] == 8 && r[3] == 7 && r[4] == 8 && r[5] == 2 ? 0 : 1; }
''','several values inserted more than once','insert_n repeats each value instead of the sequence of values')
seed('C11a','C11','sprout/string/string.hpp',[('sprout::swap_ranges(other.begin(), other.begin() + other.max_size(), begin());','sprout::swap_ranges(other.begin(), other.end(), begin());')],
H+'''#include <sprout/string.hpp>
int main() { sprout::string<8> a("abcdef"), b("xy"); a.swap(b); return std::string(b.c_str()) == "abcdef" && std::string(a.c_str()) == "xy" ? 0 : 1; }
''','swapping with a shorter string','swap exchanges only as many characters as the other string holds')
