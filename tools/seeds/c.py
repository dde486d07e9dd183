import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='#include <cstdio>\n#include <vector>\n#include <string>\n#include <list>\n#include <algorithm>\n#include <random>\n#include <cstring>\n'
seed('C12a','C12','sprout/string/detail/find.hpp',[('''			return n == 0 ? (pos <= len ? pos : String::npos)
				: n <= len ?''','''			return n == 0 ? (pos <= len ? pos : String::npos)
				: n <= len || pos < len ?''')],
H+'''#include <sprout/utility/string_view.hpp>
int main() { char const* t = "abcdef"; sprout::string_view v(t, 3); return v.find("bcde") == sprout::string_view::npos ? 0 : 1; }
''','needle longer than the viewed text, with the text continuing behind the view','find reads behind the end of the view')
seed('C13a','C13','sprout/bitset/bitset.hpp',[('find_next_impl_2(not_found, begin() + (i + 1), end(), i + 1)','find_next_impl_2(not_found, begin() + (i + 1), end() - 1, i + 1)')],
H+'''#include <sprout/bitset.hpp>
int main() { sprout::bitset<200> b; b.set(3); b.set(70); b.set(195); return b.find_next(3) == 70 && b.find_next(70) == 195 ? 0 : 1; }
''','the next set bit lies in the last word, the previous one in an earlier word','find_next overlooks the last word')
seed('C14a','C14','sprout/valarray/valarray.hpp',[('sprout::fixed::rotate(*this, begin() + (size() - 1 - static_cast<std::size_t>(-(i + 1)) % size()))','sprout::fixed::rotate(*this, begin() + (size() - static_cast<std::size_t>(-i) % size()) % size())'),('static_cast<std::size_t>(-(i + 1)) + 1 < size() ? sprout::fixed::copy_backward(','static_cast<std::size_t>(-(i + 1)) < size() - 1 ? sprout::fixed::copy_backward(')],
H+'''#include <sprout/valarray.hpp>
int main() { sprout::valarray<int,4> v{1,2,3}; v.resize(0); auto w = v.shift(-1); return w.size() == 0 ? 0 : 1; }
''','shift of an empty valarray / cshift by INT_MIN','shift of an empty valarray to the right reads outside') if 0 else None
seed('C15a','C15','sprout/optional/optional.hpp',[('''			sprout::swap(init, other.init);
			sprout::swap(val, other.val);''','''			if (init != other.init) {
				sprout::swap(init, other.init);
			}
			if (init || other.init) {
				sprout::swap(init ? val : other.val, init ? other.val : val);
			}''')],
'','','') if 0 else None
seed('C15a','C15','sprout/optional/comparison.hpp',[('''	template<typename T>
	inline SPROUT_CONSTEXPR bool
	operator<=(sprout::optional<T> const& lhs, sprout::nullopt_t) SPROUT_NOEXCEPT {
		return !lhs;''','''	template<typename T>
	inline SPROUT_CONSTEXPR bool
	operator<=(sprout::optional<T> const&, sprout::nullopt_t) SPROUT_NOEXCEPT {
		return true;''')],
H+'''#include <sprout/optional.hpp>
int main() { sprout::optional<int> o(3); return !(o <= sprout::nullopt) ? 0 : 1; }
''','comparison of an engaged optional with nullopt by <=','an engaged optional counts as <= nullopt')
seed('C16a','C16','sprout/variant/variant.hpp',[('''				|| (lhs.which_ == rhs.which_ && lt<0>(lhs.tuple_, rhs.tuple_, lhs.which_))''','''				|| (!(rhs.which_ < 0) && lt<0>(lhs.tuple_, rhs.tuple_, lhs.which_))''')],
H+'''#include <sprout/variant.hpp>
int main() { typedef sprout::variant<int, double> V; V a(5), b(-1.5); return !(b < a) && (a < b) ? 0 : 1; }
''','different alternatives, the later one below its default value','operator< of variants holding different alternatives is not an ordering')
seed('C17a','C17','sprout/tuple/tuple/comparison.hpp',[('''						|| (!(sprout::tuples::get<I>(u) < sprout::tuples::get<I>(t))''','''						|| ((sprout::tuples::get<I>(t) == sprout::tuples::get<I>(u))''')],
H+'''#include <sprout/tuple.hpp>
struct K { int k, id; bool operator<(K const& o) const { return k < o.k; } bool operator==(K const& o) const { return k == o.k && id == o.id; } };
int main() { sprout::tuple<K, int> a(K{1, 2}, 3), b(K{1, 7}, 4); return a < b ? 0 : 1; }
''','leading elements that are equivalent under < but not ==','tuple ordering stops at equivalent but unequal elements')
seed('C18a','C18','sprout/iterator/step_iterator.hpp',[('''			sprout::swap(current, other.current);
			sprout::swap(last, other.last);
			sprout::swap(wid, other.wid);
			sprout::swap(back, other.back);''','''			sprout::swap(current, other.current);
			sprout::swap(last, other.last);
			sprout::swap(back, other.back);''')],
H+'''#include <sprout/iterator/step_iterator.hpp>
int main() { int a[] = {0,1,2,3,4,5,6}; typedef sprout::step_iterator<int*> I; I x(a, 2, a + 7), y(a, 3, a + 7); x = y; return *(x + 1) == 3 ? 0 : 1; }
''','assignment or swap of step iterators with different widths','assignment keeps the old step width')
seed('C19a','C19','sprout/range/adaptor/dropped_end.hpp',[('NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(rhs.distance(), -sprout::size(sprout::lvalue_forward<Range>(lhs)))','NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(rhs.distance(), 1 - sprout::size(sprout::lvalue_forward<Range>(lhs)))')],
'','','') if 0 else None
seed('C25a','C25','sprout/complex/sqrt.hpp',[('return x.real() > T(0) ? sprout::complex<T>(u, x.imag() / t)','return sprout::math::abs(x.real()) > T(0) ? sprout::complex<T>(u, x.imag() / t)')],
'','','') if 0 else None
seed('C25a','C25','sprout/complex/sqrt.hpp',[('sprout::complex<T>(sprout::math::abs(x.imag()) / t, sprout::math::signbit(x.imag()) ? -u : u)','sprout::complex<T>(sprout::math::abs(x.imag()) / t, x.imag() < T(0) ? -u : u)')],
H+'''#include <sprout/complex.hpp>
#include <complex>
int main() { auto r = sprout::sqrt(sprout::complex<double>(-4.0, -0.0)); return r.imag() < 0 ? 0 : 1; }
''','negative real part with a negative zero imaginary part','sqrt is on the wrong side of the branch cut')
seed('C26a','C26','sprout/rational/comparison.hpp',[('(r1 != IntType(0)) != static_cast<bool>(reverse ^ 1)','(r1 != IntType(0)) != true')],
H+'''#include <sprout/rational.hpp>
int main() { typedef sprout::rational<int> R; R v[] = {R(1,2), R(2,5), R(3,7), R(1,3), R(5,2), R(7,3), R(0), R(2)}; for (auto a : v) for (auto b : v) if ((a < b) != (a.numerator() * b.denominator() < b.numerator() * a.denominator())) return 1; return 0; }
''','continued fractions ending at odd depth','ordering of rationals is wrong when one expansion ends at odd depth')
