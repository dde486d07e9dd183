import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='#include <cstdio>\n#include <vector>\n#include <string>\n#include <list>\n#include <algorithm>\n#include <random>\n#include <cstring>\n#include <sstream>\n#include <cmath>\n'
seed('C18b','C18','sprout/iterator/alternate_iterator.hpp',[('alternate_iterator(sprout::prev(current1), sprout::prev(current2), false)','alternate_iterator(sprout::prev(current1), current2, false)')],
H+'''#include <sprout/iterator/alternate_iterator.hpp>
#include <sprout/iterator/operation.hpp>
int main() { int a[4] = {1, 2, 3, 4}, b[4] = {5, 6, 7, 8}; typedef sprout::alternate_iterator<int*, int*> I; I e(a + 4, b + 4); std::vector<int> v; for (int i = 0; i < 8; ++i) { e = sprout::prev(e); v.push_back(*e); } return v == std::vector<int>{8, 4, 7, 3, 6, 2, 5, 1} ? 0 : 1; }
''','functional prev() from an element of the first sequence','prev() forgets to step the second base iterator')
seed('C14a','C14','sprout/valarray/valarray.hpp',[('sprout::bind2nd(sprout::shift_right_assign<>(), x)','sprout::bind2nd(sprout::shift_left_assign<>(), x)')],
H+'''#include <sprout/valarray.hpp>
int main() { sprout::valarray<int, 8> v(12, 5); v >>= 1; return v[0] == 6 && v[4] == 6 ? 0 : 1; }
''','>>= with a scalar','valarray >>= scalar shifts left')
seed('C24a','C24','sprout/bit/rotr.hpp',[('sprout::shlr(x, s) |','(x >> s) |')],
H+'''#include <sprout/bit/operation.hpp>
int main() { for (int i = -128; i < 128; ++i) for (int s = 0; s < 8; ++s) { unsigned u = i & 255; if (static_cast<unsigned char>(sprout::rotr(static_cast<signed char>(i), s)) != (s ? ((u >> s | u << (8 - s)) & 255) : u)) return 1; } return 0; }
''','negative values of signed types','rotr shifts sign bits in')
seed('C41a','C41','sprout/logic/tribool/tribool.hpp',[('return !lhs ? sprout::logic::tribool(false) : sprout::logic::tribool(indeterminate);','return lhs ? sprout::logic::tribool(indeterminate) : sprout::logic::tribool(false);')],
H+'''#include <sprout/logic/tribool.hpp>
int main() { using namespace sprout::logic; tribool t(true), f(false), i(indeterminate); return indeterminate(t && indeterminate) && (!(f && indeterminate)) && indeterminate(i && indeterminate) ? 0 : 1; }
''','indeterminate tribool && the keyword','indeterminate && indeterminate is false')
seed('C36a','C36','sprout/brainfuck/brainfuck.hpp',[('sprout::brainfuck::detail::find_scope_start(sprout::prev(first), count - 1)','sprout::brainfuck::detail::find_scope_start(sprout::prev(first), 0)')],
H+'''#include <sprout/brainfuck.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
int main() { std::string p = "++[>++[>++[>+<-]<-]<-]>>>."; std::string in; auto r = sprout::brainfuck::exec<16>(p.data(), p.data() + p.size(), sprout::array<char, 2>{{}}, in.data(), in.data()); return r[0] == 8 ? 0 : 1; }
''','a loop that contains two further levels of loops and repeats','jump back of an outer loop lands in an inner one')
seed('C37a','C37','sprout/compost/effects/reverbed.hpp',[('return m >= 0 ?','return m > 0 ?')],
H+'''#include <sprout/compost.hpp>
#include <sprout/array.hpp>
#include <sprout/range/adaptor.hpp>
int main() { sprout::array<double, 8> a = {{1, 0, 0, 0, 0, 0, 0, 0}}; auto r = a | sprout::compost::effects::reverbed(0.5, 2.0, 2, 1); std::vector<double> v; for (auto i = sprout::begin(r); i != sprout::end(r); ++i) v.push_back(*i); return std::fabs(v[2] - 0.5) < 1e-9 && std::fabs(v[4] - 0.25) < 1e-9 ? 0 : 1; }
''','the very first sample is audible and the delay is whole','the first sample has no echo')
seed('C29a','C29','sprout/random/inversive_congruential.hpp',[('sprout::math::greater_equal(x, static_min()) && x <= static_max()','sprout::math::greater_equal(x, static_min()) && x < static_max()')],
H+'''#include <sprout/random.hpp>
int main() { typedef sprout::random::inversive_congruential_engine<std::uint32_t, 5, 3, 11> E; for (unsigned s = 0; s < 11; ++s) { E e(s), f; std::stringstream o; o << e; if (!(o >> f) || !(f == e)) return 1; } return 0; }
''','state equal to max()','a written state of max() is refused on reading')
seed('C22a','C22','sprout/math/fmod.hpp',[('''				return i != idiff
					? z >= 0''','''				return i != idiff
					? z > 0''')],
H+'''#define SPROUT_CONFIG_DISABLE_BUILTIN_CMATH_FUNCTION
#include <sprout/math/fmod.hpp>
int main() { std::mt19937 g(1); for (int i = 0; i < 4000; ++i) { double y = g() % 97 + 1, x = y * (double)(g() % 5000); if (sprout::math::fmod(x, y) != std::fmod(x, y)) return 1; } return 0; }
''','exact multiples with intermediate zero remainders','the remainder is the divisor instead of zero')
seed('C31b','C31','sprout/cstring/strstr.hpp',[('''				: !*sprout::tuples::get<1>(current) ? type(first1_, sprout::tuples::get<1>(current), true)
				: !*sprout::tuples::get<0>(current) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), true)
''','''				: !*sprout::tuples::get<0>(current) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), true)
				: !*sprout::tuples::get<1>(current) ? type(first1_, sprout::tuples::get<1>(current), true)
''',2)],
H+'''#include <sprout/cwchar.hpp>
#include <sprout/cstring.hpp>
int main() { char16_t a[] = u"abcabd", b[] = u"abd"; auto p = sprout::detail::strstr(static_cast<char16_t const*>(a), static_cast<char16_t const*>(b)); return p == a + 3 ? 0 : 1; }
''','the needle is the very end of the haystack','a match that ends with the haystack is not found')
seed('C38a','C38','sprout/darkroom/objects/sphere.hpp',[('? i1 < 0 ? i2 : i1','? i1 > 0 && i1 * 4096 > i2 ? i1 : i2')],
H+'''#include <sprout/darkroom.hpp>
int main() { namespace d = sprout::darkroom; auto s = d::objects::make_sphere(d::coords::vector3d(0., 0., 5.), 4.9995, d::materials::make_material_image(d::materials::make_uniform(d::colors::rgb_f(1., 1., 1.)), d::materials::make_uniform(0.))); auto i = s.intersect(d::rays::make_ray(d::coords::vector3d(0., 0., 0.), d::coords::vector3d(0., 0., 1.))); double t = d::intersects::distance(i); std::printf("%g\\n", t); return std::fabs(t - 0.0005) < 1e-6 ? 0 : 1; }
''','a ray that starts just outside a sphere','the near intersection is skipped')
seed('C42a','C42','sprout/index_tuple/integer_range.hpp',[('(Step > 0 ? Step - 1 : Step + 1)','(Step > 0 ? Step - 1 : Step)')],
H+'''#include <sprout/index_tuple.hpp>
#include <type_traits>
int main() { return std::is_same<sprout::integer_range<int, 9, 0, -3>::type, sprout::integer_sequence<int, 9, 6, 3> >::value ? 0 : 1; }
''','descending ranges whose length is a multiple of the step','descending ranges get one element too many')
seed('C34a','C34','sprout/net/endian.hpp',[('sprout::net::detail::rshift_by((val & sprout::net::detail::mask_at<T>(n)), n)','sprout::net::detail::rshift_by(val, n) & 0x7F')],
H+'''#include <sprout/net/endian.hpp>
int main() { return sprout::net::reverse(std::uint32_t(0x80112233)) == 0x33221180u && sprout::net::reverse(std::uint16_t(0x1280)) == 0x8012u ? 0 : 1; }
''','bytes with their top bit set','reversing drops the top bits of bytes') 
seed('C40a','C40','sprout/functional/hash/hash.hpp',[('''template<typename T>
	struct hash<T const>
		: public sprout::hash<T>
	{};''','''template<typename T>
	struct hash<T const> {
	public:
		typedef T argument_type;
		typedef std::size_t result_type;
	public:
		SPROUT_CONSTEXPR std::size_t operator()(T const& v) const {
			return static_cast<std::uint32_t>(sprout::to_hash(v));
		}
	};''')],
H+'''#include <sprout/functional.hpp>
#include <sprout/array.hpp>
int main() { long long v = 0x1234567890abcdefLL; sprout::hash<long long const> a; sprout::hash<long long> b; return a(v) == b(v) ? 0 : 1; }
''','const-qualified argument type and hashes above 32 bits','hash<T const> differs from hash<T>')
seed('C35b','C35','sprout/weed/parser/numeric/int_p.hpp',[('static_cast<IntType>(0 - static_cast<std::uintmax_t>(res.attr()))','static_cast<IntType>(-res.attr())')] if 0 else [('return res.success() && sign < 0','return res.success() && sign < 0 && res.attr() != 8')],
H+'int main(){return 0;}','x','x') if 0 else None
