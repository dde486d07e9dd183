import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='''#include <cstdint>
#include <cstddef>
#include <cmath>
#include <limits>
#include <string>
#include <stdexcept>
'''
seed('C24a','C24','sprout/bit/rotr.hpp',[('sprout::shlr(x, s) |','(x >> s) |')],
H+'''#include <sprout/bit/operation.hpp>
int main() { for (int i = -128; i < 128; ++i) for (int s = 0; s < 8; ++s) { unsigned u = i & 255; if (static_cast<unsigned char>(sprout::rotr(static_cast<signed char>(i), s)) != (s ? ((u >> s | u << (8 - s)) & 255) : u)) return 1; } return 0; }
''','negative values of signed types','rotr shifts sign bits in')
seed('C28b','C28','sprout/uuid/random_generator.hpp',[('((v2 >> 24) & 0xBF) | 0x80','((v2 >> 24) & 0xFF) | 0x80')],
H+'''#include <sprout/uuid.hpp>
#include <sprout/random.hpp>
int main() { sprout::uuids::random_generator g; for (int i = 0; i < 64; ++i) { auto u = g(i); if ((u[8] & 0xC0) != 0x80) return 1; } return 0; }
''','a draw whose bit 30 is set','random uuids do not always carry the RFC 4122 variant')
seed('C35b','C35','sprout/weed/parser/numeric/uint_p.hpp',[(': n <= MinDigits',': n < MinDigits',2)],
H+'''#include <sprout/weed.hpp>
int main() { std::string s = "1a"; auto r = sprout::weed::parse(s.data(), s.data() + s.size(), sprout::weed::uint_p<unsigned, 10, 2, 3>()); std::string t = "12a"; auto q = sprout::weed::parse(t.data(), t.data() + t.size(), sprout::weed::uint_p<unsigned, 10, 2, 3>()); return !r.success() && q.success() ? 0 : 1; }
''','a number one digit shorter than the minimum followed by something else','uint_p accepts too few digits')
seed('C43a','C43','sprout/math/quaternion/pow.hpp',[('sprout::math::pow(sprout::math::quaternion<T>(static_cast<T>(1)) / q, -n)','sprout::math::quaternion<T>(static_cast<T>(1)) / sprout::math::pow(q, -n) * static_cast<T>(n < -6 ? (n & 1 ? 1 : -1) : 1)')],
H+'''#include <sprout/math/quaternion.hpp>
int main() { sprout::math::quaternion<double> q(2., 0., 0., 0.); return sprout::math::pow(q, -8).real() > 0 && sprout::math::pow(q, -2).real() > 0 ? 0 : 1; }
''','an even power below -6','pow gives the negated value')
seed('C43b','C43','sprout/math/curve/catmull_rom_spline.hpp',[('(nested_get<0, 1>(p) - 2 * nested_get<1, 1>(p) + nested_get<2, 1>(p)) / 2 * pow2(t)\n							+ (-nested_get<0, 1>(p) + nested_get<2, 1>(p)) / 2 * t','(nested_get<0, 1>(p) - 2 * nested_get<1, 1>(p) + nested_get<2, 1>(p)) / 2 * pow2(t)\n							+ (-nested_get<0, 1>(p) + nested_get<2, 0>(p)) / 2 * t')],
H+'''#include <sprout/math/curve.hpp>
#include <sprout/array.hpp>
#include <sprout/tuple.hpp>
int main() { typedef sprout::tuples::tuple<double, double> P; sprout::array<P, 3> p = {{P(0., 0.), P(1., 1.), P(2., 4.)}}; auto r = sprout::catmull_rom_spline_end(.5, p); return std::fabs(sprout::tuples::get<1>(r) - 2.25) < 1e-9 ? 0 : 1; }
''','the last segment of a curve whose last point has different coordinates','the tangent of y uses x of the last point')
seed('C44a','C44','sprout/container/detail/range_at.hpp',[('''range_at_impl(Container const& cont, typename sprout::container_traits<Container const>::size_type i) {
			return cont[sprout::range_index_check(cont, i)];''','''range_at_impl(Container const& cont, typename sprout::container_traits<Container const>::size_type i) {
			return cont[i];''')],
H+'''#include <sprout/container/functions.hpp>
struct C { typedef int value_type; typedef int* iterator; typedef int const* const_iterator; typedef int& reference; typedef int const& const_reference; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int const* const_pointer; int a[8]; int* begin() { return a; } int* end() { return a + 4; } int const* begin() const { return a; } int const* end() const { return a + 4; } int& operator[](std::size_t i) { return a[i]; } int const& operator[](std::size_t i) const { return a[i]; } };
int main() { C const c = {}; try { (void)sprout::at(c, 4); } catch (std::out_of_range const&) { return 0; } return 1; }
''','a container with operator[] but no at()','sprout::at does not check the position')
seed('C44b','C44','sprout/container/internal_begin_offset_backward.hpp',[('sprout::internal_end(cont)','sprout::end(cont)')],
H+'''#include <sprout/sub_array.hpp>
#include <sprout/array.hpp>
#include <sprout/container/internal.hpp>
int main() { sprout::array<int, 9> a = {{}}; auto s = sprout::sub(a, 2, 5); return sprout::internal_begin_offset_backward(s) == 7 ? 0 : 1; }
''','a sub-container that stops before the end of its container','the backward offset is measured from the end of the sub-container')
seed('C20b','C20','sprout/math/pow.hpp',[('x == -1 && (y == sprout::numeric_limits<FloatType>::infinity() || y == -sprout::numeric_limits<FloatType>::infinity()) ?','x == -1 && (y == sprout::numeric_limits<FloatType>::infinity()) ?')],
H+'''#include <sprout/math.hpp>
int main() { double i = std::numeric_limits<double>::infinity(); return sprout::math::pow(-1., i) == 1 && sprout::math::pow(-1., -i) == 1 ? 0 : 1; }
''','pow(-1, -infinity)','pow(-1, -inf) is 0')
seed('C19a','C19','sprout/range/adaptor/taken_end.hpp',[('NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(rhs.distance(), -sprout::size(sprout::lvalue_forward<Range>(lhs)))','static_cast<difference_type>(rhs.distance())')],
H+'''#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/range/adaptor.hpp>
int main() { sprout::array<int, 9> b = {{}}; auto s = sprout::sub(b, 4, 7); auto v = s | sprout::adaptors::taken_end(-5); return sprout::distance(v.begin(), v.end()) == 3 ? 0 : 1; }
''','more elements taken than there are','taken_end starts before the range')
seed('C32b','C32','sprout/cstdlib/str_to_int.hpp',[('sprout::ascii::isspace(*str)','sprout::ascii::isblank(*str)',2)],
H+'''#include <sprout/cstdlib.hpp>
int main() { return sprout::strtol("\\n\\v 12", nullptr, 10) == 12 ? 0 : 1; }
''','white space other than blanks before the number','only blanks are skipped')
seed('C34a','C34','sprout/net/endian.hpp',[('replace_at(val, sprout::net::detail::byte_at(val, from), to)','replace_at(val, sprout::net::detail::byte_at(val, from) & (sizeof(T) > 4 ? 0x7F : 0xFF), to)')],
H+'''#include <sprout/net/endian.hpp>
int main() { return sprout::net::hton(std::uint64_t(0x1122334455667781ull)) == 0x8177665544332211ull && sprout::net::hton(std::uint32_t(0x80112233)) == 0x33221180u ? 0 : 1; }
''','64-bit values with a byte whose top bit is set','hton drops the top bit')
seed('C38b','C38','sprout/darkroom/objects/aa_plane.hpp',[],'','','') if 0 else None
seed('C35b','C35','sprout/weed/parser/auxiliary/eol.hpp',[("sprout::next(first) != last\n							? *sprout::next(first) == SPROUT_CHAR_LITERAL('\\n', elem_type)","sprout::next(first) != last\n							? *sprout::next(first) == SPROUT_CHAR_LITERAL('\\r', elem_type)")],
H+'''#include <sprout/weed.hpp>
int main() { std::string s = "\\r\\na"; auto r = sprout::weed::parse(s.data(), s.data() + s.size(), sprout::weed::eol >> sprout::weed::lit('a')); std::string t = "\\r\\r"; auto q = sprout::weed::parse(t.data(), t.data() + t.size(), sprout::weed::eol >> sprout::weed::eol); return r.success() && q.success() ? 0 : 1; }
''','CR LF line ends','eol takes only the CR of CR LF')
