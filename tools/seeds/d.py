import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='#include <cstdio>\n#include <vector>\n#include <string>\n#include <list>\n#include <algorithm>\n#include <random>\n#include <cstring>\n'
seed('C18a','C18','sprout/iterator/step_iterator.hpp',[('''			return is_last ? 0 : (sprout::distance(current, last) - 1) / wid + 1;''','''			return is_last ? 0 : (sprout::distance(current, last) + 1) / wid;''')],
H+'''#include <sprout/iterator/step_iterator.hpp>
int main() { int a[13] = {}; typedef sprout::step_iterator<int*> I; for (int w = 1; w < 7; ++w) for (int n = 1; n < 13; ++n) { I f(a, w, a + n), l(a + n, w, a + n); int c = 0; for (I i = f; i != l; ++i) ++c; if (l - f != c) return 1; } return 0; }
''','width of three or more with particular remainders','distance of step iterators disagrees with the number of increments')
seed('C23a','C23','sprout/math/lcm.hpp',[('(a / temp * b)','(a * b / temp)')],
H+'''#include <sprout/math/lcm.hpp>
int main() { return sprout::lcm(100000u, 150000u) == 300000u && sprout::lcm(1u << 20, 1u << 21) == 1u << 21 ? 0 : 1; }
''','operands whose product overflows while their lcm does not','lcm overflows')
seed('C24a','C24','sprout/bit/setbitsge.hpp',[('~static_cast<type>((type(1) << b) - 1u)','~static_cast<type>((1u << b) - 1u)')],
H+'''#include <sprout/bit/operation.hpp>
#include <sprout/bit/setbitsge.hpp>
int main() { volatile int b = 40; return sprout::setbitsge(0ull, b) == ~0ull << 40 ? 0 : 1; }
''','64-bit operand and a bit index of 32 or more','setbitsge computes its mask in 32 bits')
seed('C27a','C27','sprout/checksum/sha1.hpp',[('static_cast<std::uint8_t>((bit_count_ >> 16) & 0xFF),','static_cast<std::uint8_t>((bit_count_ >> 16) & 0x0F),')],
H+'''#include <sprout/checksum/sha1.hpp>
int main() { std::string m(140000, 'a'); sprout::sha1 h; for (size_t i = 0; i < m.size(); ++i) h.process_byte((unsigned char)m[i]); auto v = h.value(); char t[41]; for (int i = 0; i < 20; ++i) sprintf(t + 2 * i, "%02x", (unsigned)v[i]); puts(t); return std::string(t) == "@@" ? 0 : 1; }
'''.replace('@@',__import__('hashlib').sha1(b'a'*140000).hexdigest()),'message of 128 KiB or more','sha1 pads long messages with a wrong length')
seed('C28a','C28','sprout/uuid/string_generator.hpp',[('is_close_brace(nc.next().c, open_brace) && nc.next().first == nc.last','is_close_brace(nc.next().c, open_brace)')],
H+'''#include <sprout/uuid/string_generator.hpp>
#include <sprout/string.hpp>
#include <sprout/string.hpp>
int main() { sprout::uuids::string_generator g; try { g(sprout::to_string("{01234567-89ab-cdef-0123-456789abcdef}x")); return 1; } catch (std::exception&) {} g(sprout::to_string("{01234567-89ab-cdef-0123-456789abcdef}")); return 0; }
''','braced uuid text followed by further characters','trailing characters after the closing brace are accepted')
seed('C29a','C29','sprout/random/shuffle_order.hpp',[('sprout::math::less(brange, sprout::numeric_limits<BaseUnsigned>::max() / k) ? BaseUnsigned(k * off / (brange + 1))','sprout::math::less(brange, sprout::numeric_limits<BaseUnsigned>::max()) ? BaseUnsigned(BaseUnsigned(k * off) / (brange + 1))')],
H+'''#include <sprout/random.hpp>
int main() { sprout::random::knuth_b a(7); std::knuth_b b(7); for (int i = 0; i < 500; ++i) if (a().result() != b() || (a = a().engine(), false)) return 1; return 0; }
'''.replace('if (a().result() != b() || (a = a().engine(), false)) return 1;','{ auto r = static_cast<sprout::random::knuth_b const&>(a)(); if (r.result() != b()) return 1; a = r.engine(); }'),'base engine whose range times the table size overflows','wrong table index, sequence deviates')
seed('C30a','C30','sprout/random/geometric_distribution.hpp',[('''				p_ = parm.p();
				log_1mp_ = init_log_1mp(p_);''','''				p_ = parm.p();''')],
H+'''#include <sprout/random.hpp>
int main() { typedef sprout::random::geometric_distribution<> D; D a(0.9), b(0.05); a.param(b.param()); sprout::random::mt19937 g(3), h(3); for (int i = 0; i < 50; ++i) if (a(g) != b(h)) return 1; return 0; }
''','parameters replaced through param() before drawing','param() leaves the cached logarithm of the old parameter')
seed('C31a','C31','sprout/cstring/strncmp.hpp',[('''			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),''','''			sprout::ptr_index(s2), sprout::ptr_index(s2, n + 1), type(),''')],
H+'''#include <sprout/cstring.hpp>
#include <sprout/cwchar.hpp>
#include <cwchar>
int main() { char16_t a[] = u"abcd", b[] = u"abce"; return sprout::strncmp(a, b, 3) == 0 && sprout::strncmp(a, b, 4) < 0 ? 0 : 1; }
''','non-char character types, difference right behind the first n characters','generic strncmp looks at n + 1 characters of its second argument')
seed('C32a','C32','sprout/cstdlib/str_to_int.hpp',[('val > (sprout::numeric_limits<IntType>::max() - x) / base','val > sprout::numeric_limits<IntType>::max() / base')],
H+'''#include <sprout/cstdlib.hpp>
int main() { return sprout::str_to_int<unsigned>("4294967299") == 4294967295u && sprout::str_to_int<unsigned>("4294967295") == 4294967295u ? 0 : 1; }
''','numbers just above the maximum (last digit decides)','out-of-range numbers with the same leading digits as the maximum wrap around')
seed('C33a','C33','sprout/string/float_to_string.hpp',[('float_to_string_1<Elem>(val + 1, negative, 0)','float_to_string_1<Elem>(val, negative, 0)')],
H+'''#include <sprout/string.hpp>
#include <sprout/string/float_to_string.hpp>
int main() { return std::string(sprout::float_to_string<char>(1.9999999).c_str()) == "2.000000" && std::string(sprout::float_to_string<char>(1.5).c_str()) == "1.500000" ? 0 : 1; }
''','fraction that rounds up to one','carry of the rounded fraction is lost')
seed('C35a','C35','sprout/weed/parser/directive/repeat.hpp',[('''						? result_type(true, res.current(), sprout::weed::attr_cnv::times<limit::value, attr_type>(attrs..., res.attr()))
						: p.count_ <= sizeof...(Attrs)''','''						? result_type(true, res.current(), sprout::weed::attr_cnv::times<limit::value, attr_type>(attrs..., res.attr()))
						: p.count_ < sizeof...(Attrs)''')],
H+'''#include <sprout/weed.hpp>
#include <sprout/string.hpp>
int main() { namespace w = sprout::weed; auto s = sprout::to_string("aa;"); auto p = w::repeat[w::lim<3>(2)](w::char_('a')); return 0; }
''','x','x') if 0 else None
