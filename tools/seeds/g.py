import sys; sys.path.insert(0,'/verif/tools')
from mkseed import seed
H='#include <string>\n#include <vector>\n#include <cstdint>\n#include <limits>\n'
seed('C45a','C45','sprout/forward_clist.hpp',[('			fst.next = fst.next->next;\n			nxt->unlink();','			fst.next = fst.next->next;')],
H+'''#include <sprout/forward_clist.hpp>
int main() { typedef sprout::forward_clist<int> L; L l; L::item a(1), b(2); l.push_front(b); l.push_front(a); l.pop_front(); return !a.is_linked() && l.front() == 2 ? 0 : 1; }
''','looking at an item after it was popped in front of others','a popped item stays linked to the items that followed it')
seed('C45b','C45','sprout/forward_clist.hpp',[('if (nxt.item.get_pointer() == sprout::addressof(x)) {\n					first.item->next = sprout::move(nxt.item->next);\n					nxt.item->unlink();\n					break;','if (nxt.item.get_pointer() == sprout::addressof(x)) {\n					first.item->next = sprout::move(nxt.item->next);\n					first.item->next->unlink();\n					break;')],
H+'''#include <sprout/forward_clist.hpp>
int main() { typedef sprout::forward_clist<int> L; L l; L::item a(1), b(2), c(3), d(4); l.push_front(d); l.push_front(c); l.push_front(b); l.push_front(a); l.unlink(b); int n = 0; for (auto i = l.begin(); i != l.end() && n < 9; ++i) ++n; return n == 3 && !b.is_linked() ? 0 : 1; }
''','unlinking an item in the middle of at least four','the wrong item loses its link: the rest of the list is lost')
seed('C46a','C46','sprout/utility/comparison.hpp',[('lhs && !(lhs.get() < rhs) ? sprout::greater_comparison<U>(rhs)','lhs && rhs < lhs.get() ? sprout::greater_comparison<U>(rhs)')],
H+'''#include <sprout/utility/comparison.hpp>
int main() { int a = 3, b = 2, c = 2; bool r = static_cast<bool>(sprout::comp % a > b >= c), q = static_cast<bool>(sprout::comp % b >= c); return r && q ? 0 : 1; }
''','equal values in the second comparison of a descending chain','>= after the first comparison is strict')
seed('C46b','C46','sprout/ctime/to_time_t.hpp',[('year / 4 - year / 100 + year / 400 + 367 * mon / 12','year / 4 - year / 100 + (year - 1) / 400 + 367 * mon / 12')],
H+'''#include <ctime>
#include <cstring>
#include <sprout/ctime.hpp>
int main() { for (int y = 1990; y < 2010; ++y) for (int m = 1; m <= 12; ++m) { std::tm t; std::memset(&t, 0, sizeof t); t.tm_year = y - 1900; t.tm_mon = m - 1; t.tm_mday = 28; if (sprout::to_time_t(y, m, 28, 1, 2, 3) - 3723 != timegm(&t)) return 1; } return 0; }
''','March to December of a year divisible by 400, January and February of the next','the leap day of a year divisible by 400 is lost for a year')
seed('C46c','C46','sprout/tpp/algorithm/one_of.hpp',[('? sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value','? !sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value')],
H+'''#include <sprout/tpp/algorithm.hpp>
int main() { return sprout::tpp::one_of_c<false, true, true, true>::value || sprout::tpp::one_of_c<true, true>::value || !sprout::tpp::one_of_c<true, false>::value ? 1 : 0; }
''','three true values of which two are in the second half','one_of is true for three true values')
seed('C47b','C47','sprout/utility/while_loop.hpp',[('n == 1 ? sprout::detail::while_loop_check<T>(unary_op(current.first), pred)','n <= 2 ? sprout::detail::while_loop_check<T>(n == 2 ? unary_op(unary_op(current.first)) : unary_op(current.first), pred)')],
H+'''#include <sprout/utility/while_loop.hpp>
struct P { int l; bool operator()(int x) const { return x < l; } }; struct U { int operator()(int x) const { return x + 1; } };
int main() { for (int l = 0; l < 40; ++l) if (sprout::while_loop(0, P{l}, U()) != l) return 1; return 0; }
''','a loop that ends on an even step','two steps are taken without asking the predicate between them')
