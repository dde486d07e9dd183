// C42: type traits against the standard library's and against the language itself
#include "mon.hpp"
#include <sprout/type_traits.hpp>
#include <sprout/type_traits/introspection.hpp>
#include <sprout/tpp/algorithm.hpp>
#include <sprout/complex.hpp>
#include <type_traits>
#include <functional>
#include <memory>
#include <string>
#include <vector>
using namespace mon;
#define MON_PART(i) (MON_SHARD == (i))
enum En { en_a }; enum class Ec : unsigned char { a }; union Un { int a; float b; }; struct Empty {}; struct Pod { int a; double b; };
struct Fin final { int a; }; struct Abs { virtual void f() = 0; virtual ~Abs() {} }; struct Poly { virtual void f() {} }; struct Vd : Poly { virtual ~Vd() {} };
struct Vd2 : Abs { void f() override {} };
struct NoCopy { NoCopy() {} NoCopy(NoCopy const&) = delete; NoCopy& operator=(NoCopy const&) = delete; }; struct MoveOnly { MoveOnly(MoveOnly&&) noexcept {} MoveOnly& operator=(MoveOnly&&) { return *this; } };
struct NoDef { NoDef(int) {} explicit NoDef(double) noexcept {} }; struct Thr { Thr() {} Thr(Thr const&) {} Thr(Thr&&) {} Thr& operator=(Thr const&) { return *this; } ~Thr() noexcept(false) {} };
struct NoDtor { ~NoDtor() = delete; }; struct Conv { operator int() const { return 0; } explicit operator long*() const { return nullptr; } }; struct Base { int b; }; struct Der : Base { int d; }; struct PrivDer : private Base {}; struct Wide { char c; int i; }; struct Bits { unsigned char a; unsigned char b; };
struct Swp { Swp(Swp const&) = delete; friend void swap(Swp&, Swp&) noexcept {} }; struct SwpT { SwpT(SwpT const&) = delete; friend void swap(SwpT&, SwpT&) {} };
struct Call { int operator()(int) const { return 0; } double operator()(char*, int) noexcept { return 0; } void operator()() && {} }; struct Nop { Nop operator+(int) const { return *this; } Nop& operator+=(double) { return *this; } bool operator==(Nop const&) const { return true; } Nop operator-() const { return *this; } Nop& operator++() { return *this; } int operator[](char) { return 1; } Nop* operator->() { return this; } int operator*() const { return 1; } int operator,(int) const { return 0; } int operator&() const { return 0; } bool operator!() const { return true; } };
template<class T> struct Nm { static std::string f(std::string const& s) { return s; } };
#define BASIC(X) X(int) X(int const) X(unsigned volatile) X(char) X(signed char) X(unsigned char) X(bool) X(wchar_t) X(char16_t const) X(char32_t) X(short) X(unsigned short const volatile) X(long) X(unsigned long) X(long long) X(unsigned long long) X(float) X(double const) X(long double) X(std::nullptr_t) X(std::nullptr_t const)
#define CLS(X) X(En) X(Ec) X(Ec const) X(Un) X(Empty) X(Empty const) X(Pod) X(Pod volatile) X(Fin) X(Abs) X(Poly) X(Vd) X(Vd const) X(NoCopy) X(MoveOnly) X(MoveOnly const) X(NoDef) X(Thr) X(NoDtor) X(Conv) X(Base) X(Der) X(PrivDer) X(Wide) X(Bits) X(Swp) X(SwpT) X(Call) X(Nop) X(std::string) X(std::vector<int>) X(std::unique_ptr<int>)
#define PTR(X) X(int*) X(int const*) X(int* const) X(int const* const volatile) X(void*) X(void const*) X(int**) X(Der*) X(int&) X(int const&) X(int&&) X(Pod&) X(Pod const&&) X(int[3]) X(int const[3]) X(int[2][3]) X(char[4]) X(char const[4]) X(Thr[2]) X(NoCopy[2]) X(Wide volatile[1]) X(int(&)[3]) X(int(&&)[2]) X(char const(&)[4]) X(Nm<int>*)
#define FUN(X) X(void(*)()) X(int(*)(int, char)) X(void(&)()) X(int(&)(int)) X(int Pod::*) X(int Pod::* const) X(void (Abs::*)()) X(int (Call::*)(int) const) X(int (Call::* const)(int) const) X(double Pod::* volatile) X(int(*)(int, ...))
#define ODD(X) X(void) X(void const) X(void volatile) X(void const volatile) X(int()) X(void(int)) X(int(int, ...)) X(int() const) X(int() volatile) X(int() const&) X(void(char)&&) X(int[]) X(int const[]) X(int[][3]) X(Pod[])
// primary and composite categories and properties valid for any type
#define V1(X) X(is_void) X(is_null_pointer) X(is_integral) X(is_floating_point) X(is_array) X(is_enum) X(is_union) X(is_class) X(is_function) X(is_pointer) X(is_lvalue_reference) X(is_rvalue_reference) X(is_member_object_pointer) X(is_member_function_pointer) X(is_fundamental) X(is_arithmetic) X(is_scalar) X(is_object) X(is_compound) X(is_reference) X(is_member_pointer) X(is_const) X(is_volatile) X(is_signed) X(is_unsigned) X(rank)
#define V2(X) X(is_trivial) X(is_standard_layout) X(is_pod) X(is_literal_type) X(is_empty) X(is_polymorphic) X(is_abstract) X(is_default_constructible) X(is_copy_constructible) X(is_move_constructible) X(is_copy_assignable) X(is_move_assignable) X(is_destructible) X(is_trivially_destructible) X(is_nothrow_default_constructible) X(is_nothrow_copy_constructible) X(is_nothrow_move_constructible) X(is_nothrow_copy_assignable) X(is_nothrow_move_assignable) X(is_nothrow_destructible) X(has_virtual_destructor)
#define M1(X) X(remove_const) X(remove_volatile) X(remove_cv) X(add_const) X(add_volatile) X(add_cv) X(remove_reference) X(add_lvalue_reference) X(add_rvalue_reference) X(remove_extent) X(remove_all_extents) X(remove_pointer) X(add_pointer) X(decay)
template<class T> void cat(std::string const& n) { MON_CASE(c, "of", n);
#define X(t) c.eq((long long)sprout::t<T>::value, (long long)std::t<T>::value, #t); c.ok(std::is_same<typename sprout::t<T>::value_type, typename std::t<T>::value_type>::value, #t " value_type");
	V1(X)
#undef X
#define X(t) c.ok((std::is_same<typename sprout::t<T>::type, typename std::t<T>::type>::value), #t);
	M1(X)
#undef X
	c.eq((long long)sprout::extent<T>::value, (long long)std::extent<T>::value, "extent"); c.eq((long long)sprout::extent<T, 1>::value, (long long)std::extent<T, 1>::value, "extent 1"); c.eq((long long)sprout::extent<T, 2>::value, (long long)std::extent<T, 2>::value, "extent 2");
	typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type P; c.ok((std::is_same<typename sprout::remove_cvref<T>::type, P>::value), "remove_cvref"); typedef typename std::remove_cv<T>::type R;
	bool isch = std::is_same<R, char>::value || std::is_same<R, wchar_t>::value || std::is_same<R, char16_t>::value || std::is_same<R, char32_t>::value; c.eq((bool)sprout::is_char_type<T>::value, isch, "is_char_type"); c.eq((bool)sprout::is_uint<T>::value, std::is_integral<T>::value && std::is_unsigned<T>::value, "is_uint"); c.eq((bool)sprout::is_sint<T>::value, std::is_integral<T>::value && std::is_signed<T>::value, "is_sint");
	typedef typename std::remove_cv<typename std::remove_extent<T>::type>::type E; bool cs = std::rank<T>::value == 1 && std::extent<T>::value != 0 && (std::is_same<E, char>::value || std::is_same<E, wchar_t>::value || std::is_same<E, char16_t>::value || std::is_same<E, char32_t>::value); c.eq((bool)sprout::is_c_str<T>::value, cs, "is_c_str");
	c.eq((bool)sprout::is_const_unqualified<T>::value, !std::is_const<T>::value, "is_const_unqualified"); c.eq((bool)sprout::is_volatile_unqualified<T>::value, !std::is_volatile<T>::value, "is_volatile_unqualified"); c.eq((bool)sprout::is_cv_unqualified<T>::value, !std::is_volatile<T>::value && !std::is_const<T>::value, "is_cv_unqualified");
	bool arr = std::is_array<T>::value; c.ok((std::is_same<typename sprout::remove_shallow_cv<T>::type, typename std::conditional<std::is_array<T>::value, T, R>::type>::value), "remove_shallow_cv"); c.ok((std::is_same<typename sprout::remove_shallow_const<T>::type, typename std::conditional<std::is_array<T>::value, T, typename std::remove_const<T>::type>::type>::value), "remove_shallow_const"); c.ok((std::is_same<typename sprout::remove_shallow_volatile<T>::type, typename std::conditional<std::is_array<T>::value, T, typename std::remove_volatile<T>::type>::type>::value), "remove_shallow_volatile"); (void)arr;
	c.ok((std::is_same<typename sprout::copy_cv<int, T>::type, typename std::conditional<std::is_const<T>::value, typename std::conditional<std::is_volatile<T>::value, int const volatile, int const>::type, typename std::conditional<std::is_volatile<T>::value, int volatile, int>::type>::type>::value), "copy_cv"); c.ok((std::is_same<typename sprout::copy_const<int, T>::type, typename std::conditional<std::is_const<T>::value, int const, int>::type>::value), "copy_const"); c.ok((std::is_same<typename sprout::copy_volatile<int, T>::type, typename std::conditional<std::is_volatile<T>::value, int volatile, int>::type>::value), "copy_volatile");
	c.ok((std::is_same<typename sprout::identity<T>::type, T>::value), "identity"); c.ok(sprout::is_same<T, T>::value && !(sprout::is_same<T, Nm<T> >::value) && (sprout::is_same<T, int>::value == std::is_same<T, int>::value), "is_same"); }
template<class T> void prop(std::string const& n) { MON_CASE(c, "of", n);
#define X(t) c.eq((long long)sprout::t<T>::value, (long long)std::t<T>::value, #t);
	V2(X)
#if __cplusplus >= 201402L
	X(is_final)
#endif
#if __cplusplus >= 201703L
	X(is_swappable) X(is_nothrow_swappable) X(is_aggregate) X(has_unique_object_representations)
#endif
#undef X
	c.eq((bool)sprout::is_final<T>::value, (bool)__is_final(T), "is_final"); }
template<class T> void align(std::string const& n) { MON_CASE(c, "of", n); c.eq((long long)sprout::alignment_of<T>::value, (long long)std::alignment_of<T>::value, "alignment_of"); }
#define C1(t) cat<t>(#t);
#define C2(t) prop<t>(#t); align<t>(#t);
#if MON_PART(0)
MON_TEST(categories) { BASIC(C1) CLS(C1) PTR(C1) FUN(C1) ODD(C1) }
#endif
#if MON_PART(1)
MON_TEST(properties) { BASIC(C2) CLS(C2) PTR(C2) FUN(C2) prop<void>("void"); prop<void const>("void const"); }
#endif
#if MON_PART(2)
template<class T, class U> void two(std::string const& n) { MON_CASE(c, "of", n);
#define X(t) c.eq((long long)sprout::t<T, U>::value, (long long)std::t<T, U>::value, #t);
	X(is_same) X(is_base_of) X(is_convertible) X(is_constructible) X(is_assignable) X(is_nothrow_constructible) X(is_nothrow_assignable)
#if __cplusplus >= 201703L
	X(is_swappable_with) X(is_nothrow_swappable_with)
#endif
#undef X
	c.eq((bool)sprout::is_convert_constructible<T, U>::value, (bool)std::is_convertible<U, T>::value, "is_convert_constructible"); c.eq((bool)sprout::is_nullptr_cast<T, U>::value, std::is_pointer<U>::value && std::is_same<typename std::decay<T>::type, std::nullptr_t>::value, "is_nullptr_cast"); }
template<class T> void row(std::string const& n) {
#define C3(u) two<T, u>(n + " , " #u);
	C3(int) C3(int const) C3(unsigned char) C3(double) C3(std::nullptr_t) C3(En) C3(Ec) C3(Empty) C3(Fin) C3(Poly) C3(Vd) C3(NoCopy) C3(MoveOnly) C3(MoveOnly&) C3(NoDef) C3(Thr) C3(Conv) C3(Base) C3(Der) C3(PrivDer) C3(Swp&) C3(SwpT&) C3(int*) C3(int const*) C3(void*) C3(Der*) C3(Base*) C3(long*) C3(int&) C3(int const&) C3(int&&) C3(double&) C3(Der&) C3(Base const&) C3(Thr&) C3(int(&)[3]) C3(int Pod::*) C3(void(*)()) C3(std::string) C3(char const*) C3(void)
}
#define C4(t) row<t>(#t);
MON_TEST(relations) { C4(int) C4(int const) C4(double) C4(bool) C4(std::nullptr_t) C4(En) C4(Ec) C4(Empty) C4(Fin) C4(Vd) C4(NoCopy) C4(MoveOnly) C4(MoveOnly&) C4(NoDef) C4(Thr) C4(Conv) C4(Base) C4(Der) C4(PrivDer) C4(Swp&) C4(SwpT&) C4(int*) C4(int const*) C4(void*) C4(Base*) C4(Der*) C4(int&) C4(int const&) C4(int&&) C4(double&) C4(Base&) C4(Base const&) C4(Der&) C4(Thr&) C4(int(&)[3]) C4(int Pod::*) C4(void(*)()) C4(std::string) C4(std::string&) C4(void) }
template<class, class... A> struct Ctor {}; 
MON_TEST(many_arguments) { MON_CASE(c, "constructible");
#define Y(...) c.eq((bool)sprout::is_constructible<__VA_ARGS__>::value, (bool)std::is_constructible<__VA_ARGS__>::value, "is_constructible " #__VA_ARGS__); c.eq((bool)sprout::is_nothrow_constructible<__VA_ARGS__>::value, (bool)std::is_nothrow_constructible<__VA_ARGS__>::value, "is_nothrow_constructible " #__VA_ARGS__);
	Y(int) Y(NoDef) Y(NoDef, int) Y(NoDef, double) Y(NoDef, int, int) Y(std::string, char const*, int) Y(std::string, int, char) Y(std::vector<int>, int*, int*) Y(std::vector<int>, int*, Pod) Y(Abs) Y(int&) Y(int&, int&) Y(int[2]) Y(NoDtor) Y(Thr) Y(Empty, int) Y(void) Y(int, Conv) Y(long*, Conv) }
#endif
#if MON_PART(3)
template<class T> using Ty = typename T::type;
MON_TEST(promotions) {
#define Q(a, b) { MON_CASE(c, #a " , " #b); c.ok((std::is_same<typename sprout::arithmetic_promote<a, b>::type, decltype(std::declval<a>() + std::declval<b>())>::value), "arithmetic_promote"); typedef typename std::conditional<std::is_same<a, long double>::value || std::is_same<b, long double>::value, long double, typename std::conditional<std::is_same<a, float>::value && std::is_same<b, float>::value, float, double>::type>::type F; c.ok((std::is_same<typename sprout::float_promote<a, b>::type, F>::value), "float_promote"); c.ok((std::is_same<typename sprout::common_type<a, b>::type, typename std::common_type<a, b>::type>::value), "common_type"); c.ok((std::is_same<typename sprout::arithmetic_promote<a, b, float>::type, decltype(std::declval<a>() + std::declval<b>() + float())>::value), "arithmetic_promote of three"); c.ok((std::is_same<typename sprout::common_type<a, b, short>::type, typename std::common_type<a, b, short>::type>::value), "common_type of three"); c.ok((std::is_same<typename sprout::float_promote<long double, a, b>::type, long double>::value) && (std::is_same<typename sprout::float_promote<float, a, b>::type, typename std::conditional<std::is_same<F, float>::value, float, F>::type>::value), "float_promote of three"); }
#define QR(a) Q(a, bool) Q(a, char) Q(a, unsigned char) Q(a, short) Q(a, int) Q(a, unsigned) Q(a, long) Q(a, unsigned long) Q(a, long long) Q(a, float) Q(a, double) Q(a, long double) { MON_CASE(c, #a); c.ok((std::is_same<typename sprout::arithmetic_promote<a>::type, a>::value), "arithmetic_promote of one"); c.ok((std::is_same<typename sprout::float_promote<a>::type, typename std::conditional<std::is_floating_point<a>::value, a, double>::type>::value), "float_promote of one"); }
	QR(bool) QR(char) QR(signed char) QR(unsigned short) QR(int) QR(unsigned) QR(long) QR(unsigned long) QR(unsigned long long) QR(float) QR(double) QR(long double)
	MON_CASE(c, "others"); c.ok((std::is_same<sprout::complex_promote<sprout::complex<float>, int>::type, sprout::complex<double> >::value), "complex_promote with int"); c.ok((std::is_same<sprout::complex_promote<float, sprout::complex<float> >::type, sprout::complex<float> >::value), "complex_promote floats"); c.ok((std::is_same<sprout::complex_promote<sprout::complex<float>, double, sprout::complex<long double> >::type, sprout::complex<long double> >::value), "complex_promote of three");
	c.ok((std::is_same<sprout::common_type<Der*, Base*>::type, Base*>::value) && (std::is_same<sprout::common_type<int&, int const&>::type, int>::value) && (std::is_same<sprout::common_type<int*, std::nullptr_t>::type, int*>::value) && (std::is_same<sprout::common_type<char[3], char const*>::type, char const*>::value), "common_type"); c.ok((std::is_same<sprout::make_signed<unsigned const>::type, int const>::value) && (std::is_same<sprout::make_unsigned<long volatile>::type, unsigned long volatile>::value) && (std::is_same<sprout::underlying_type<Ec>::type, unsigned char>::value), "sign modification"); c.ok((std::is_same<sprout::conditional<true, int, char>::type, int>::value) && (std::is_same<sprout::conditional<false, int, char>::type, char>::value), "conditional");
	c.eq((int)sizeof(sprout::aligned_union<7, char, double>::type), 8, "aligned_union"); c.eq((int)alignof(sprout::aligned_union<1, char, long double>::type), (int)alignof(long double), "aligned_union alignment"); c.eq((int)sizeof(sprout::aligned_storage<5, 4>::type), 8, "aligned_storage"); }
template<class... B> void logic(std::initializer_list<bool> v) { std::vector<bool> b(v); long n = (long)b.size(), t = std::count(b.begin(), b.end(), true); MON_CASE(c, "logic", n, t); c.eq((bool)sprout::conjunction<B...>::value, t == n, "conjunction"); c.eq((bool)sprout::disjunction<B...>::value, t > 0, "disjunction"); c.eq((bool)sprout::tpp::all_of<B...>::value, t == n, "tpp all_of"); c.eq((bool)sprout::tpp::any_of<B...>::value, t > 0, "tpp any_of"); c.eq((bool)sprout::tpp::none_of<B...>::value, t == 0, "tpp none_of"); c.eq((bool)sprout::tpp::one_of<B...>::value, t == 1, "tpp one_of"); c.eq((bool)sprout::tpp::all_of_c<B::value...>::value, t == n, "all_of_c"); c.eq((bool)sprout::tpp::any_of_c<B::value...>::value, t > 0, "any_of_c"); c.eq((bool)sprout::tpp::none_of_c<B::value...>::value, t == 0, "none_of_c"); c.eq((bool)sprout::tpp::one_of_c<B::value...>::value, t == 1, "one_of_c"); }
template<int N, class... B> struct All { static void run(std::vector<bool> v) { All<N - 1, B..., std::true_type>::run(v); All<N - 1, B..., std::false_type>::run(v); } }; template<class... B> struct All<0, B...> { static void run(std::vector<bool>) { logic<B...>({ B::value... }); } };
MON_TEST(logic) { All<0>::run({}); All<1>::run({}); All<2>::run({}); All<3>::run({}); All<4>::run({}); All<5>::run({}); All<6>::run({}); MON_CASE(c, "negation"); c.ok(sprout::negation<std::false_type>::value && !sprout::negation<std::true_type>::value, "negation"); }
// operators: the trait is true exactly when the expression is well formed
#define DET2(n, op) template<class T, class U> struct d_##n { template<class A, class B> static auto t(int) -> decltype((void)(std::declval<A>() op std::declval<B>()), std::true_type()); template<class, class> static std::false_type t(...); static const bool value = decltype(t<T, U>(0))::value; };
#define OPS2(X) X(plus, +) X(minus, -) X(multiplies, *) X(divides, /) X(modulus, %) X(equal_to, ==) X(not_equal_to, !=) X(less, <) X(greater, >) X(less_equal, <=) X(greater_equal, >=) X(logical_and, &&) X(logical_or, ||) X(bit_and, &) X(bit_or, |) X(bit_xor, ^) X(left_shift, <<) X(right_shift, >>) X(shift_left, <<) X(shift_right, >>) X(plus_assign, +=) X(minus_assign, -=) X(multiplies_assign, *=) X(divides_assign, /=) X(modulus_assign, %=) X(bit_and_assign, &=) X(bit_or_assign, |=) X(bit_xor_assign, ^=) X(left_shift_assign, <<=) X(right_shift_assign, >>=) X(shift_left_assign, <<=) X(shift_right_assign, >>=) X(assign, =) X(member_pointer, ->*)
#define DET1(n, ex) template<class T> struct e_##n { template<class A> static auto t(int) -> decltype((void)(ex), std::true_type()); template<class> static std::false_type t(...); static const bool value = decltype(t<T>(0))::value; };
#define OPS1(X) X(negate, -std::declval<A>()) X(posite, +std::declval<A>()) X(unary_minus, -std::declval<A>()) X(unary_plus, +std::declval<A>()) X(bit_not, ~std::declval<A>()) X(complement, ~std::declval<A>()) X(logical_not, !std::declval<A>()) X(pre_increment, ++std::declval<A>()) X(pre_decrement, --std::declval<A>()) X(post_increment, std::declval<A>()++) X(post_decrement, std::declval<A>()--) X(dereference, *std::declval<A>()) X(address_of, &std::declval<A>())
OPS2(DET2) OPS1(DET1)
template<class T, class U> struct d_sub { template<class A, class B> static auto t(int) -> decltype((void)(std::declval<A>()[std::declval<B>()]), std::true_type()); template<class, class> static std::false_type t(...); static const bool value = decltype(t<T, U>(0))::value; };
template<class T, class U> struct d_com { template<class A, class B> static auto t(int) -> decltype((void)((std::declval<A>(), std::declval<B>())), std::true_type()); template<class, class> static std::false_type t(...); static const bool value = decltype(t<T, U>(0))::value; };
template<class T, class U> void binop(std::string const& n) { MON_CASE(c, "of", n);
#define X(t, op) c.eq((bool)sprout::has_##t<T, U>::value, (bool)d_##t<T, U>::value, "has_" #t);
	OPS2(X)
#undef X
	c.eq((bool)sprout::has_subscript<T, U>::value, (bool)d_sub<T, U>::value, "has_subscript"); c.eq((bool)sprout::has_comma<T, U>::value, (bool)d_com<T, U>::value, "has_comma"); }
template<class T> void unop(std::string const& n) { MON_CASE(c, "of", n);
#define X(t, ex) c.eq((bool)sprout::has_##t<T>::value, (bool)e_##t<T>::value, "has_" #t);
	OPS1(X)
#undef X
	binop<T, int>(n + " , int"); binop<T, double>(n + " , double"); binop<T, T>(n + " , itself"); binop<T, char const*>(n + ", char const*"); binop<T, Nop const&>(n + " , Nop const&"); binop<T, int*&>(n + " , int*&"); binop<T, int Nop::*>(n + " , int Nop::*"); }
#define C5(t) unop<t>(#t);
MON_TEST(operators) { C5(int) C5(int&) C5(int const&) C5(bool) C5(double) C5(double&) C5(float&&) C5(int*) C5(int*&) C5(char const*&) C5(Nop) C5(Nop&) C5(Nop const&) C5(Nop*) C5(En) C5(Ec&) C5(std::string) C5(std::string&) C5(std::string const&) C5(Empty&) C5(std::nullptr_t) C5(void(*)()) C5(Conv) C5(std::vector<int>&) C5(int(&)[3]) MON_CASE(c, "result type"); c.ok(sprout::has_plus<int, int, long>::value && !sprout::has_plus<int, int, int*>::value && sprout::has_equal_to<Nop, Nop, bool>::value && !sprout::has_plus<Nop, int, int>::value && sprout::has_subscript<Nop, char, double>::value && !sprout::has_subscript<Nop, char, Nop>::value, "with the result asked for"); }
struct With { typedef int type; static const int value = 3; typedef char foo; }; struct Without { int type; typedef int value; };
MON_TEST(members) { MON_CASE(c, "members"); c.ok(sprout::has_type<With>::value && !sprout::has_type<Without>::value && !sprout::has_type<int>::value, "has_type"); c.ok(sprout::has_value<With>::value && !sprout::has_value<Without>::value && !sprout::has_value<Empty>::value, "has_value"); c.ok((std::is_same<sprout::voider<int, char>::type, void>::value), "voider"); }
template<class E, class F, class... A> void inv(std::string const& n) { MON_CASE(c, "of", n); (void)n;
#if __cplusplus >= 201703L
	c.eq((bool)sprout::is_invocable<F, A...>::value, (bool)std::is_invocable<F, A...>::value, "is_invocable"); c.eq((bool)sprout::is_nothrow_invocable<F, A...>::value, (bool)std::is_nothrow_invocable<F, A...>::value, "is_nothrow_invocable"); c.eq((bool)sprout::is_invocable_r<int, F, A...>::value, (bool)std::is_invocable_r<int, F, A...>::value, "is_invocable_r int"); c.eq((bool)sprout::is_invocable_r<void, F, A...>::value, (bool)std::is_invocable_r<void, F, A...>::value, "is_invocable_r void"); c.eq((bool)sprout::is_invocable_r<int*, F, A...>::value, (bool)std::is_invocable_r<int*, F, A...>::value, "is_invocable_r int*"); c.eq((bool)sprout::is_nothrow_invocable_r<long, F, A...>::value, (bool)std::is_nothrow_invocable_r<long, F, A...>::value, "is_nothrow_invocable_r");
#endif
	c.eq((bool)sprout::is_invocable<F, A...>::value, !std::is_same<E, Without>::value, "is_invocable as expected"); }
template<class E, class F, class... A> void res(std::string const& n) { inv<E, F, A...>(n); MON_CASE(c, n + " result"); c.ok((std::is_same<typename sprout::invoke_result<F, A...>::type, E>::value), "invoke_result"); c.ok((std::is_same<typename sprout::result_of<F(A...)>::type, E>::value), "result_of"); }
#define RS(...) res<__VA_ARGS__>(#__VA_ARGS__);
#define NI(...) inv<Without, __VA_ARGS__>("not " #__VA_ARGS__);
MON_TEST(invocation) { RS(int, Call, int) RS(double, Call&, char*, int) RS(void, Call) RS(int, Call const&, char) RS(int, int(*)(char), int) RS(int, int(&)(char), char) RS(int&, int Pod::*, Pod&) RS(int const&, int Pod::*, Pod const&) RS(int&, int Pod::*, Pod*) RS(int&, int Der::*, Der*) RS(int&, int Base::*, Der&) RS(int, int (Call::*)(int) const, Call const&, int) RS(int, int (Call::*)(int) const, Call const*, short) RS(void, void (Abs::*)(), Vd2&)
	NI(Call const&, char*, int) NI(Call&) NI(int, int) NI(int(*)(char), int*) NI(int(*)(char)) NI(int Pod::*, Base&) NI(int Pod::*) NI(int (Call::*)(int) const, Call&) NI(void (Poly::*)(), Poly const&) NI(Empty) }
#endif
