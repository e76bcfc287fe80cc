#include <array>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <utki/destructable.hpp>
#include <utki/type_traits.hpp>
#include <utki/utility.hpp>
#include <utki/variant.hpp>
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
enum class scoped_int{ a };
enum class scoped_u8 : unsigned char{ a };
enum class scoped_bool : bool{ a };
enum class scoped_empty{};
enum unscoped_default{ ua };
enum unscoped_fixed : unsigned short{ ub };
struct with_type{ using type = int; };
struct with_void{ using type = void; };
struct without_type{ int t; };
class private_type{ using type = int; };
template <class A, class B> struct two{};
template <class... A> struct many{};
// @ok uint_size and int_size: the smallest integer type of at least that many bytes, of the right signedness
template <size_t n> constexpr bool sizes(){
	using u = typename utki::uint_size<n>::type;
	using i = typename utki::int_size<n>::type;
	constexpr size_t want = n <= 1 ? 1 : n <= 2 ? 2 : n <= 4 ? 4 : 8;
	return sizeof(u) == want && sizeof(i) == want && std::is_unsigned<u>::value && std::is_signed<i>::value && std::is_integral<u>::value && std::is_integral<i>::value;
}
static_assert(sizes<1>(), ""); static_assert(sizes<2>(), ""); static_assert(sizes<3>(), ""); static_assert(sizes<4>(), "");
static_assert(sizes<5>(), ""); static_assert(sizes<6>(), ""); static_assert(sizes<7>(), ""); static_assert(sizes<8>(), "");
// @reject there is no integer of nine bytes
using t = utki::uint_size<9>::type;
// @reject there is no signed integer of nine bytes
using t = utki::int_size<9>::type;
// @reject there is no integer of no bytes
using t = utki::uint_size<0>::type;
// @ok remove_const_pointer drops one pointer and the const of what it points to
static_assert(same<utki::remove_const_pointer_t<const char*>, char>, "");
static_assert(same<utki::remove_const_pointer_t<char*>, char>, "");
static_assert(same<utki::remove_const_pointer_t<char* const>, char>, "");
static_assert(same<utki::remove_const_pointer_t<const int* const>, int>, "");
static_assert(same<utki::remove_const_pointer_t<const int**>, const int*>, "");
static_assert(same<utki::remove_const_pointer_t<volatile int*>, volatile int>, "");
static_assert(same<utki::remove_const_pointer_t<int>, int>, "");
// @ok remove_const_reference drops the reference, of either kind, and the const
static_assert(same<utki::remove_const_reference_t<const char&>, char>, "");
static_assert(same<utki::remove_const_reference_t<char&>, char>, "");
static_assert(same<utki::remove_const_reference_t<const char&&>, char>, "");
static_assert(same<utki::remove_const_reference_t<char&&>, char>, "");
static_assert(same<utki::remove_const_reference_t<const char>, char>, "");
static_assert(same<utki::remove_const_reference_t<char>, char>, "");
static_assert(same<utki::remove_const_reference_t<const int* const&>, const int*>, "");
static_assert(same<utki::remove_const_reference_t<volatile int&>, volatile int>, "");
static_assert(same<utki::remove_const_reference<const std::string&>::type, std::string>, "");
// @ok is_type_defined and type_or_void
static_assert(utki::is_type_defined<with_type>::value, "");
static_assert(utki::is_type_defined<with_void>::value, "");
static_assert(!utki::is_type_defined<without_type>::value, "");
static_assert(!utki::is_type_defined<private_type>::value, "");
static_assert(!utki::is_type_defined<int>::value, "");
static_assert(same<utki::type_or_void_t<with_type>, int>, "");
static_assert(same<utki::type_or_void_t<with_void>, void>, "");
static_assert(same<utki::type_or_void_t<without_type>, void>, "");
static_assert(same<utki::type_or_void_t<int>, void>, "");
static_assert(same<utki::type_or_void_t<std::enable_if<true, char>>, char>, "");
static_assert(same<utki::type_or_void_t<std::enable_if<false, char>>, void>, "");
// @ok is_specialization_of
static_assert(utki::is_specialization_of_v<std::vector, std::vector<int>>, "");
static_assert(utki::is_specialization_of_v<std::unique_ptr, std::unique_ptr<int>>, "");
static_assert(utki::is_specialization_of_v<two, two<int, char>>, "");
static_assert(utki::is_specialization_of_v<many, many<>>, "");
static_assert(utki::is_specialization_of_v<many, many<int, int, int>>, "");
static_assert(!utki::is_specialization_of_v<std::vector, std::unique_ptr<int>>, "");
static_assert(!utki::is_specialization_of_v<two, many<int, char>>, "");
static_assert(!utki::is_specialization_of_v<many, two<int, char>>, "");
static_assert(!utki::is_specialization_of_v<std::vector, int>, "");
static_assert(utki::is_specialization_of<std::vector, std::vector<char>>::value, "");
// @ok is_scoped_enum: scoped enumerations of any underlying type and nothing else
static_assert(utki::is_scoped_enum_v<scoped_int>, "");
static_assert(utki::is_scoped_enum_v<scoped_u8>, "");
static_assert(utki::is_scoped_enum_v<scoped_bool>, "");
static_assert(utki::is_scoped_enum_v<scoped_empty>, "");
static_assert(!utki::is_scoped_enum_v<unscoped_default>, "");
static_assert(!utki::is_scoped_enum_v<unscoped_fixed>, "");
static_assert(!utki::is_scoped_enum_v<int>, "");
static_assert(!utki::is_scoped_enum_v<bool>, "");
static_assert(!utki::is_scoped_enum_v<with_type>, "");
static_assert(!utki::is_scoped_enum_v<scoped_int*>, "");
static_assert(!utki::is_scoped_enum_v<scoped_int&>, "");
// @ok index_of: the position of the alternative
using v3 = std::variant<int, std::string, const char*>;
static_assert(utki::index_of_v<int, v3> == 0, "");
static_assert(utki::index_of_v<std::string, v3> == 1, "");
static_assert(utki::index_of_v<const char*, v3> == 2, "");
static_assert(utki::index_of<const char*, v3>::value == 2, "");
static_assert(utki::index_of_v<unsigned, std::variant<int, unsigned, long, char, bool>> == 1, "");
static_assert(utki::index_of_v<bool, std::variant<int, unsigned, long, char, bool>> == 4, "");
static_assert(utki::index_of_v<long, std::variant<int, unsigned, long, char, bool>> == 2, "");
static_assert(same<std::variant_alternative_t<utki::index_of_v<char, std::variant<bool, char, int>>, std::variant<bool, char, int>>, char>, "");
// @reject the index of a type which is no alternative, even if it converts to one
constexpr auto i = utki::index_of_v<short, std::variant<int, std::string>>;
// @reject the index of a type which is no alternative of a variant of one
constexpr auto i = utki::index_of_v<char, std::variant<int>>;
// @ok overloaded calls the overload of the type at hand
struct f1{ constexpr int operator()(int) const { return 1; } };
struct f2{ constexpr int operator()(const char*) const { return 2; } };
struct f3{ constexpr long operator()(double) const { return 3; } };
constexpr utki::overloaded<f1, f2, f3> o{f1(), f2(), f3()};
static_assert(o(0) == 1 && o("") == 2 && o(1.0) == 3, "");
static_assert(same<decltype(o(1.0)), long>, "");
static_assert(same<decltype(utki::overloaded{f1(), f2()}), utki::overloaded<f1, f2>>, "");
// @reject overloaded has no overload for another type
struct f1{ constexpr int operator()(int*) const { return 1; } };
struct f2{ constexpr int operator()(const char*) const { return 2; } };
constexpr int r = utki::overloaded<f1, f2>{f1(), f2()}(1.0);
// @ok offset_sequence adds the offset to each index and keeps their order
static_assert(same<utki::offset_sequence_t<3, std::index_sequence<0, 1, 2>>, std::index_sequence<3, 4, 5>>, "");
static_assert(same<utki::offset_sequence_t<1, std::index_sequence<5, 0, 5>>, std::index_sequence<6, 1, 6>>, "");
static_assert(same<utki::offset_sequence_t<0, std::index_sequence<7>>, std::index_sequence<7>>, "");
static_assert(same<utki::offset_sequence_t<9, std::index_sequence<>>, std::index_sequence<>>, "");
static_assert(same<utki::offset_sequence<2, std::make_index_sequence<2>>::type, std::index_sequence<2, 3>>, "");
// @ok the masks of the bits, the nibbles and the byte
static_assert(utki::byte_bits == 8 && utki::nibble_bits == 4, "");
static_assert(utki::bit_0_mask == 1 && utki::bit_1_mask == 2 && utki::bit_2_mask == 4 && utki::bit_3_mask == 8, "");
static_assert(utki::bit_4_mask == 16 && utki::bit_5_mask == 32 && utki::bit_6_mask == 64 && utki::bit_7_mask == 128, "");
static_assert(utki::lower_nibble_mask == 15 && utki::upper_nibble_mask == 240 && utki::byte_mask == 255, "");
static_assert(utki::kilobyte == 1024, "");
// @ok a destructable is destroyed through the base
static_assert(std::has_virtual_destructor<utki::destructable>::value, "");
static_assert(std::is_nothrow_destructible<utki::destructable>::value, "");
struct derived : utki::destructable{ std::string s; };
static_assert(std::is_convertible<derived*, utki::destructable*>::value, "");
static_assert(std::is_copy_constructible<derived>::value && std::is_copy_assignable<derived>::value, "");
