#include <type_traits>
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
enum class good : unsigned char{ a, b, c, enum_size };
enum plain{ pa, pb, enum_size };
enum class unsized{ a, b };
// @ok the array has one element per item, and item and iterator types are what they should be
static_assert(std::tuple_size<utki::enum_array<int, good>::base_type>::value == 3, "");
static_assert(std::is_same<decltype(*utki::enum_iterable_v<good>.begin()), good>::value, "");
static_assert(utki::enum_iterable_v<good>.size() == 3, "");
static_assert(std::is_same<decltype(std::declval<const utki::enum_array<int, good>&>()[good::a]), const int&>::value, "");
static_assert(std::is_same<decltype(std::declval<utki::enum_array<int, good>&>()[good::a]), int&>::value, "");
static_assert(noexcept(std::declval<utki::enum_array<int, good>&>()[good::a]), "");
// @ok all the ways to walk
inline int f(){ int n = 0; for(auto e : utki::enum_iterable_v<good>) n += int(e); for(auto i = utki::enum_iterable_v<good>.rbegin(); i != utki::enum_iterable_v<good>.rend(); ++i) n += int(*i); for(auto i = utki::enum_iterable_v<good>.crbegin(); i != utki::enum_iterable_v<good>.crend(); ++i) n += int(*i); return n; }
// @reject an item of another enumeration does not index the array
enum class other{ a, enum_size };
inline int f(utki::enum_array<int, good>& a){ return a[other::a]; }
// @reject an unscoped enumeration
inline size_t f(){ return utki::enum_iterable<plain>().size(); }
// @reject an enumeration without enum_size
inline size_t f(){ return utki::enum_iterable<unsized>().size(); }
// @reject an array indexed by an enumeration without enum_size
inline size_t f(){ return utki::enum_array<int, unsized>().size(); }
// @reject an iterator is not made from an arbitrary number
inline auto f(){ return utki::enum_iterable<good>::iterator(good::b); }
