#include <array>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <utki/span.hpp>
struct base{ int b; };
struct derived : public base{ int d; };
using utki::span;
template <class F, class T> inline constexpr bool conv = std::is_convertible<F, T>::value;
// @ok constness is only ever added
static_assert(conv<span<int>, span<const int>> && !conv<span<const int>, span<int>> && !std::is_constructible<span<int>, span<const int>>::value, "");
static_assert(!std::is_constructible<span<int>, const std::vector<int>&>::value && conv<const std::vector<int>&, span<const int>>, "");
static_assert(!std::is_constructible<span<char>, const std::string&>::value && conv<const std::string&, span<const char>>, "");
static_assert(!std::is_constructible<span<char>, std::string_view>::value && conv<std::string_view, span<const char>>, "");
// @ok elements of another size or type are not viewed: a step of the iterator is always a step to the next element
static_assert(!std::is_constructible<span<base>, span<derived>>::value && !std::is_constructible<span<const base>, span<const derived>>::value, "");
static_assert(!std::is_constructible<span<int>, span<unsigned>>::value && !std::is_constructible<span<const long long>, span<int>>::value, "");
static_assert(!std::is_constructible<span<const base>, const std::vector<derived>&>::value && !std::is_constructible<span<const unsigned>, const std::vector<int>&>::value, "");
static_assert(!std::is_constructible<span<const int>, std::string_view>::value && !std::is_constructible<span<const wchar_t>, const std::string&>::value, "");
static_assert(!std::is_constructible<span<int>, std::array<unsigned, 3>&>::value && !std::is_constructible<span<base>, std::array<derived, 3>&>::value, "");
// @ok what make_span gives
static_assert(std::is_same<decltype(utki::make_span(std::declval<const std::vector<int>&>())), span<const int>>::value, "");
static_assert(std::is_same<decltype(utki::make_span(std::declval<std::vector<int>&>())), span<int>>::value, "");
static_assert(std::is_same<decltype(utki::make_span(std::declval<const std::string&>())), span<const char>>::value, "");
static_assert(std::is_same<decltype(utki::make_span(std::declval<const std::array<int, 2>&>())), span<const int>>::value, "");
static_assert(std::is_same<decltype(utki::make_span(std::declval<std::array<int, 2>&>())), span<int>>::value, "");
static_assert(std::is_same<decltype(utki::make_span(std::declval<const int*>(), size_t(1))), span<const int>>::value, "");
static_assert(std::is_same<decltype(utki::make_span("abc")), span<const char>>::value, "");
static_assert(std::is_same<decltype(utki::make_vector(std::declval<span<const int>>())), std::vector<int>>::value, "");
static_assert(std::is_same<decltype(utki::to_uint8_t(std::declval<span<const char>>())), span<const uint8_t>>::value, "");
static_assert(std::is_same<decltype(utki::to_char(std::declval<span<const uint8_t>>())), span<const char>>::value, "");
// @ok a span is copied freely and its accessors do not throw
static_assert(std::is_trivially_copyable<span<int>>::value && std::is_nothrow_default_constructible<span<int>>::value, "");
static_assert(noexcept(std::declval<const span<int>&>().size()) && noexcept(std::declval<const span<int>&>().begin()) && noexcept(std::declval<const span<int>&>().end()), "");
// @ok elements of a span of non-const are written through a copy of the span
inline void f(span<int> s){ for(auto& e : s) e = 1; s[0] = 2; *s.begin() = 3; s.front() = 4; s.back() = 5; s.at(0) = 6; }
// @reject elements of a span of const are not written
inline void f(span<const int> s){ s[0] = 1; }
// @reject elements of a span of const are not written through an iterator
inline void f(span<const int> s){ *s.begin() = 1; }
// @reject elements of a span of const are not written through data()
inline void f(span<const int> s){ *s.data() = 1; }
// @reject a span of non-const cannot view an initializer list
inline void f(){ span<int> s({1, 2, 3}); }
// @ok a span of const may, for the duration of a call
inline size_t g(span<const int> s){ return s.size(); }
inline size_t f(){ return g({1, 2, 3}); }
