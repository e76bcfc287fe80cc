#include <functional>
#include <type_traits>
#include <utki/signal.hpp>
// @ok the documented interface
static_assert(std::is_same<utki::signal<int, char>::callback_type, std::function<void(int, char)>>::value, "");
static_assert(noexcept(std::declval<utki::signal<int>&>().disconnect(std::declval<utki::signal<int>::connection>())), "");
static_assert(noexcept(std::declval<const utki::signal<int>&>().size()) && noexcept(std::declval<const utki::signal<int>&>().empty()), "");
static_assert(std::is_same<decltype(std::declval<utki::signal<int>&>().connect(utki::signal<int>::callback_type())), utki::signal<int>::connection>::value, "");
inline void f(utki::signal<int&, const char*>& s){ int i = 0; s.emit(i, "x"); }
// @reject an argument passed by reference must be one
inline void f(utki::signal<int&>& s){ s.emit(1); }
// @reject a callback with other parameters
inline void f(utki::signal<int>& s){ s.connect([](int*){}); }
// @reject emitting needs write access
inline void f(const utki::signal<int>& s){ s.emit(1); }
