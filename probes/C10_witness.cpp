#include <functional>
#include <type_traits>
#include <utility>
#include <utki/utility.hpp>
using utki::scope_exit;
// @ok made from a lambda, a function object, a std::function
void f(std::function<void()> g){ scope_exit a([](){}); scope_exit b(std::move(g)); auto h = b.release(); }
// @ok not copied or moved: the action would run twice or move to another scope
static_assert(!std::is_copy_constructible<scope_exit>::value && !std::is_move_constructible<scope_exit>::value, "");
static_assert(!std::is_copy_assignable<scope_exit>::value && !std::is_move_assignable<scope_exit>::value, "");
// @ok destruction and release never throw
static_assert(std::is_nothrow_destructible<scope_exit>::value, "");
static_assert(noexcept(std::declval<scope_exit&>().release()), "");
static_assert(std::is_same<decltype(std::declval<scope_exit&>().release()), std::function<void()>>::value, "");
// @reject moving a scope_exit
void f(scope_exit& s){ scope_exit t(std::move(s)); }
// @reject copying a scope_exit
void f(scope_exit& s){ scope_exit t(s); }
// @reject a scope_exit without action
scope_exit s;
