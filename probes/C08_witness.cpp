#include <mutex>
#include <type_traits>
#include <utility>
#include <utki/spin_lock.hpp>
// @ok works with the standard lock guards
int f(utki::spin_lock& l){ { std::lock_guard<utki::spin_lock> g(l); } std::unique_lock<utki::spin_lock> u(l); u.unlock(); u.lock(); return 0; }
// @ok starts default-constructed
utki::spin_lock l; utki::spin_lock k{};
// @ok cannot be copied or assigned: two copies would not exclude each other
static_assert(!std::is_copy_constructible<utki::spin_lock>::value && !std::is_copy_assignable<utki::spin_lock>::value, "");
static_assert(!std::is_move_constructible<utki::spin_lock>::value && !std::is_move_assignable<utki::spin_lock>::value, "");
// @reject locking a constant lock
void f(const utki::spin_lock& l){ l.lock(); }
// @reject copying a lock
utki::spin_lock f(utki::spin_lock& l){ return l; }
