#include <type_traits>
#include <utki/singleton.hpp>
class s : public utki::singleton<s>{ public: int v = 3; };
class t : public utki::intrusive_singleton<t, t>{
	friend class utki::intrusive_singleton<t, t>;
	static utki::intrusive_singleton<t, t>::instance_type instance;
};
// @ok a singleton is made, used and asked for
int f(){ s x; return s::is_created() ? s::inst().v : x.v; }
int g(){ t x; return t::is_created(); }
// @ok it can be neither copied, moved nor assigned
template <class T> constexpr bool pinned = !std::is_copy_constructible<T>::value && !std::is_move_constructible<T>::value && !std::is_copy_assignable<T>::value && !std::is_move_assignable<T>::value;
static_assert(pinned<s> && pinned<t>, "");
// @ok it is destroyed correctly through its base, without throwing
static_assert(std::has_virtual_destructor<s>::value && std::has_virtual_destructor<t>::value, "");
static_assert(std::is_nothrow_destructible<s>::value && std::is_nothrow_destructible<t>::value, "");
// @reject copying a singleton
void f(s& x){ s y(x); }
// @reject the base class made on its own, without an object of the singleton type
utki::singleton<s> x;
// @reject replacing the instance from outside
void f(){ s::instance.reset(); }
