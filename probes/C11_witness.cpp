#include <memory>
#include <type_traits>
#include <utility>
#include <utki/destructable.hpp>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>
struct base{ virtual ~base() = default; };
struct derived : public base{};
struct other{};
struct sh : public utki::shared{ int v = 0; };
using utki::shared_ref;
using utki::unique_ref;
// @ok never without an object: no default constructor, nothing made from nullptr, from a pointer or implicitly from a smart pointer
static_assert(!std::is_default_constructible<shared_ref<base>>::value && !std::is_default_constructible<unique_ref<base>>::value, "");
static_assert(!std::is_convertible<std::nullptr_t, shared_ref<base>>::value && !std::is_convertible<std::nullptr_t, unique_ref<base>>::value, "");
static_assert(!std::is_convertible<base*, shared_ref<base>>::value && !std::is_convertible<base*, unique_ref<base>>::value, "");
static_assert(!std::is_constructible<shared_ref<base>, base*>::value && !std::is_constructible<unique_ref<base>, base*>::value, "");
static_assert(!std::is_convertible<std::shared_ptr<base>, shared_ref<base>>::value && !std::is_convertible<std::unique_ptr<base>, unique_ref<base>>::value, "");
static_assert(std::is_constructible<shared_ref<base>, std::shared_ptr<base>>::value && std::is_constructible<unique_ref<base>, std::unique_ptr<base>>::value, "");
// @ok shared_ref is copied, moved, assigned; unique_ref is only moved
static_assert(std::is_copy_constructible<shared_ref<base>>::value && std::is_copy_assignable<shared_ref<base>>::value, "");
static_assert(std::is_move_constructible<shared_ref<base>>::value && std::is_move_assignable<shared_ref<base>>::value, "");
static_assert(!std::is_copy_constructible<unique_ref<base>>::value && !std::is_copy_assignable<unique_ref<base>>::value, "");
static_assert(std::is_move_constructible<unique_ref<base>>::value && std::is_move_assignable<unique_ref<base>>::value, "");
// @ok converts where the pointers convert, and only there
static_assert(std::is_convertible<shared_ref<derived>, shared_ref<base>>::value && std::is_convertible<shared_ref<derived>, shared_ref<const derived>>::value, "");
static_assert(!std::is_convertible<shared_ref<base>, shared_ref<derived>>::value && !std::is_convertible<shared_ref<const base>, shared_ref<base>>::value, "");
static_assert(!std::is_constructible<shared_ref<base>, shared_ref<other>>::value && !std::is_constructible<shared_ref<derived>, shared_ref<base>>::value, "");
static_assert(std::is_convertible<unique_ref<derived>, unique_ref<base>>::value && !std::is_convertible<unique_ref<base>, unique_ref<derived>>::value, "");
static_assert(!std::is_constructible<unique_ref<base>, unique_ref<derived>&>::value && !std::is_constructible<unique_ref<base>, const unique_ref<derived>&>::value, "");
static_assert(!std::is_constructible<unique_ref<derived>, unique_ref<const derived>>::value, "");
// @ok converts to the smart pointers and to the object
static_assert(std::is_convertible<shared_ref<base>, std::shared_ptr<base>>::value && std::is_convertible<shared_ref<base>, std::weak_ptr<base>>::value, "");
static_assert(std::is_convertible<shared_ref<base>, std::shared_ptr<const base>>::value && std::is_convertible<shared_ref<base>, std::weak_ptr<const base>>::value, "");
static_assert(!std::is_convertible<shared_ref<const base>, std::shared_ptr<base>>::value && !std::is_convertible<shared_ref<const base>, base&>::value, "");
static_assert(std::is_convertible<const shared_ref<base>&, base&>::value && std::is_convertible<const unique_ref<base>&, base&>::value, "");
// @ok get() yields the object as typed
static_assert(std::is_same<decltype(std::declval<const shared_ref<base>&>().get()), base&>::value && std::is_same<decltype(std::declval<const shared_ref<const base>&>().get()), const base&>::value, "");
static_assert(std::is_same<decltype(std::declval<const unique_ref<base>&>().get()), base&>::value && std::is_same<decltype(std::declval<const unique_ref<const base>&>().get()), const base&>::value, "");
static_assert(noexcept(std::declval<shared_ref<base>&>().get()) && noexcept(std::declval<unique_ref<base>&>().get()), "");
// @ok objects of shared types are made through make_shared
utki::shared_ref<sh> f(){ return utki::make_shared<sh>(); }
utki::shared_ref<sh> g(sh& s){ return utki::make_shared_from(s); }
std::weak_ptr<sh> h(sh& s){ return utki::make_weak_from(s); }
// @ok destructable and shared have virtual destructors
static_assert(std::has_virtual_destructor<utki::destructable>::value && std::has_virtual_destructor<utki::shared>::value, "");
static_assert(std::is_nothrow_destructible<utki::destructable>::value && std::is_nothrow_destructible<utki::shared>::value, "");
// @ok unique_ref gives its pointer up
std::unique_ptr<base> f(unique_ref<derived> r){ return std::move(r).to_unique_ptr(); }
// @reject taking the pointer out of a unique_ref that stays in use
std::unique_ptr<base> f(unique_ref<base>& r){ return r.to_unique_ptr(); }
// @reject an object of a shared type made with plain new
sh* f(){ return new sh; }
// @reject changing the pointer of a shared_ref
void f(shared_ref<base>& r){ r.to_shared_ptr().reset(); }
// @reject changing the pointer of a shared_ref through its conversion
void f(shared_ref<base>& r){ std::shared_ptr<base>& p = r; p.reset(); }
// @reject make_shared_from of a type that is not shared
void f(base& b){ utki::make_shared_from(b); }
// @reject make_weak_from of a type that is not shared
void f(base& b){ utki::make_weak_from(b); }
// @reject a reference to nothing
shared_ref<base> r;
// @reject a unique reference to nothing
unique_ref<base> r(nullptr, 0);
