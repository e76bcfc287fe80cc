#include <map>
#include <string>
#include <vector>
#include <type_traits>
#include <utki/linq.hpp>
struct item { int v; };
using items = std::vector<item>;
// @ok what the steps give
inline void f(items& l, const items& c){
	auto value = [](const item& i){ return long(i.v); };
	auto indexed = [](const item& i, size_t){ return i.v; };
	auto yes = [](const item&){ return true; };
	auto key = [](const item& i) -> const int& { return i.v; };
	auto group = [](const item& i){ return i.v; };
	static_assert(std::is_same<decltype(utki::linq(l).get()), const items&>::value, "a collection which is somebody else's is only looked at");
	static_assert(std::is_same<decltype(utki::linq(c).get()), const items&>::value, "");
	static_assert(std::is_same<std::remove_const_t<decltype(utki::linq(items()).get())>, items>::value, "");
	static_assert(std::is_same<decltype(utki::linq(l).select(value).get()), std::vector<long>>::value, "");
	static_assert(std::is_same<decltype(utki::linq(l).select(indexed).get()), std::vector<int>>::value, "");
	static_assert(std::is_same<decltype(utki::linq(l).where(yes).get()), items>::value, "");
	static_assert(std::is_same<decltype(utki::linq(l).order_by(key).get()), items>::value, "");
	static_assert(std::is_same<decltype(utki::linq(l).group_by(group).get()), std::map<int, items>>::value, "");
}
// @ok the pair of a map is looked at like any element
inline void f(const std::map<int, std::string>& m){
	utki::linq(m).select([](const auto& p){ return p.second; }).get();
	utki::linq(m).where([](const auto& p){ return p.first == 1; }).get();
}
// @reject a predicate which may write to the element
inline void f(items& c){ utki::linq(c).where([](item& i){ return i.v == 1; }); }
// @reject a predicate which may write to the element of a temporary
inline void f(){ utki::linq(items()).where([](item& i){ return i.v == 1; }); }
// @reject a predicate which takes its element away
inline void f(){ utki::linq(items()).where([](item&& i){ return i.v == 1; }); }
// @reject a predicate which answers by a number
inline void f(items& c){ utki::linq(c).where([](const item& i){ return i.v; }); }
// @reject an order over temporaries
inline void f(items& c){ utki::linq(c).order_by([](const item& i){ return i.v; }); }
// @reject an order by something which may be written to
inline void f(items& c){ static int k; utki::linq(c).order_by([](const item&) -> int& { return k; }); }
// @reject an order function which may write to the element
inline void f(items& c){ utki::linq(c).order_by([](item& i) -> const int& { return i.v; }); }
// @reject a key function which may write to the element
inline void f(items& c){ utki::linq(c).group_by([](item& i){ return i.v; }); }
// @reject a key function without a key
inline void f(items& c){ utki::linq(c).group_by([](const item&){}); }
// @reject a projection of the wrong number of parameters
inline void f(items& c){ utki::linq(c).select([](const item& i, size_t, int){ return i.v; }); }
// @reject a projection which may write to an element that is not to be written to
inline void f(items& c){ utki::linq(c).select([](item& i){ return i.v; }); }
