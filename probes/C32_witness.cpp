// utki::sort at compile time
#include <array>
#include <functional>
#include <utki/sort.hpp>
constexpr bool sorts_five(){
	int a[5] = {4, 1, 3, 1, 5};
	utki::sort(a, a + 5);
	return a[0] == 1 && a[1] == 1 && a[2] == 3 && a[3] == 4 && a[4] == 5;
}
struct by_remainder {
	constexpr bool operator()(int l, int r) const { return l % 10 < r % 10; }
};
constexpr bool sorts_in_order(){
	int a[3] = {11, 25, 30};
	utki::sort(a, a + 3, by_remainder());
	return a[0] == 30 && a[1] == 11 && a[2] == 25;
}
// @ok sorting is possible while compiling
static_assert(sorts_five(), "");
// @ok with an order of one's own
static_assert(sorts_in_order(), "");
