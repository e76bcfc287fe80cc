// what the real standard headers bring along, for code compiled against the stand-ins
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

// libstdc++ unrolls the search by four, which only obscures it; this is the same search
namespace std{
template <class T, class pred_type>
constexpr T* __find_if(T* i, T* e, pred_type pred, random_access_iterator_tag){
	while(i != e && !pred(i)) ++i;
	return i;
}
template <class T, class C, class pred_type>
constexpr __gnu_cxx::__normal_iterator<T, C> __find_if(__gnu_cxx::__normal_iterator<T, C> i, __gnu_cxx::__normal_iterator<T, C> e, pred_type pred, random_access_iterator_tag){
	while(i != e && !pred(i)) ++i;
	return i;
}
}
