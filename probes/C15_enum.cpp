// enum_iterable and enum_array: every item exactly once, in order; indexing by item touches that element only.
#include "sa.hpp"
#include <utki/enum_array.hpp>
#include <utki/enum_iterable.hpp>
namespace {
enum class one{ a, enum_size };
enum class five : uint8_t{ a, b, c, d, e, enum_size };
enum class sbyte : signed char{ a, b, c, enum_size };
enum class wide : unsigned long long{ a, b, c, d, e, f, g, h, enum_size };
enum class narrow : int16_t{ a, b, enum_size };
enum class none{ enum_size };
enum class big : uint8_t{ first, last = 199, enum_size };
enum class large : int{ first, last = 299, enum_size };

template <class E> __attribute__((always_inline)) inline void all(){
	constexpr size_t n = size_t(E::enum_size);
	const auto& v = utki::enum_iterable_v<E>;
	CLAIM(v.size() == n);
	size_t i = 0;
	for(auto e : v){
		CLAIM(i < n);
		CLAIM(e == E(i));
		++i;
	}
	CLAIM(i == n);
	i = 0;
	for(auto b = v.cbegin(); b != v.cend(); ++b, ++i) CLAIM(*b == E(i));
	CLAIM(i == n);
	i = 0;
	for(auto b = v.begin(); !(b == v.end()); ++b, ++i) CLAIM(*b == E(i));
	CLAIM(i == n);
	CLAIM(v.cbegin() == v.begin());
	CLAIM(v.cend() == v.end());
}
template <class E> __attribute__((always_inline)) inline void backwards(){
	constexpr size_t n = size_t(E::enum_size);
	const auto& v = utki::enum_iterable_v<E>;
	size_t i = n;
	for(auto b = v.rbegin(); b != v.rend(); ++b){
		CLAIM(i > 0);
		--i;
		CLAIM(*b == E(i));
	}
	CLAIM(i == 0);
	i = n;
	for(auto b = v.crbegin(); b != v.crend(); ++b){
		--i;
		CLAIM(*b == E(i));
	}
	CLAIM(i == 0);
	i = n;
	for(auto b = v.end(); b != v.begin();){
		--b;
		--i;
		CLAIM(*b == E(i));
	}
	CLAIM(i == 0);
}
}
#define ITER(E) PROBE(all_##E)(){ all<E>(); } PROBE(backwards_##E)(){ backwards<E>(); }
ITER(one) ITER(five) ITER(sbyte) ITER(wide) ITER(narrow) ITER(none)
// more items than can be followed one by one: the ends, and that a step is a step
template <class E> __attribute__((always_inline)) inline void steps(){
	constexpr size_t n = size_t(E::enum_size);
	const auto& v = utki::enum_iterable_v<E>;
	CLAIM(v.size() == n);
	CLAIM(*v.begin() == E(0));
	CLAIM(*v.end() == E(n));
	CLAIM(v.begin() != v.end());
	auto e = v.end();
	--e;
	CLAIM(*e == E(n - 1));
	CLAIM(e != v.end());
	++e;
	CLAIM(e == v.end());
	auto b = v.begin();
	++b;
	CLAIM(*b == E(1));
	CLAIM(b != v.begin());
	--b;
	CLAIM(b == v.begin());
	CLAIM(*v.rbegin() == E(n - 1));
}
PROBE(steps_big)(){ steps<big>(); }
PROBE(steps_large)(){ steps<large>(); }

template <class E, class T> __attribute__((always_inline)) inline void index(unsigned i, unsigned j, T x){
	constexpr size_t n = size_t(E::enum_size);
	static_assert(sizeof(utki::enum_array<T, E>) == n * sizeof(T), "");
	utki::enum_array<T, E> a;
	const auto& c = a;
	sa_escape(&a);
	ASSUME(i < n && j < n && i != j);
	CLAIM(a.size() == n);
	CLAIM(&a[E(i)] == a.data() + i);
	CLAIM(&c[E(i)] == a.data() + i);
	CLAIM(&a[size_t(i)] == a.data() + i);
	a[E(i)] = x;
	CLAIM(c[E(i)] == x);
	CLAIM(&c[E(j)] != &a[E(i)]);
}
PROBE(index_five)(unsigned i, unsigned j, uint16_t x){ index<five>(i, j, x); }
PROBE(index_wide)(unsigned i, unsigned j, uint64_t x){ index<wide>(i, j, x); }
PROBE(index_big)(unsigned i, unsigned j, uint8_t x){ index<big>(i, j, x); }
PROBE(index_large)(unsigned i, unsigned j, uint32_t x){ index<large>(i, j, x); }
PROBE(index_sbyte)(unsigned i, unsigned j, uint32_t x){ index<sbyte>(i, j, x); }

template <class E> __attribute__((always_inline)) inline void zipped(){
	constexpr size_t n = size_t(E::enum_size);
	utki::enum_array<int, E> a;
	sa_escape(&a);
	size_t i = 0;
	for(auto p : a.zip_with_enum()){
		CLAIM(i < n);
		CLAIM(&std::get<0>(p) == a.data() + i);
		CLAIM(std::get<1>(p) == E(i));
		std::get<0>(p) = int(i);
		++i;
	}
	CLAIM(i == n);
	const auto& c = a;
	i = 0;
	for(auto p : c.zip_with_enum()){
		CLAIM(&std::get<0>(p) == a.data() + i);
		CLAIM(std::get<1>(p) == E(i));
		CLAIM(std::get<0>(p) == int(i));
		++i;
	}
	CLAIM(i == n);
}
PROBE(zipped_one)(){ zipped<one>(); }
PROBE(zipped_five)(){ zipped<five>(); }
PROBE(zipped_sbyte)(){ zipped<sbyte>(); }
PROBE(zipped_wide)(){ zipped<wide>(); }
