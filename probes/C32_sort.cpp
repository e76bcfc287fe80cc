// utki::sort: every element stays, in order
#include "sa.hpp"
#include <array>
#include <utki/sort.hpp>
#define SA_INLINE __attribute__((always_inline)) inline
struct item {
	int v, n;
};
struct by_value {
	SA_INLINE constexpr bool operator()(const item& a, const item& b) const { return a.v < b.v; }
};
template <size_t N> SA_INLINE void sorts(){
	item a[N + 2];
	int v[N + 1];
	for(size_t i = 0; i != N + 2; ++i){
		a[i].v = int(sa_any_u32());
		a[i].n = int(i);
	}
	for(size_t i = 0; i != N; ++i) v[i] = a[i + 1].v;
	const int before = a[0].v, after = a[N + 1].v;
	utki::sort(a + 1, a + 1 + N, by_value());
	CLAIM(a[0].v == before && a[0].n == 0);
	CLAIM(a[N + 1].v == after && a[N + 1].n == N + 1);
	for(size_t i = 1; i < N; ++i) CLAIM(a[i].v <= a[i + 1].v);
	for(size_t i = 0; i != N; ++i){
		size_t there = 0;
		for(size_t k = 0; k != N; ++k) if(a[k + 1].n == int(i + 1)){ ++there; CLAIM(a[k + 1].v == v[i]); }
		CLAIM(there == 1);
	}
	REACH("done");
}
PROBE(sort_0)(){ sorts<0>(); }
PROBE(sort_1)(){ sorts<1>(); }
PROBE(sort_2)(){ sorts<2>(); }
PROBE(sort_3)(){ sorts<3>(); }
PROBE(sort_4)(){ sorts<4>(); }
// the order asked for, through iterators of another kind; without an order it is that of the elements
template <size_t N, typename iterators, typename order> SA_INLINE void sorts_numbers(iterators range, order o){
	std::array<int, N> a;
	int v[N];
	for(size_t i = 0; i != N; ++i) v[i] = a[i] = int(sa_any_u32());
	range(a);
	for(size_t i = 0; i + 1 < N; ++i) CLAIM(o(a[i], a[i + 1]));
	// as many of each value as there were
	if(N == 2) for(size_t i = 0; i != N; ++i){
		size_t now = 0, then = 0;
		for(size_t k = 0; k != N; ++k){
			if(a[k] == v[i]) ++now;
			if(v[k] == v[i]) ++then;
		}
		CLAIM(now == then);
	}
	REACH("done");
}
PROBE(ascending)(){
	sorts_numbers<2>([](auto& a){ utki::sort(a.begin(), a.end()); }, [](int l, int r){ return l <= r; });
}
PROBE(descending)(){
	sorts_numbers<3>([](auto& a){ utki::sort(a.data(), a.data() + a.size(), std::greater<>()); }, [](int l, int r){ return l >= r; });
}
PROBE(from_the_end)(){
	sorts_numbers<2>([](auto& a){ utki::sort(a.rbegin(), a.rend()); }, [](int l, int r){ return l >= r; });
}
PROBE(ascending_3)(){
	sorts_numbers<3>([](auto& a){ utki::sort(a.begin(), a.end()); }, [](int l, int r){ return l <= r; });
}
