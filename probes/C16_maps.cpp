// contains, flip_pair, flip_map
#include "sa.hpp"
#include <map>
#include <unordered_map>
#include <array>
#include <functional>
#include <utki/utility.hpp>
PROBE(flip_pair)(int a, unsigned char b){
	auto p = utki::flip_pair(std::pair<int, unsigned char>(a, b));
	static_assert(std::is_same<decltype(p), std::pair<unsigned char, int>>::value, "");
	CLAIM(p.first == b);
	CLAIM(p.second == a);
}
template <class M, int K> __attribute__((always_inline)) inline void in_map(unsigned a, unsigned b, unsigned x){
	M m;
	if constexpr(K == 0) CLAIM(!utki::contains(m, x));
	m.emplace(a, 1);
	if constexpr(K == 1) CLAIM(utki::contains(m, x) == (x == a));
	// which of the two keys comes first: every case
	if constexpr(K == 2) ASSUME(a < b);
	if constexpr(K == 3) ASSUME(a > b);
	if constexpr(K == 4) ASSUME(a == b);
	m.emplace(b, 2);
	if constexpr(K > 1) CLAIM(utki::contains(m, x) == (x == a || x == b));
}
// only the keys are looked at: values that cannot be compared, keys that are ordered but not equal by value
struct opaque { int v; opaque(int v) : v(v) {} bool operator==(const opaque&) const = delete; bool operator<(const opaque&) const = delete; };
#define IN1(k) \
	PROBE(in_map##k)(unsigned a, unsigned b, unsigned x){ in_map<std::map<unsigned, int>, k>(a, b, x); } \
	PROBE(in_greater_map##k)(unsigned a, unsigned b, unsigned x){ in_map<std::map<unsigned, int, std::greater<unsigned>>, k>(a, b, x); } \
	PROBE(in_opaque_map##k)(unsigned a, unsigned b, unsigned x){ in_map<std::map<unsigned, opaque>, k>(a, b, x); } \
	PROBE(in_opaque_unordered_map##k)(unsigned a, unsigned b, unsigned x){ in_map<std::unordered_map<unsigned, opaque>, k>(a, b, x); } \
	PROBE(in_unordered_map##k)(unsigned a, unsigned b, unsigned x){ in_map<std::unordered_map<unsigned, int>, k>(a, b, x); }
IN1(0) IN1(1) IN1(2) IN1(3) IN1(4)
template <size_t N, bool KL, bool VL, bool G> __attribute__((always_inline)) inline void flips(unsigned k0, unsigned k1, unsigned v0, unsigned v1){
	ASSUME(KL ? k0 < k1 : k0 > k1);
	ASSUME(VL ? v0 < v1 : v0 > v1);
	std::map<unsigned, unsigned, std::greater<unsigned>> m;
	if(N > 0) m.emplace(k0, v0);
	if(N > 1) m.emplace(k1, v1);
	auto f = [&]{
		if constexpr(G) return utki::flip_map<std::greater<unsigned>>(m);
		else return utki::flip_map(m);
	}();
	static_assert(std::is_same<decltype(f), std::map<unsigned, unsigned, std::conditional_t<G, std::greater<unsigned>, std::less<unsigned>>>>::value, "");
	CLAIM(f.size() == N);
	if(N > 0) CLAIM(f.at(v0) == k0);
	if(N > 1) CLAIM(f.at(v1) == k1);
	CLAIM(m.size() == N);
}
#define FLIP(n, k, v, g) PROBE(flips_##n##_##k##_##v##_##g)(unsigned k0, unsigned k1, unsigned v0, unsigned v1){ flips<n, k, v, g>(k0, k1, v0, v1); }
#define FLIPS(n, g) FLIP(n, 0, 0, g) FLIP(n, 0, 1, g) FLIP(n, 1, 0, g) FLIP(n, 1, 1, g)
FLIPS(0, 0) FLIPS(0, 1) FLIPS(1, 0) FLIPS(1, 1) FLIPS(2, 0) FLIPS(2, 1)
// two keys with one value: one entry remains, and it is one of the two
PROBE(flips_clash)(unsigned k0, unsigned k1, unsigned v){
	ASSUME(k0 < k1);
	std::map<unsigned, unsigned> m;
	m.emplace(k0, v);
	m.emplace(k1, v);
	auto f = utki::flip_map(m);
	CLAIM(f.size() == 1);
	unsigned k = f.at(v);
	CLAIM(k == k0 || k == k1);
}
