// make_vector: the viewed elements, in order, in a vector of their own.
#include <vector>
#include "sa.hpp"
#include <utki/span.hpp>
template <size_t N> __attribute__((always_inline)) inline void copies(int a, int b, int c, int d){
	int e[4] = {a, b, c, d};
	auto v = utki::make_vector(utki::make_span(e, N));
	CLAIM(v.size() == N);
	if constexpr(N > 0) CLAIM(v[0] == a);
	if constexpr(N > 1) CLAIM(v[1] == b);
	if constexpr(N > 2) CLAIM(v[2] == c);
	if constexpr(N > 3) CLAIM(v[3] == d);
	CLAIM(N == 0 || static_cast<void*>(v.data()) != e);
	// and back
	auto s = utki::make_span(v);
	CLAIM(s.size() == N);
	CLAIM(N == 0 || s.data() == v.data());
	const auto& cv = v;
	utki::span<const int> k(cv);
	CLAIM(k.size() == N);
	CLAIM(N == 0 || k.data() == v.data());
	CLAIM(utki::make_span(cv).size() == N);
	CLAIM(N == 0 || utki::make_span(cv).data() == v.data());
	utki::span<int> m(v);
	CLAIM(m.size() == N);
	CLAIM(N == 0 || m.data() == v.data());
}
PROBE(copies0)(int a, int b, int c, int d){ copies<0>(a, b, c, d); }
PROBE(copies1)(int a, int b, int c, int d){ copies<1>(a, b, c, d); }
PROBE(copies2)(int a, int b, int c, int d){ copies<2>(a, b, c, d); }
PROBE(copies3)(int a, int b, int c, int d){ copies<3>(a, b, c, d); }
PROBE(copies4)(int a, int b, int c, int d){ copies<4>(a, b, c, d); }
