// printing of a span: its elements in order and nothing else
#include "sa.hpp"
#include <sstream>
#include <utki/span.hpp>
template <class T, size_t N> __attribute__((always_inline)) inline void print(){
	const T* b = (const T*)sa_buffer(N * sizeof(T));
	std::stringstream s;
	auto& r = s << utki::span<const T>(b, N);
	CLAIM(&r == &s);
	CLAIM(s.sa_size == N);
	for(size_t i = 0; i != N; ++i) CLAIM(s.sa_text[i] == char(b[i]));
}
#define PRINT(n) PROBE(print_char_##n)(){ print<char, n>(); } PROBE(print_int_##n)(){ print<int, n>(); }
PRINT(0) PRINT(1) PRINT(2) PRINT(5)
