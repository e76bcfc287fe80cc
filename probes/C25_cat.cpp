// cat() and join()
#include "sa.hpp"
#include <string>
#include <string_view>
#include <utki/string.hpp>
#include <utki/debug.hpp>
using sv = std::string_view;
#define SA_INLINE __attribute__((always_inline)) inline
template <size_t N, size_t M> SA_INLINE void cat2(){
	const char* a = (const char*)sa_buffer(N);
	const char* b = (const char*)sa_buffer(M);
	std::string r = utki::cat(sv(a, N), sv(b, M));
	CLAIM(r.size() == N + M);
	for(size_t i = 0; i != N; ++i) CLAIM(r.data()[i] == a[i]);
	for(size_t i = 0; i != M; ++i) CLAIM(r.data()[N + i] == b[i]);
}
#define CAT2(n, m) PROBE(cat_##n##_##m)(){ cat2<n, m>(); }
CAT2(0, 0) CAT2(0, 1) CAT2(1, 0) CAT2(2, 3) CAT2(9, 8) CAT2(20, 3)
PROBE(cat_mixed)(char c, char d){
	char t[3] = {c, d, c};
	std::string s(t, 3);
	std::string r = utki::cat(c, "ab", s, std::string_view(t, 1), d);
	CLAIM(r.size() == 8);
	const char* p = r.data();
	CLAIM(p[0] == c && p[1] == 'a' && p[2] == 'b' && p[3] == c && p[4] == d && p[5] == c && p[6] == c && p[7] == d);
}
PROBE(cat_none)(){
	CLAIM(utki::cat().empty());
}
PROBE(cat_one)(char c){
	std::string r = utki::cat(c);
	CLAIM(r.size() == 1);
	CLAIM(r.data()[0] == c);
}
template <size_t K> struct texts {
	using value_type = std::string;
	std::string e[K ? K : 1];
	const std::string& front() const { return e[0]; }
	bool empty() const { return K == 0; }
	size_t size() const { return K; }
	const std::string* begin() const { return e; }
	const std::string* end() const { return e + K; }
};
template <size_t... n> SA_INLINE void join(char d){
	constexpr size_t K = sizeof...(n);
	constexpr size_t len[K + 1] = {n..., 0};
	texts<K> s;
	const char* p[K + 1];
	for(size_t i = 0; i != K; ++i){
		p[i] = (const char*)sa_buffer(len[i]);
		s.e[i].assign(p[i], len[i]);
	}
	std::string r = utki::join(s, d);
	size_t at = 0;
	for(size_t i = 0; i != K; ++i){
		if(i){
			CLAIM(r.size() > at);
			CLAIM(r.data()[at] == d);
			++at;
		}
		CLAIM(r.size() >= at + len[i]);
		for(size_t k = 0; k != len[i]; ++k) CLAIM(r.data()[at + k] == p[i][k]);
		at += len[i];
	}
	CLAIM(r.size() == at);
}
PROBE(join_none)(char d){ join<>(d); }
PROBE(join_0)(char d){ join<0>(d); }
PROBE(join_2)(char d){ join<2>(d); }
PROBE(join_0_0)(char d){ join<0, 0>(d); }
PROBE(join_1_2)(char d){ join<1, 2>(d); }
PROBE(join_2_0_1)(char d){ join<2, 0, 1>(d); }
PROBE(join_0_1_0)(char d){ join<0, 1, 0>(d); }
PROBE(join_3_8_9)(char d){ join<3, 8, 9>(d); }
PROBE(join_vector)(char a, char b, char d){
	std::vector<std::string> v;
	v.push_back(std::string(1, a));
	v.push_back(std::string(2, b));
	std::string r = utki::join(v, d);
	CLAIM(r.size() == 4);
	const char* p = r.data();
	CLAIM(p[0] == a && p[1] == d && p[2] == b && p[3] == b);
}
// make_string() and make_string_view() of buffers
template <class T, size_t N> SA_INLINE void of_span(){
	const T* b = (const T*)sa_buffer(N);
	std::string r = utki::make_string(utki::span<const T>(b, N));
	CLAIM(r.size() == N);
	for(size_t at = 0; at != N; ++at) CLAIM(r.data()[at] == char(b[at]));
}
#define OF_SPAN(n) PROBE(of_chars_##n)(){ of_span<char, n>(); } PROBE(of_bytes_##n)(){ of_span<uint8_t, n>(); }
OF_SPAN(1) OF_SPAN(2) OF_SPAN(15) OF_SPAN(16) OF_SPAN(20)
PROBE(of_empty)(){
	CLAIM(utki::make_string(utki::span<const char>()).empty());
	CLAIM(utki::make_string(utki::span<const uint8_t>()).empty());
	CLAIM(utki::make_string_view(utki::span<const char>()).empty());
	CLAIM(utki::make_string_view(utki::span<const uint8_t>()).empty());
}
PROBE(view_of_chars)(size_t n){
	const char* b = (const char*)sa_buffer(n);
	sv r = utki::make_string_view(utki::span<const char>(b, n));
	CLAIM(r.size() == n);
	CLAIM(r.data() == b);
}
PROBE(view_of_bytes)(size_t n){
	const uint8_t* b = (const uint8_t*)sa_buffer(n);
	sv r = utki::make_string_view(utki::span<const uint8_t>(b, n));
	CLAIM(r.size() == n);
	CLAIM(r.data() == (const char*)b);
}
PROBE(of_arrays)(char a, char b, uint8_t c, uint8_t d){
	std::array<char, 2> s = {a, b};
	std::string r = utki::make_string(s);
	CLAIM(r.size() == 2);
	CLAIM(r.data()[0] == a && r.data()[1] == b);
	std::array<uint8_t, 2> t = {c, d};
	std::string u = utki::make_string(t);
	CLAIM(u.size() == 2);
	CLAIM(u.data()[0] == char(c) && u.data()[1] == char(d));
}
PROBE(of_vectors)(char a, char b, uint8_t c, uint8_t d){
	std::vector<char> s;
	s.push_back(a);
	s.push_back(b);
	std::string r = utki::make_string(s);
	CLAIM(r.size() == 2);
	CLAIM(r.data()[0] == a && r.data()[1] == b);
	std::vector<uint8_t> t;
	t.push_back(c);
	t.push_back(d);
	std::string u = utki::make_string(t);
	CLAIM(u.size() == 2);
	CLAIM(u.data()[0] == char(c) && u.data()[1] == char(d));
}
