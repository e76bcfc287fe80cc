// string_parser, every text of up to LEN characters: exactly where the reading stops
#include "sa.hpp"
#include <string_view>
#include <utki/string.hpp>
using utki::string_parser;
using sv = std::string_view;
#define SA_INLINE __attribute__((always_inline)) inline
static bool space(char c){ return c == ' ' || ('\t' <= c && c <= '\r'); }
template <class P> SA_INLINE size_t first(const char* t, size_t n, P pred){
	for(size_t i = 0; i != n; ++i)
		if(pred(t[i])) return i;
	return n;
}
template <size_t N> SA_INLINE void left(const char* t, size_t consumed, const string_parser& p){
	CLAIM(p.size() == N - consumed);
	CLAIM(p.empty() || p.get_view().data() == t + consumed);
}
template <size_t N> SA_INLINE void until(char c){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	size_t e = first(t, N, [&](char x){ return x == c; });
	sv r = p.read_chars_until(c);
	CLAIM(r.size() == e);
	left<N>(t, e, p);
}
template <size_t N> SA_INLINE void word(){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	size_t e = first(t, N, [&](char x){ return space(x); });
	sv r = p.read_word();
	CLAIM(r.size() == e);
	left<N>(t, e, p);
}
template <size_t N> SA_INLINE void word_until(char c){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	size_t e = first(t, N, [&](char x){ return space(x) || x == c; });
	sv r = p.read_word_until(c);
	CLAIM(r.size() == e);
	left<N>(t, e, p);
}
template <size_t N> SA_INLINE void spaces(){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	size_t e = first(t, N, [&](char x){ return !space(x); });
	p.skip_whitespaces();
	left<N>(t, e, p);
}
template <size_t N> SA_INLINE void comma(){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	size_t e = first(t, N, [&](char x){ return !space(x); });
	if(e != N && t[e] == ','){
		++e;
		while(e != N && space(t[e])) ++e;
	}
	p.skip_whitespaces_and_comma();
	left<N>(t, e, p);
}
template <size_t N> SA_INLINE void skip(char c){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	size_t e = first(t, N, [&](char x){ return x == c; });
	if(e != N) ++e;
	p.skip_inclusive_until(c);
	left<N>(t, e, p);
}
template <size_t N> SA_INLINE void skip_one_of(char a, char b){
	const char* t = (const char*)sa_buffer(N);
	string_parser p(sv(t, N));
	char cs[2] = {a, b};
	size_t e = 0;
	char want = 0;
	for(; e != N; ++e){
		if(t[e] == a){ want = a; break; }
		if(t[e] == b){ want = b; break; }
	}
	if(e != N) ++e;
	char r = p.skip_inclusive_until_one_of(utki::span<const char>(cs, 2));
	CLAIM(r == want);
	left<N>(t, e, p);
}
#define ALL(n) \
	PROBE(until_##n)(char c){ until<n>(c); } \
	PROBE(word_##n)(){ word<n>(); } \
	PROBE(word_until_##n)(char c){ word_until<n>(c); } \
	PROBE(spaces_##n)(){ spaces<n>(); } \
	PROBE(comma_##n)(){ comma<n>(); } \
	PROBE(skip_##n)(char c){ skip<n>(c); } \
	PROBE(skip_one_of_##n)(char a, char b){ skip_one_of<n>(a, b); }
ALL(0) ALL(1) ALL(2) ALL(3)
#ifdef SA_LONG
ALL(4) ALL(5)
#endif
