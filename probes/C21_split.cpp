// splitting every text of up to three characters; indentation
#include "sa.hpp"
#include <string>
#include <string_view>
#include <utki/string.hpp>
using sv = std::string_view;
#define SA_INLINE __attribute__((always_inline)) inline
static SA_INLINE bool space(char c){ return c == ' ' || ('\t' <= c && c <= '\r'); }
// what is expected: pieces of the text
template <size_t N> struct pieces {
	size_t n = 0;
	size_t b[N + 1], e[N + 1];
};
template <size_t N, class C> SA_INLINE void same(const C* t, const pieces<N>& p, const std::vector<std::basic_string<C>>& r){
	CLAIM(r.size() == p.n);
	if(r.size() != p.n) return;
	for(size_t i = 0; i != p.n; ++i){
		size_t len = p.e[i] - p.b[i];
		CLAIM(r[i].size() == len);
		if(r[i].size() != len) return;
		for(size_t k = 0; k != len; ++k) CLAIM(r[i].data()[k] == t[p.b[i] + k]);
	}
}
template <size_t N, class C = char> SA_INLINE void split_by(C d){
	const C* t = (const C*)sa_buffer(N * sizeof(C));
	pieces<N> p;
	p.b[0] = 0;
	for(size_t i = 0; i != N; ++i)
		if(t[i] == d){ p.e[p.n++] = i; p.b[p.n] = i + 1; }
	p.e[p.n++] = N;
	same<N>(t, p, utki::split(std::basic_string_view<C>(t, N), d));
}
template <size_t N> SA_INLINE void split_words(){
	const char* t = (const char*)sa_buffer(N);
	pieces<N> p;
	bool in = false;
	for(size_t i = 0; i != N; ++i){
		if(space(t[i])){
			if(in) p.e[p.n++] = i;
			in = false;
		}else{
			if(!in) p.b[p.n] = i;
			in = true;
		}
	}
	if(in) p.e[p.n++] = N;
	same<N>(t, p, utki::split(sv(t, N)));
}
PROBE(split_0)(char d){ split_by<0>(d); }
PROBE(split_1)(char d){ split_by<1>(d); }
PROBE(split_2)(char d){ split_by<2>(d); }
PROBE(split_3)(char d){ split_by<3>(d); }
PROBE(split16_1)(char16_t d){ split_by<1>(d); }
PROBE(split16_2)(char16_t d){ split_by<2>(d); }
PROBE(split32_1)(char32_t d){ split_by<1>(d); }
PROBE(split32_2)(char32_t d){ split_by<2>(d); }
PROBE(words_0)(){ split_words<0>(); }
PROBE(words_1)(){ split_words<1>(); }
PROBE(words_2)(){ split_words<2>(); }
PROBE(words_3)(){ split_words<3>(); }
