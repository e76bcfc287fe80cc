// whitespace and affix helpers on every text of up to three characters
#include "sa.hpp"
#include <string>
#include <string_view>
#include <utki/string.hpp>
using sv = std::string_view;
#define SA_INLINE __attribute__((always_inline)) inline
extern "C" const char sa_classic_locale[sizeof(std::locale)] = {};
template <class C> static SA_INLINE bool space(C c){ return c == C(' ') || (C('\t') <= c && c <= C('\r')); }
template <class C> static SA_INLINE void piece(std::basic_string_view<C> r, const C* t, size_t n, size_t b, size_t e){
	CLAIM(r.size() == e - b);
	if(e != b) CLAIM(r.data() == t + b);
}
template <class C, size_t N> SA_INLINE void trims(int which){
	const C* t = (const C*)sa_buffer(N * sizeof(C));
	std::basic_string_view<C> s(t, N);
	size_t b = 0, e = N;
	if(which != 1) while(b != N && space(t[b])) ++b;
	if(which != 0) while(e != b && space(t[e - 1])) --e;
	piece(which == 0 ? utki::trim_front(s) : which == 1 ? utki::trim_back(s) : utki::trim(s), t, N, b, e);
}
#define TRIM(C, c, n) PROBE(trim_front_##c##_##n)(){ trims<C, n>(0); } PROBE(trim_back_##c##_##n)(){ trims<C, n>(1); } PROBE(trim_##c##_##n)(){ trims<C, n>(2); }
TRIM(char, c, 0) TRIM(char, c, 1) TRIM(char, c, 2) TRIM(char, c, 3) TRIM(wchar_t, w, 1)
template <size_t N, size_t M> SA_INLINE void affix(){
	const char* t = (const char*)sa_buffer(N);
	const char* a = (const char*)sa_buffer(M);
	bool front = M <= N, back = M <= N;
	for(size_t i = 0; i < M && M <= N; ++i){
		if(t[i] != a[i]) front = false;
		if(t[N - M + i] != a[i]) back = false;
	}
	CLAIM(utki::starts_with(sv(t, N), sv(a, M)) == front);
	CLAIM(utki::ends_with(sv(t, N), sv(a, M)) == back);
}
#define AFFIX(n, m) PROBE(affix_##n##_##m)(){ affix<n, m>(); }
AFFIX(0, 0) AFFIX(0, 1) AFFIX(0, 2) AFFIX(1, 0) AFFIX(1, 1) AFFIX(1, 2) AFFIX(2, 0) AFFIX(2, 1) AFFIX(2, 2) AFFIX(2, 3) AFFIX(3, 0) AFFIX(3, 1) AFFIX(3, 2) AFFIX(3, 3) AFFIX(3, 4)
