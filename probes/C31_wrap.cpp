// word_wrap() of every text of up to three characters, and of the texts of four for widths of one and three
#include "sa.hpp"
#include <string>
#include <string_view>
#include <utki/string.hpp>
using sv = std::string_view;
#define SA_INLINE __attribute__((always_inline)) inline
template <int k> SA_INLINE void kind(char& c){
	if(k == 0) c = ' ';
	else if(k == 1) c = '\n';
	else ASSUME(c != ' ' && c != '\n');
}
// the first characters are of the given kinds: 0: a space, 1: a line feed, 2: something else; the others are arbitrary
template <size_t N, unsigned W, int... kinds> SA_INLINE void wrap(){
	char* t = (char*)sa_buffer(N);
	size_t fixed = 0;
	(kind<kinds>(t[fixed++]), ...);
	std::vector<std::string> r = utki::word_wrap(sv(t, N), W);
	// every character but the spaces and line feeds is there, in order, and nothing else is
	size_t at = 0; // of the text
	for(size_t i = 0; i != r.size(); ++i){
		CLAIM(r[i].size() <= W);
		if(r[i].size() > W) return;
		for(size_t k = 0; k != r[i].size(); ++k){
			char c = r[i].data()[k];
			CLAIM(c != '\n');
			if(c == ' ') continue;
			while(at != N && (t[at] == ' ' || t[at] == '\n')) ++at;
			CLAIM(at != N);
			if(at == N) return;
			CLAIM(c == t[at]);
			++at;
		}
	}
	while(at != N && (t[at] == ' ' || t[at] == '\n')) ++at;
	CLAIM(at == N);
}
// without spaces there is only one way to do it: every line is full or ends at a line feed or at the end
template <size_t N, unsigned W> SA_INLINE void plain(){
	char* t = (char*)sa_buffer(N);
	for(size_t i = 0; i != N; ++i) ASSUME(t[i] != ' ');
	std::vector<std::string> r = utki::word_wrap(sv(t, N), W);
	size_t line = 0, length = 0;
	for(size_t i = 0; i != N; ++i){
		if(t[i] != '\n' && length != W){ ++length; continue; }
		CLAIM(line < r.size());
		if(line >= r.size()) return;
		CLAIM(r[line].size() == length);
		++line;
		length = t[i] != '\n';
	}
	CLAIM(line + 1 == r.size());
	if(line + 1 != r.size()) return;
	CLAIM(r[line].size() == length);
}
#define WRAP(n, w) PROBE(wrap_##n##_##w)(){ wrap<n, w>(); }
WRAP(0, 1) WRAP(0, 2) WRAP(1, 1) WRAP(1, 2) WRAP(2, 1) WRAP(2, 2) WRAP(2, 3) WRAP(3, 1) WRAP(3, 2) WRAP(3, 3) WRAP(3, 4)
#define PLAIN(n, w) PROBE(plain_##n##_##w)(){ plain<n, w>(); }
PLAIN(0, 1) PLAIN(1, 1) PLAIN(2, 1) PLAIN(2, 2) PLAIN(3, 1) PLAIN(3, 2) PLAIN(3, 3) PLAIN(4, 2) PLAIN(4, 3) PLAIN(4, 4) PLAIN(4, 5)
#define A(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2)
#define B(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2)
#define C(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2)
#define D(M, ...) M(__VA_ARGS__, 0) M(__VA_ARGS__, 1) M(__VA_ARGS__, 2)
#define W4(w, a, b, c) PROBE(wrap_4_##w##_##a##b##c)(){ wrap<4, w, a, b, c>(); }
#define W4_2(...) C(W4, __VA_ARGS__)
#define W4_1(...) B(W4_2, __VA_ARGS__)
#define WRAP4(w) A(W4_1, w)
WRAP4(1) WRAP4(3)
#ifdef SA_LONG
#define W5(w, a, b, c, d) PROBE(wrap_5_##w##_##a##b##c##d)(){ wrap<5, w, a, b, c, d>(); }
#define W5_3(...) D(W5, __VA_ARGS__)
#define W5_2(...) C(W5_3, __VA_ARGS__)
#define W5_1(...) B(W5_2, __VA_ARGS__)
#define WRAP5(w) A(W5_1, w)
WRAP5(2) WRAP5(3) WRAP5(4)
#endif
template <size_t N> SA_INLINE void whole(){
	const char* t = (const char*)sa_buffer(N);
	std::vector<std::string> r = utki::word_wrap(sv(t, N), 0);
	CLAIM(r.size() == 1);
	CLAIM(r[0].size() == N);
	for(size_t i = 0; i != N; ++i) CLAIM(r[0].data()[i] == t[i]);
}
PROBE(whole_0)(){ whole<0>(); }
PROBE(whole_1)(){ whole<1>(); }
PROBE(whole_3)(){ whole<3>(); }
