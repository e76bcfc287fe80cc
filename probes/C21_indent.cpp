// make_indentation(): the length for every argument; the characters for small ones
#include "sa.hpp"
#include <string>
#include <utki/string.hpp>
PROBE(length_tabs)(unsigned depth){
	std::string s = utki::make_indentation(depth);
	CLAIM(s.size() == depth);
}
PROBE(length_spaces)(unsigned depth, unsigned size){
	ASSUME(size != 0 && size < (1u << 16) && depth < (1u << 31)); // the length fits std::string::max_size()
	std::string s = utki::make_indentation(depth, size);
	CLAIM(s.size() == uint64_t(depth) * uint64_t(size));
}
template <unsigned D, unsigned S> __attribute__((always_inline)) inline void content(){
	std::string s = utki::make_indentation(D, S);
	CLAIM(s.size() == D * (S == 0 ? 1 : S));
	for(size_t i = 0; i != D * (S == 0 ? 1 : S); ++i) CLAIM(s.data()[i] == (S == 0 ? '\t' : ' '));
}
#define CONTENT(d, s) PROBE(content_##d##_##s)(){ content<d, s>(); }
CONTENT(0, 0) CONTENT(1, 0) CONTENT(3, 0) CONTENT(18, 0) CONTENT(0, 3) CONTENT(1, 1) CONTENT(2, 1) CONTENT(1, 4) CONTENT(3, 4) CONTENT(5, 4)
