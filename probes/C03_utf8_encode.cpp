#include "sa.hpp"
#include <utki/unicode.hpp>

namespace{
uint8_t at(const std::array<char, 7>& a, unsigned i){ return uint8_t(a[i]); }
template <unsigned len>
void encoding(char32_t c){
	std::array<char, utki::max_size_of_utf8_encoded_character + 1> a = utki::to_utf8(c);
	REACH("encoded");
	if constexpr (len == 1){
		CLAIM(at(a, 0) == uint8_t(c));
	}else{
		// lead byte: len one-bits, a zero bit, then the most significant bits of c
		constexpr unsigned payload = 7 - len;
		constexpr uint8_t mark = uint8_t(0xff00 >> len);
		CLAIM((at(a, 0) >> payload) == (mark >> payload));
		CLAIM((at(a, 0) & ((1u << payload) - 1)) == ((uint32_t(c) >> (6 * (len - 1))) & ((1u << payload) - 1)));
		for(unsigned i = 1; i != len; ++i){
			CLAIM((at(a, i) & 0xc0) == 0x80);
			CLAIM((at(a, i) & 0x3f) == ((uint32_t(c) >> (6 * (len - 1 - i))) & 0x3f));
		}
	}
	CLAIM(at(a, len) == 0);
}
}
PROBE(len1)(char32_t c){ ASSUME(c <= 0x7f); encoding<1>(c); }
PROBE(len2)(char32_t c){ ASSUME(c >= 0x80 && c <= 0x7ff); encoding<2>(c); }
PROBE(len3)(char32_t c){ ASSUME(c >= 0x800 && c <= 0xffff); encoding<3>(c); }
PROBE(len4)(char32_t c){ ASSUME(c >= 0x10000 && c <= 0x1fffff); encoding<4>(c); }
PROBE(len5)(char32_t c){ ASSUME(c >= 0x200000 && c <= 0x3ffffff); encoding<5>(c); }
PROBE(len6)(char32_t c){ ASSUME(c >= 0x4000000 && c <= 0x7fffffff); encoding<6>(c); }
// not encodable: the result is an empty string
PROBE(too_big)(char32_t c){ ASSUME(c > 0x7fffffff); auto a = utki::to_utf8(c); REACH("returned"); CLAIM(at(a, 0) == 0); }
