#include "sa.hpp"
#include <utki/unicode.hpp>

namespace{
// writes the UTF-8 encoding of c, of length len, as RFC 2279 / ISO 10646 define it
template <unsigned len>
void put(uint8_t* p, char32_t c){
	if constexpr (len == 1){ p[0] = uint8_t(c); }
	else{
		p[0] = uint8_t(uint8_t(0xff00 >> len) | ((uint32_t(c) >> (6 * (len - 1))) & ((1u << (7 - len)) - 1)));
		for(unsigned i = 1; i != len; ++i) p[i] = uint8_t(0x80 | ((uint32_t(c) >> (6 * (len - 1 - i))) & 0x3f));
	}
}
template <unsigned len>
void decode(char32_t c, uint8_t next){
	ASSUME(c != 0);
	ASSUME(next < 0x80);
	{ // followed by one more character
		auto p = static_cast<uint8_t*>(sa_buffer(len + 1));
		put<len>(p, c);
		p[len] = next;
		utki::utf8_iterator i(utki::span<const uint8_t>(p, len + 1));
		CLAIM(i.character() == c);
		CLAIM(!i.is_end());
		++i;
		CLAIM(i.character() == next);
		REACH("one more");
		CLAIM(i.is_end() == (next == 0));
	}
	{ // end of the string follows
		auto p = static_cast<uint8_t*>(sa_buffer(len));
		put<len>(p, c);
		utki::utf8_iterator i(utki::span<const uint8_t>(p, len));
		CLAIM(i.character() == c);
		CLAIM(!i.is_end());
		++i;
		REACH("end of string");
		CLAIM(i.is_end());
	}
	{ // zero-terminated string
		auto p = static_cast<uint8_t*>(sa_buffer(len + 2));
		put<len>(p, c);
		p[len] = next;
		p[len + 1] = 0;
		utki::utf8_iterator i(reinterpret_cast<const char*>(p));
		CLAIM(i.character() == c);
		++i;
		CLAIM(i.character() == next);
		ASSUME(next != 0);
		++i;
		REACH("end of zero-terminated string");
		CLAIM(i.is_end());
	}
}
}
PROBE(len1)(char32_t c, uint8_t n){ ASSUME(c <= 0x7f); decode<1>(c, n); }
PROBE(len2)(char32_t c, uint8_t n){ ASSUME(c >= 0x80 && c <= 0x7ff); decode<2>(c, n); }
PROBE(len3)(char32_t c, uint8_t n){ ASSUME(c >= 0x800 && c <= 0xffff); decode<3>(c, n); }
PROBE(len4)(char32_t c, uint8_t n){ ASSUME(c >= 0x10000 && c <= 0x1fffff); decode<4>(c, n); }
PROBE(len5)(char32_t c, uint8_t n){ ASSUME(c >= 0x200000 && c <= 0x3ffffff); decode<5>(c, n); }
PROBE(len6)(char32_t c, uint8_t n){ ASSUME(c >= 0x4000000 && c <= 0x7fffffff); decode<6>(c, n); }

// arbitrary bytes, any length: no byte outside of the span is touched, whatever it contains
PROBE(any_span)(size_t n){
	auto p = static_cast<uint8_t*>(sa_buffer(n));
	utki::utf8_iterator i(utki::span<const uint8_t>(p, n));
	for(; !i.is_end(); ++i){
		REACH("step");
	}
	REACH("done");
}

// zero-terminated string of arbitrary bytes: nothing after the terminating zero is touched
PROBE(any_cstring)(size_t n){
	ASSUME(n >= 1);
	auto p = static_cast<char*>(sa_cstring(n));
	utki::utf8_iterator i(p);
	for(; !i.is_end(); ++i){
		REACH("step");
	}
	REACH("done");
}
