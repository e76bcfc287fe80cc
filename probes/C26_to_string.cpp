// to_string(): prefix of the base, then exactly what std::to_chars() prints of the value in that base
#include "sa.hpp"
#include <utki/string.hpp>
sa_conversion sa_conv;
using utki::integer_base;
#define SA_INLINE __attribute__((always_inline)) inline
template <class T, integer_base b, size_t length, bool with_base> SA_INLINE void printed(T value, char text){
	sa_conv = sa_conversion();
	sa_conv.length = length;
	sa_conv.text = text;
	std::string r = with_base ? utki::to_string(value, b) : utki::to_string(value);
	const bool u = std::is_unsigned_v<T>;
	const size_t prefix = !u ? 0 : b == integer_base::bin ? 2 : b == integer_base::oct ? 1 : b == integer_base::hex ? 2 : 0;
	CLAIM(sa_conv.calls == 1);
	CLAIM(sa_conv.in == (unsigned long long)value);
	CLAIM(sa_conv.base == (b == integer_base::bin ? 2 : b == integer_base::oct ? 8 : b == integer_base::hex ? 16 : 10));
	CLAIM(sa_conv.room >= (long long)sizeof(T) * 8 + 1); // room for any value
	CLAIM(r.size() == prefix + length);
	const char* d = r.data();
	if(prefix) CLAIM(d[0] == '0');
	if(prefix == 2) CLAIM(d[1] == (b == integer_base::bin ? 'b' : 'x'));
	for(size_t i = 0; i != length; ++i) CLAIM(d[prefix + i] == char(text + i * 7));
	CLAIM(d[r.size()] == 0);
}
template <class T, integer_base b> SA_INLINE void failed(T value){
	sa_conv = sa_conversion();
	sa_conv.ec = 1;
	std::string r = utki::to_string(value, b);
	CLAIM(r.empty());
}
#define BASES(T, t, n) \
	PROBE(bin_##t##_##n)(T v, char c){ printed<T, integer_base::bin, n, true>(v, c); } \
	PROBE(oct_##t##_##n)(T v, char c){ printed<T, integer_base::oct, n, true>(v, c); } \
	PROBE(dec_##t##_##n)(T v, char c){ printed<T, integer_base::dec, n, true>(v, c); } \
	PROBE(hex_##t##_##n)(T v, char c){ printed<T, integer_base::hex, n, true>(v, c); } \
	PROBE(def_##t##_##n)(T v, char c){ printed<T, integer_base::dec, n, false>(v, c); }
#define ALL(T, t) BASES(T, t, 1) BASES(T, t, 3) BASES(T, t, 20) \
	PROBE(failed_bin_##t)(T v){ failed<T, integer_base::bin>(v); } PROBE(failed_oct_##t)(T v){ failed<T, integer_base::oct>(v); } \
	PROBE(failed_dec_##t)(T v){ failed<T, integer_base::dec>(v); } PROBE(failed_hex_##t)(T v){ failed<T, integer_base::hex>(v); }
ALL(unsigned char, u8) ALL(signed char, i8) ALL(unsigned short, u16) ALL(short, i16) ALL(unsigned, u32) ALL(int, i32) ALL(unsigned long long, u64) ALL(long long, i64)
BASES(unsigned long long, u64, 64) BASES(long long, i64, 65)
PROBE(to_int)(){
	CLAIM(utki::to_int(integer_base::bin) == 2);
	CLAIM(utki::to_int(integer_base::oct) == 8);
	CLAIM(utki::to_int(integer_base::dec) == 10);
	CLAIM(utki::to_int(integer_base::hex) == 16);
}
