// string_parser::read_number(), every text of up to four characters: which digits are converted, in which base, and what becomes
// of every outcome of the conversion
#include "sa.hpp"
#include <string_view>
#include <utki/string.hpp>
#include <fast_float/fast_float.h>
sa_conversion sa_conv;
sa_float_conversion sa_float_conv;
using utki::string_parser;
using sv = std::string_view;
#define SA_INLINE __attribute__((always_inline)) inline
static SA_INLINE bool space(char c){ return c == ' ' || ('\t' <= c && c <= '\r'); }
static SA_INLINE bool dec(char c){ return '0' <= c && c <= '9'; }
static SA_INLINE bool hex(char c){ return dec(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F'); }
static SA_INLINE uint64_t bits(long double x){ return __builtin_bit_cast(uint64_t, (double)x); }
template <class T, size_t N, int ec> SA_INLINE void number(size_t length, unsigned long long value, double fvalue){
	const char* t = (const char*)sa_buffer(N);
	sa_conv = sa_conversion();
	sa_float_conv = sa_float_conversion();
	string_parser p(sv(t, N));
	// what is expected
	size_t i = 0;
	while(i != N && space(t[i])) ++i;
	int base = 10;
	bool zero = false; // a lone 0
	bool empty = false;
	if(std::is_unsigned_v<T>){
		if(i == N) empty = true;
		else if(t[i] == '0'){
			++i;
			if(i == N) zero = true;
			else if(t[i] == 'x'){
				if(i + 1 != N && hex(t[i + 1])){ base = 16; ++i; }else zero = true;
			}else if(t[i] == 'b'){
				if(i + 1 != N && (t[i + 1] == '0' || t[i + 1] == '1')){ base = 2; ++i; }else zero = true;
			}else if('0' <= t[i] && t[i] <= '7') base = 8;
			else if(!dec(t[i])) zero = true;
		}
	}
	size_t rest = N - i;
	// the conversion succeeds, or is out of range, only if there is something to convert
	if(ec != 1) ASSUME(1 <= length && length <= rest);
	sa_conv.ec = sa_float_conv.ec = ec;
	sa_conv.length = sa_float_conv.length = length;
	sa_conv.out = value;
	sa_float_conv.out = fvalue;
	try{
		T r = p.read_number<T>();
		CLAIM(!empty);
		if(zero){
			CLAIM(r == T(0));
			CLAIM(sa_conv.calls == 0);
			CLAIM(p.size() == rest);
			if(rest) CLAIM(p.get_view().data() == t + i);
		}else{
			CLAIM(ec == 0 || ec == 2);
			if(ec == 0){
				if constexpr(std::is_floating_point_v<T>) CLAIM(bits(r) == bits(T(fvalue)));
				else CLAIM(r == T(value));
			}else CLAIM(r == T(0));
			CLAIM(p.size() == rest - length);
			if(length != rest) CLAIM(p.get_view().data() == t + i + length);
		}
	}catch(std::invalid_argument&){
		CLAIM(empty || (!zero && ec == 1));
		CLAIM(p.size() == rest);
	}catch(std::runtime_error&){
		CLAIM(!empty && !zero && ec == 3);
	}
	if(!empty && !zero){
		if constexpr(std::is_floating_point_v<T>){
			CLAIM(sa_float_conv.calls == 1 && sa_conv.calls == 0);
			CLAIM(sa_float_conv.first == t + i);
			CLAIM(sa_float_conv.last == t + N);
			CLAIM(sa_float_conv.format == int(fast_float::general));
			CLAIM(sa_float_conv.is_float == (sizeof(T) == sizeof(float)));
		}else{
			CLAIM(sa_conv.calls == 1 && sa_float_conv.calls == 0);
			CLAIM(sa_conv.first == t + i);
			CLAIM(sa_conv.last == t + N);
			CLAIM(sa_conv.base == base);
		}
	}
}
#define Q(T, t, n, ec) PROBE(t##_##n##_##ec)(size_t length, unsigned long long value, double fvalue){ number<T, n, ec>(length, value, fvalue); }
#define P(T, t, n) Q(T, t, n, 0) Q(T, t, n, 1) Q(T, t, n, 2) Q(T, t, n, 3)
#define ALL(T, t) P(T, t, 0) P(T, t, 1) P(T, t, 2) P(T, t, 3)
ALL(unsigned char, u8) ALL(signed char, i8) ALL(unsigned short, u16) ALL(int, i32) ALL(unsigned, u32) ALL(long long, i64) ALL(unsigned long long, u64)
ALL(float, f32) ALL(double, f64) ALL(long double, f80)
#ifdef SA_LONG
P(unsigned char, u8, 4) P(unsigned, u32, 4) P(int, i32, 4) P(unsigned long long, u64, 4) P(double, f64, 4)
#endif
template <class T> SA_INLINE void convert(utki::chars_format f, int format, double fvalue, int ec, size_t n, size_t length, T old){
	const char* t = (const char*)sa_buffer(n);
	sa_float_conv = sa_float_conversion();
	ASSUME(0 <= ec && ec <= 3);
	ASSUME(length <= n);
	sa_float_conv.ec = ec;
	sa_float_conv.length = length;
	sa_float_conv.out = fvalue;
	T v = old;
	auto r = utki::from_chars(t, t + n, v, f);
	CLAIM(sa_float_conv.calls == 1);
	CLAIM(sa_float_conv.first == t && sa_float_conv.last == t + n);
	CLAIM(sa_float_conv.format == format);
	CLAIM(r.ptr == (ec == 1 ? t : t + length));
	CLAIM(r.ec == (ec == 0 ? std::errc() : ec == 1 ? std::errc::invalid_argument : ec == 2 ? std::errc::result_out_of_range : std::errc::io_error));
	if(ec == 0) CLAIM(bits(v) == bits(T(fvalue)));
	if(ec == 1 || ec == 3) CLAIM(bits(v) == bits(old)); // no number: no value
}
#define CONVERT(T, f, n) \
	PROBE(from_chars_##f##_##n)(size_t n_, size_t length, double fvalue, int ec, T old){ convert<T>(utki::chars_format::f, int(fast_float::f), fvalue, ec, n_, length, old); }
#define FORMATS(T, n) CONVERT(T, scientific, n) CONVERT(T, fixed, n) CONVERT(T, hex, n) CONVERT(T, general, n)
FORMATS(float, f32) FORMATS(double, f64) FORMATS(long double, f80)
