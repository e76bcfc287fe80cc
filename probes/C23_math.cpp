// integer powers and the sign, every value; angles
#include "sa.hpp"
#include <utki/math.hpp>
template <class T> __attribute__((always_inline)) inline void unsigned_powers(T x){
	T p = x;
	p = T(p * x);
	CLAIM(utki::pow2(x) == p);
	p = T(p * x);
	CLAIM(utki::pow3(x) == p);
	p = T(p * x);
	CLAIM(utki::pow4(x) == p);
	p = T(p * x);
	CLAIM(utki::pow5(x) == p);
	p = T(p * x);
	CLAIM(utki::pow6(x) == p);
}
PROBE(powers_u32)(uint32_t x){ unsigned_powers<uint32_t>(x); }
PROBE(powers_u64)(uint64_t x){ unsigned_powers<uint64_t>(x); }
// signed: as long as the power itself is representable, nothing overflows on the way
PROBE(powers_i64)(int8_t n){
	int64_t x = n, p = x * x;
	CLAIM(utki::pow2(x) == p);
	CLAIM(utki::pow3(x) == p * x);
	CLAIM(utki::pow4(x) == p * x * x);
	CLAIM(utki::pow5(x) == p * x * x * x);
	CLAIM(utki::pow6(x) == p * x * x * x * x);
}
template <class T> __attribute__((always_inline)) inline void signs(T x){
	CLAIM(utki::sign(x) == (x < 0 ? T(-1) : T(1)));
	CLAIM(x == 0 || (x > 0) == (utki::sign(x) > 0));
}
PROBE(sign_i8)(int8_t x){ signs<int8_t>(x); }
PROBE(sign_i16)(int16_t x){ signs<int16_t>(x); }
PROBE(sign_i32)(int32_t x){ signs<int32_t>(x); }
PROBE(sign_i64)(int64_t x){ signs<int64_t>(x); }
PROBE(sign_u32)(uint32_t x){ CLAIM(utki::sign(x) == 1); }
PROBE(sign_f32)(float x){ CLAIM(utki::sign(x) == (x < 0 ? -1.0f : 1.0f)); }
PROBE(sign_f64)(double x){ CLAIM(utki::sign(x) == (x < 0 ? -1.0 : 1.0)); }
