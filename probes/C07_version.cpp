#include "sa.hpp"
#include <utki/version.hpp>
using v = utki::version_duplet;
PROBE(fields)(uint16_t major, uint16_t minor){
	v a{major, minor};
	CLAIM(a.major == major);
	CLAIM(a.minor == minor);
	CLAIM(a.to_uint32_t() == (uint32_t(major) << 16 | minor));
	CLAIM(a.to_uint32_t() >> 16 == major);
	CLAIM((a.to_uint32_t() & 0xffff) == minor);
}
PROBE(order)(uint16_t major1, uint16_t minor1, uint16_t major2, uint16_t minor2){
	v a{major1, minor1}, b{major2, minor2};
	if(major1 < major2){ CLAIM(a < b); CLAIM(!(a >= b)); CLAIM(b >= a); CLAIM(!(b < a)); CLAIM(a.to_uint32_t() < b.to_uint32_t()); }
	if(major1 == major2){
		if(minor1 < minor2){ CLAIM(a < b); CLAIM(!(a >= b)); CLAIM(b >= a); CLAIM(!(b < a)); CLAIM(a.to_uint32_t() < b.to_uint32_t()); }
		if(minor1 == minor2){ CLAIM(!(a < b)); CLAIM(a >= b); CLAIM(!(b < a)); CLAIM(b >= a); CLAIM(a.to_uint32_t() == b.to_uint32_t()); }
	}
}
// equal numbers come from equal versions only
PROBE(injective)(uint16_t major1, uint16_t minor1, uint16_t major2, uint16_t minor2){
	v a{major1, minor1}, b{major2, minor2};
	if(a.to_uint32_t() == b.to_uint32_t()){ CLAIM(major1 == major2); CLAIM(minor1 == minor2); }
}
PROBE(constant)(){
	constexpr auto x = v{0x1234, 0x5678}.to_uint32_t();
	CLAIM(x == 0x12345678);
}
