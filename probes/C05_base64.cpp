#include "sa.hpp"
#include <array>
#include <limits>
#include <utki/base64.hpp>

namespace{
// RFC 4648 section 4
constexpr char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

// k arbitrary characters of the alphabet, then `pad` padding characters
template <size_t k, size_t pad> void decode(){
	char s[k + pad + 1];
	uint8_t v[k + 4] = {};
	for(size_t i = 0; i != k; ++i){ v[i] = sa_any_u8() & 0x3f; s[i] = alphabet[v[i]]; }
	for(size_t i = 0; i != pad; ++i) s[k + i] = '=';
	auto r = utki::base64_decode(std::string_view(s, k + pad));
	REACH("decoded");
	constexpr size_t n = k / 4 * 3 + (k % 4 == 0 ? 0 : k % 4 - 1);
	CLAIM(r.size() == n);
	for(size_t i = 0; i != n; ++i){
		const uint8_t* q = v + i / 3 * 4;
		uint8_t expected = i % 3 == 0 ? uint8_t(q[0] << 2 | q[1] >> 4) : i % 3 == 1 ? uint8_t(q[1] << 4 | q[2] >> 2) : uint8_t(q[2] << 6 | q[3]);
		CLAIM(r[i] == expected);
	}
}
}
namespace{
// one character left over: not a valid string
template <size_t k> void reject(){
	char s[k];
	for(size_t i = 0; i != k; ++i) s[i] = alphabet[sa_any_u8() & 0x3f];
	try{
		auto r = utki::base64_decode(std::string_view(s, k));
		NEVER("a string with an incomplete last group was decoded");
	}catch(std::invalid_argument&){
		REACH("rejected");
	}
}
}
#define D(k) PROBE(d##k)(){ decode<k, 0>(); }
#define DP(k, p) PROBE(d##k##p##p)(){ decode<k, p>(); }
D(0) D(2) D(3) D(4) D(6) D(7) D(8) D(10) D(11) D(12) D(14) D(15) D(16) D(19) D(24) D(30)
DP(2, 2) DP(3, 1) DP(6, 2) DP(7, 1) DP(10, 2) DP(11, 1) DP(14, 2) DP(15, 1) DP(18, 2) DP(19, 1) DP(30, 2) DP(31, 1)
#define R(k) PROBE(r##k)(){ reject<k>(); }
R(1) R(5) R(9) R(13) R(21)
