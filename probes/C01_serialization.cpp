#include "sa.hpp"
#include <cstring>
#include <utki/utility.hpp>

namespace{
template <typename T> T value_le(const uint8_t* p){ T r = 0; for(unsigned i = 0; i != sizeof(T); ++i) r = T(r | T(T(p[i]) << (8 * i))); return r; }
template <typename T> T value_be(const uint8_t* p){ T r = 0; for(unsigned i = 0; i != sizeof(T); ++i) r = T(r | T(T(p[i]) << (8 * (sizeof(T) - 1 - i)))); return r; }

// the object written into is exactly sizeof(T) bytes, preceded and followed by bytes which must stay untouched
template <typename T, typename W>
void write_le(T v, W w){
	uint8_t b[sizeof(T) + 4];
	for(auto& x : b) x = 0x5a;
	uint8_t* r = w(v, b + 2);
	REACH("written");
	CLAIM(r == b + 2 + sizeof(T));
	for(unsigned i = 0; i != sizeof(T); ++i) CLAIM(b[2 + i] == uint8_t(v >> (8 * i)));
	CLAIM(b[0] == 0x5a); CLAIM(b[1] == 0x5a); CLAIM(b[2 + sizeof(T)] == 0x5a); CLAIM(b[3 + sizeof(T)] == 0x5a);
}
template <typename T, typename W>
void write_be(T v, W w){
	uint8_t b[sizeof(T) + 4];
	for(auto& x : b) x = 0x5a;
	uint8_t* r = w(v, b + 2);
	REACH("written");
	CLAIM(r == b + 2 + sizeof(T));
	for(unsigned i = 0; i != sizeof(T); ++i) CLAIM(b[2 + i] == uint8_t(v >> (8 * (sizeof(T) - 1 - i))));
	CLAIM(b[0] == 0x5a); CLAIM(b[1] == 0x5a); CLAIM(b[2 + sizeof(T)] == 0x5a); CLAIM(b[3 + sizeof(T)] == 0x5a);
}
// the reader touches no byte outside the sizeof(T) bytes of the object
template <typename T, typename R>
void read_le(R r){
	auto p = static_cast<uint8_t*>(sa_buffer(sizeof(T)));
	T v = r(static_cast<const uint8_t*>(p));
	REACH("read");
	for(unsigned i = 0; i != sizeof(T); ++i) CLAIM(uint8_t(v >> (8 * i)) == p[i]);
}
template <typename T, typename R>
void read_be(R r){
	auto p = static_cast<uint8_t*>(sa_buffer(sizeof(T)));
	T v = r(static_cast<const uint8_t*>(p));
	REACH("read");
	for(unsigned i = 0; i != sizeof(T); ++i) CLAIM(uint8_t(v >> (8 * (sizeof(T) - 1 - i))) == p[i]);
}
template <typename T, typename W, typename R>
void round_trip(T v, W w, R r){
	auto p = static_cast<uint8_t*>(sa_buffer(sizeof(T)));
	w(v, p);
	REACH("round trip");
	CLAIM(r(static_cast<const uint8_t*>(p)) == v);
}
uint32_t bits(float f){ uint32_t r; memcpy(&r, &f, 4); return r; }
float from_bits(uint32_t b){ float r; memcpy(&r, &b, 4); return r; }
}

PROBE(w_le8)(uint8_t v){ write_le(v, [](auto v, uint8_t* p){ return utki::serialize_le(v, p); }); }
PROBE(w_le16)(uint16_t v){ write_le(v, [](auto v, uint8_t* p){ return utki::serialize_le(v, p); }); }
PROBE(w_le32)(uint32_t v){ write_le(v, [](auto v, uint8_t* p){ return utki::serialize_le(v, p); }); }
PROBE(w_le64)(uint64_t v){ write_le(v, [](auto v, uint8_t* p){ return utki::serialize_le(v, p); }); }
PROBE(w_16le)(uint16_t v){ write_le(v, utki::serialize16le); }
PROBE(w_32le)(uint32_t v){ write_le(v, utki::serialize32le); }
PROBE(w_64le)(uint64_t v){ write_le(v, utki::serialize64le); }
PROBE(w_be8)(uint8_t v){ write_be(v, [](auto v, uint8_t* p){ return utki::serialize_be(v, p); }); }
PROBE(w_be16)(uint16_t v){ write_be(v, [](auto v, uint8_t* p){ return utki::serialize_be(v, p); }); }
PROBE(w_be32)(uint32_t v){ write_be(v, [](auto v, uint8_t* p){ return utki::serialize_be(v, p); }); }
PROBE(w_be64)(uint64_t v){ write_be(v, [](auto v, uint8_t* p){ return utki::serialize_be(v, p); }); }
PROBE(w_16be)(uint16_t v){ write_be(v, utki::serialize16be); }
PROBE(w_32be)(uint32_t v){ write_be(v, utki::serialize32be); }
PROBE(w_64be)(uint64_t v){ write_be(v, utki::serialize64be); }
PROBE(r_le8)(){ read_le<uint8_t>(utki::deserialize_le<uint8_t>); }
PROBE(r_le16)(){ read_le<uint16_t>(utki::deserialize_le<uint16_t>); }
PROBE(r_le32)(){ read_le<uint32_t>(utki::deserialize_le<uint32_t>); }
PROBE(r_le64)(){ read_le<uint64_t>(utki::deserialize_le<uint64_t>); }
PROBE(r_16le)(){ read_le<uint16_t>(utki::deserialize16le); }
PROBE(r_32le)(){ read_le<uint32_t>(utki::deserialize32le); }
PROBE(r_64le)(){ read_le<uint64_t>(utki::deserialize64le); }
PROBE(r_be8)(){ read_be<uint8_t>(utki::deserialize_be<uint8_t>); }
PROBE(r_be16)(){ read_be<uint16_t>(utki::deserialize_be<uint16_t>); }
PROBE(r_be32)(){ read_be<uint32_t>(utki::deserialize_be<uint32_t>); }
PROBE(r_be64)(){ read_be<uint64_t>(utki::deserialize_be<uint64_t>); }
PROBE(r_16be)(){ read_be<uint16_t>(utki::deserialize16be); }
PROBE(r_32be)(){ read_be<uint32_t>(utki::deserialize32be); }
PROBE(r_64be)(){ read_be<uint64_t>(utki::deserialize64be); }
PROBE(rt_16le)(uint16_t v){ round_trip(v, utki::serialize16le, utki::deserialize16le); }
PROBE(rt_32le)(uint32_t v){ round_trip(v, utki::serialize32le, utki::deserialize32le); }
PROBE(rt_64le)(uint64_t v){ round_trip(v, utki::serialize64le, utki::deserialize64le); }
PROBE(rt_16be)(uint16_t v){ round_trip(v, utki::serialize16be, utki::deserialize16be); }
PROBE(rt_32be)(uint32_t v){ round_trip(v, utki::serialize32be, utki::deserialize32be); }
PROBE(rt_64be)(uint64_t v){ round_trip(v, utki::serialize64be, utki::deserialize64be); }
// floats: the bytes are those of the IEEE 754 representation
PROBE(w_float_le)(uint32_t v){ write_le(v, [](uint32_t v, uint8_t* p){ return utki::serialize_float_le(from_bits(v), p); }); }
PROBE(w_float_be)(uint32_t v){ write_be(v, [](uint32_t v, uint8_t* p){ return utki::serialize_float_be(from_bits(v), p); }); }
PROBE(r_float_le)(){ read_le<uint32_t>([](const uint8_t* p){ return bits(utki::deserialize_float_le(p)); }); }
PROBE(r_float_be)(){ read_be<uint32_t>([](const uint8_t* p){ return bits(utki::deserialize_float_be(p)); }); }
PROBE(rt_float_le)(uint32_t v){ round_trip(v, [](uint32_t v, uint8_t* p){ return utki::serialize_float_le(from_bits(v), p); }, [](const uint8_t* p){ return bits(utki::deserialize_float_le(p)); }); }
PROBE(rt_float_be)(uint32_t v){ round_trip(v, [](uint32_t v, uint8_t* p){ return utki::serialize_float_be(from_bits(v), p); }, [](const uint8_t* p){ return bits(utki::deserialize_float_be(p)); }); }
