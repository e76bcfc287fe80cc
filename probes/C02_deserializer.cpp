#include "sa.hpp"
#include <cstring>
#include <utki/deserializer.hpp>
#include <utki/utility.hpp>

namespace{
// reads one fixed-size item with reader `r` from a buffer of n bytes
template <size_t item_size, typename reader, typename oracle>
void fixed(size_t n, reader r, oracle o){
	auto p = static_cast<uint8_t*>(sa_buffer(n));
	utki::deserializer d(utki::span<const uint8_t>(p, n));
	CLAIM(d.size() == n);
	CLAIM(d.empty() == (n == 0));
	try{
		auto v = r(d);
		REACH("successful read");
		CLAIM(n >= item_size);
		CLAIM(d.size() == n - item_size);
		CLAIM(d.empty() == (n == item_size));
		CLAIM(o(p, v));
		// what is left starts right after the item
		auto rest = d.read_span(d.size());
		CLAIM(rest.data() == p + item_size);
		CLAIM(rest.size() == n - item_size);
		CLAIM(d.empty());
	}catch(std::invalid_argument&){
		REACH("failed read");
		CLAIM(n < item_size);
		CLAIM(d.size() == n);
		auto rest = d.read_span(d.size());
		CLAIM(rest.data() == p);
	}
}
}

PROBE(u8)(size_t n){ fixed<1>(n, [](auto& d){return d.read_uint8();}, [](const uint8_t* p, uint8_t v){return v == p[0];}); }
PROBE(u16le)(size_t n){ fixed<2>(n, [](auto& d){return d.read_uint16_le();}, [](const uint8_t* p, uint16_t v){
	return v == uint16_t(p[0] | p[1] << 8);}); }
PROBE(u16be)(size_t n){ fixed<2>(n, [](auto& d){return d.read_uint16_be();}, [](const uint8_t* p, uint16_t v){
	return v == uint16_t(p[1] | p[0] << 8);}); }
template <typename T> bool le(const uint8_t* p, T v){ bool r = true; for(unsigned i = 0; i != sizeof(T); ++i) r = r & (uint8_t(v >> (8 * i)) == p[i]); return r; }
template <typename T> bool be(const uint8_t* p, T v){ bool r = true; for(unsigned i = 0; i != sizeof(T); ++i) r = r & (uint8_t(v >> (8 * (sizeof(T) - 1 - i))) == p[i]); return r; }
static uint32_t bits(float f){ uint32_t r; memcpy(&r, &f, 4); return r; }
PROBE(u32le)(size_t n){ fixed<4>(n, [](auto& d){return d.read_uint32_le();}, le<uint32_t>); }
PROBE(u32be)(size_t n){ fixed<4>(n, [](auto& d){return d.read_uint32_be();}, be<uint32_t>); }
PROBE(u64le)(size_t n){ fixed<8>(n, [](auto& d){return d.read_uint64_le();}, le<uint64_t>); }
PROBE(u64be)(size_t n){ fixed<8>(n, [](auto& d){return d.read_uint64_be();}, be<uint64_t>); }
PROBE(float_le)(size_t n){ fixed<4>(n, [](auto& d){return bits(d.read_float_le());}, le<uint32_t>); }
PROBE(float_be)(size_t n){ fixed<4>(n, [](auto& d){return bits(d.read_float_be());}, be<uint32_t>); }

namespace{
template <typename reader>
void variable(size_t n, size_t k, reader r){
	auto p = static_cast<uint8_t*>(sa_buffer(n));
	utki::deserializer d(utki::span<const uint8_t>(p, n));
	try{
		r(d, p, k);
		REACH("succeeded");
		CLAIM(k <= n);
		CLAIM(d.size() == n - k);
		CLAIM(d.empty() == (k == n));
		auto rest = d.read_span(d.size());
		CLAIM(rest.data() == p + k);
		CLAIM(rest.size() == n - k);
	}catch(std::invalid_argument&){
		REACH("failed");
		CLAIM(k > n);
		CLAIM(d.size() == n);
		auto rest = d.read_span(d.size());
		CLAIM(rest.data() == p);
		CLAIM(rest.size() == n);
	}
}
}
PROBE(skip)(size_t n, size_t k){
	variable(n, k, [](auto& d, auto p, size_t k){ d.skip(k); });
}
PROBE(span)(size_t n, size_t k){
	variable(n, k, [](auto& d, auto p, size_t k){
		utki::span<const uint8_t> s = d.read_span(k);
		CLAIM(s.data() == p);
		CLAIM(s.size() == k);
	});
}
PROBE(string)(size_t n, size_t k){
	variable(n, k, [](auto& d, auto p, size_t k){
		std::string_view s = d.read_string(k);
		CLAIM(static_cast<const void*>(s.data()) == static_cast<const void*>(p));
		CLAIM(s.size() == k);
	});
}
// two reads in a row, the second may fail: the first stays consumed, the second leaves everything as it was
PROBE(sequence)(size_t n){
	auto p = static_cast<uint8_t*>(sa_buffer(n));
	utki::deserializer d(utki::span<const uint8_t>(p, n));
	ASSUME(n >= 3);
	d.skip(3);
	try{
		auto v = d.read_uint32_be();
		REACH("second read");
		CLAIM(n >= 7);
		CLAIM(be<uint32_t>(p + 3, v));
		CLAIM(d.size() == n - 7);
	}catch(std::invalid_argument&){
		REACH("second read failed");
		CLAIM(n < 7);
		CLAIM(d.size() == n - 3);
	}
}
