#include "sa.hpp"
#include <utki/base64.hpp>
// arbitrary bytes of arbitrary length: nothing outside of the string is read, no exception but std::invalid_argument
PROBE(any_bytes)(size_t n){
	auto p = static_cast<char*>(sa_buffer(n));
	try{
		auto r = utki::base64_decode(std::string_view(p, n));
		REACH("decoded");
		sa_escape(&r);
	}catch(std::invalid_argument&){
		REACH("rejected");
		CLAIM(n != 0);
	}catch(std::length_error&){
		sa_stop(); // the result is too large for any memory
	}
}
