// Model of fast_float: it records what it is asked for and has one of the documented outcomes, chosen by the probe.
#pragma once
#include <charconv>
#include <system_error>
#include <stddef.h>
struct sa_float_conversion {
	unsigned calls = 0;
	const char* first = nullptr;
	const char* last = nullptr;
	int format = 0;
	bool is_float = false;
	int ec = 0; // as in sa_conversion
	size_t length = 0;
	double out = 0;
};
extern sa_float_conversion sa_float_conv;
namespace fast_float {
enum chars_format { scientific = 1 << 0, fixed = 1 << 2, hex = 1 << 3, general = fixed | scientific };
struct from_chars_result { const char* ptr; std::errc ec; };
template <class T> from_chars_result from_chars(const char* first, const char* last, T& value, chars_format fmt = general) noexcept {
	++sa_float_conv.calls;
	sa_float_conv.first = first;
	sa_float_conv.last = last;
	sa_float_conv.format = int(fmt);
	sa_float_conv.is_float = sizeof(T) == sizeof(float);
	switch(sa_float_conv.ec){
		case 0: value = T(sa_float_conv.out); return {first + sa_float_conv.length, std::errc()};
		case 1: return {first, std::errc::invalid_argument};
		case 2: value = T(sa_float_conv.out); return {first + sa_float_conv.length, std::errc::result_out_of_range};
		default: return {first + sa_float_conv.length, std::errc::io_error};
	}
}
}
