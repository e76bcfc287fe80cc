// printing of a version: the two numbers, in order, as numbers
#include "sa.hpp"
#include <sstream>
#include <utki/version.hpp>
PROBE(print)(uint16_t a, uint16_t b){
	std::stringstream s;
	auto& r = s << utki::version_duplet{a, b};
	CLAIM(&r == &s);
	CLAIM(s.sa_size == 3);
	CLAIM(s.sa_numbers == 2);
	CLAIM(s.sa_number[0] == a && s.sa_text[1] == '.' && s.sa_number[1] == b);
}
