// demangle(): the demangled name, or the name as it is when it cannot be demangled; the memory is given back exactly once
#include "sa.hpp"
#include <cxxabi.h>
#include <string>
#include <typeinfo>
#include <utki/debug.hpp>
static unsigned sa_owned, sa_freed;
static int sa_status;
static unsigned char sa_c, sa_d;
namespace __cxxabiv1{
extern "C" char* __cxa_demangle(const char* name, char* buffer, size_t* length, int* status) {
	CLAIM(name == typeid(int).name());
	CLAIM(buffer == nullptr && status != nullptr);
	*status = sa_status;
	if(sa_status != 0) return nullptr;
	sa_owned = sa_owned + 1u;
	char* r = static_cast<char*>(::operator new(8));
	r[0] = 'M'; // what may be given back
	r[1] = sa_c, r[2] = sa_d, r[3] = 0;
	return r + 1;
}
}
extern "C" void free(void* v) noexcept {
	if(!v) return;
	char* p = static_cast<char*>(v);
	CLAIM(p[-1] == 'M'); // only what was given is given back, and once
	p[-1] = p[0] = p[1] = p[2] = '#';
	sa_owned = sa_owned - 1u;
	sa_freed = sa_freed + 1u;
}
static void begin(int status, char c, char d){
	sa_owned = sa_freed = 0;
	sa_status = status;
	sa_c = c, sa_d = d;
}
PROBE(demangled)(char c, char d){
	ASSUME(c != 0 && d != 0);
	begin(0, c, d);
	std::string s = utki::demangle(typeid(int));
	CLAIM(s.size() == 2);
	CLAIM(s.data()[0] == c && s.data()[1] == d);
	CLAIM(sa_owned == 0);
	CLAIM(sa_freed == 1);
	REACH("done");
}
PROBE(demangled_empty)(){
	begin(0, 0, 0);
	std::string s = utki::demangle(typeid(int));
	CLAIM(s.empty());
	CLAIM(sa_owned == 0);
	CLAIM(sa_freed == 1);
	REACH("done");
}
PROBE(not_demangled)(int status){
	ASSUME(status != 0);
	begin(status, 'x', 0);
	std::string s = utki::demangle(typeid(int));
	CLAIM(s.size() == 1);
	CLAIM(s.data()[0] == 'i');
	CLAIM(sa_freed == 0);
	REACH("done");
}
