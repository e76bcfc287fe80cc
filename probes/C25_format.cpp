// make_string(format, ...): whatever vsnprintf() makes of the arguments, of any length
#include "sa.hpp"
#include <cstdarg>
#include <string>
#include <utki/string.hpp>
#define SA_INLINE __attribute__((always_inline)) inline
struct list { unsigned gp, fp; void* overflow; void* regs; };
static struct {
	const char* format;
	size_t size; // of the text
	bool fail;
	unsigned calls, full; // how many calls, how many of them had room for the whole text
	size_t at; // a position in the text
	char c; // and the character there
	unsigned gp;
	void* regs;
} sa;
extern "C" void sa_va_start(list* l){
	l->gp = sa.gp;
	l->fp = 48;
	l->overflow = nullptr;
	l->regs = sa.regs;
}
extern "C" int vsnprintf(char* buf, size_t room, const char* format, va_list args) noexcept {
	list* l = reinterpret_cast<list*>(args);
	CLAIM(format == sa.format);
	CLAIM(l->gp == sa.gp); // the arguments have not been consumed yet, and the list is in use
	CLAIM(l->regs == sa.regs);
	l->gp = 48; // now they have been
	++sa.calls;
	if(sa.fail) return -1;
	if(room == 0) return int(sa.size);
	size_t n = sa.size < room ? sa.size : room - 1;
	if(n == sa.size) ++sa.full;
	if(sa.at < n) buf[sa.at] = sa.c;
	if(n) buf[n - 1] = sa.at == n - 1 ? sa.c : 'z';
	buf[n] = 0;
	return int(sa.size);
}
static SA_INLINE void expect(const std::string& r, size_t size, size_t at, char c){
	CLAIM(sa.full >= 1);
	CLAIM(r.size() == size);
	if(at < size) CLAIM(r.data()[at] == c);
}
template <bool direct> SA_INLINE void make(size_t size, size_t at, char c, unsigned gp, void* regs){
	static const char format[] = "%d";
	ASSUME(gp <= 40);
	sa = {format, size, false, 0, 0, at, c, gp, regs};
	if(direct){
		expect(utki::make_string(format, 1), size, at, c);
	}else{
		list l = {gp, 48, nullptr, regs};
		expect(utki::make_string_va_list(format, *reinterpret_cast<va_list*>(&l)), size, at, c);
	}
}
#define MAKE(n, a) \
	PROBE(make_string_##n##_##a)(char c, unsigned gp, void* r){ make<true>(n, a, c, gp, r); } \
	PROBE(make_string_va_list_##n##_##a)(char c, unsigned gp, void* r){ make<false>(n, a, c, gp, r); }
MAKE(0, 0) MAKE(1, 0) MAKE(2, 0) MAKE(2, 1) MAKE(100, 99) MAKE(1022, 1021) MAKE(1023, 0) MAKE(1023, 1022) MAKE(1024, 0) MAKE(1024, 1022) MAKE(1024, 1023) MAKE(1025, 1023) MAKE(1025, 1024) MAKE(1500, 1100) MAKE(1500, 1499)
PROBE(failure)(unsigned gp, void* regs){
	static const char format[] = "%d";
	ASSUME(gp <= 40);
	sa = {format, 0, true, 0, 0, 0, 0, gp, regs};
	try{
		utki::make_string(format, 1);
		NEVER("returned");
	}catch(std::logic_error&){
		REACH("failed");
	}
}
