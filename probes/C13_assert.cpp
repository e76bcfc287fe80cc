// assertions: a failed one reports where and what on the standard error stream and never returns; one that holds does nothing
#include "sa.hpp"
#include <cstdio>
#include <iostream>
#include <utki/debug.hpp>
#include <utki/utility.hpp>
namespace std { ostream cout; ostream cerr; }
static struct {
	bool expected; // to abort
	bool text; // with a text
	unsigned printed, checked;
	bool tty;
} sa;
#ifdef DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif
extern "C" int fileno(FILE* f) noexcept { return f == stderr ? 2 : 3; }
extern "C" int isatty(int fd) noexcept { CLAIM(fd == 2); return sa.tty; }
static unsigned count(int c){ return std::cerr.sa_marks[c]; }
extern "C" void abort() noexcept {
	CLAIM(sa.expected);
	CLAIM(sa.printed == sa.text);
	CLAIM(count(1) == sa.text); // the text of the user
	CLAIM(count(2) == 1); // the file
	CLAIM(count(3) == 1); // the line
	CLAIM(std::cerr.sa_flushed == std::cerr.sa_size);
	CLAIM(std::cout.sa_size == 0);
	sa_stop();
}
static void print(std::ostream& o){
	++sa.printed;
	o << '\1';
}
struct sa_release { std::unique_ptr<int>& p; ~sa_release(){ p.release(); } };
static bool check(bool b){
	++sa.checked;
	return b;
}
static void start(bool expected, bool text, bool tty){
	sa = {expected, text, 0, 0, tty};
	std::cout.sa_size = std::cerr.sa_size = 0;
	std::cerr.sa_marks[1] = std::cerr.sa_marks[2] = std::cerr.sa_marks[3] = 0;
}
static void passed(){
	CLAIM(!sa.expected);
	CLAIM(sa.printed == 0);
	CLAIM(std::cout.sa_size == 0 && std::cerr.sa_size == 0);
	REACH("passed");
}
#define PER_TTY(name) template <bool tty> SA_INLINE void name(bool ok); \
	PROBE(name##_file)(bool ok){ name<false>(ok); } PROBE(name##_terminal)(bool ok){ name<true>(ok); } \
	template <bool tty> void name(bool ok)
#define SA_INLINE __attribute__((always_inline)) inline
#define HERE utki::source_location(3, 0, "\2")
PER_TTY(always){
	start(!ok, false, tty);
	utki::assert_always(ok, HERE);
	passed();
}
PER_TTY(always_text){
	start(!ok, true, tty);
	utki::assert_always(ok, print, HERE);
	passed();
}
PER_TTY(always_no_text){
	start(!ok, false, tty);
	utki::assert_always(ok, std::function<void(std::ostream&)>(), HERE);
	passed();
}
// in a release build the others do nothing
#define VARIANT(name, condition, prepare) \
	PER_TTY(of_##name){ start(!ok && debug, false, tty); prepare; utki::assert(condition, HERE); passed(); } \
	PER_TTY(of_##name##_text){ start(!ok && debug, true, tty); prepare; utki::assert(condition, print, HERE); passed(); }
VARIANT(boolean, ok, )
VARIANT(pointer, p, int i; int* p = ok ? &i : nullptr)
VARIANT(const_pointer, p, int i; const int* p = ok ? &i : nullptr)
VARIANT(unique_ptr, p, std::unique_ptr<int> p; int i = 0; if(ok) p.reset(&i); sa_release r{p})
VARIANT(shared_ptr, p, int i = 0; std::shared_ptr<int> p = ok ? std::shared_ptr<int>(std::shared_ptr<int>(), &i) : std::shared_ptr<int>())
VARIANT(function, f, std::function<void()> f; if(ok) f = []{ NEVER("called"); })
PER_TTY(checker){
	start(!ok && debug, false, tty);
	utki::assert([ok]{ return check(ok); }, HERE);
	CLAIM(sa.checked == debug); // evaluated once, and in a release build not at all
	passed();
}
PER_TTY(checker_text){
	start(!ok && debug, true, tty);
	utki::assert([ok]{ return check(ok); }, print, HERE);
	CLAIM(sa.checked == debug);
	passed();
}
#ifdef DEBUG
#	undef SL
#	define SL HERE
#endif
PER_TTY(macro){
	start(!ok && debug, false, tty);
	ASSERT(check(ok))
	CLAIM(sa.checked == debug);
	passed();
}
PER_TTY(macro_text){
	start(!ok && debug, true, tty);
	ASSERT(check(ok), print)
	CLAIM(sa.checked == debug);
	passed();
}
