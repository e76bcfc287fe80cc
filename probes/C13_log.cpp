// logging, debug-only calls, and the questions about terminals
#include "sa.hpp"
#include <cstdio>
#include <iostream>
#include <utki/debug.hpp>
#include <utki/log.hpp>
#include <utki/utility.hpp>
namespace std { ostream cout; ostream cerr; }
static unsigned printed;
static unsigned asked; // about a terminal
static int answer;
static FILE* about;
#ifdef DEBUG
constexpr bool debug = true;
#else
constexpr bool debug = false;
#endif
extern "C" int fileno(FILE* f) noexcept { about = f; return 77; }
extern "C" int isatty(int fd) noexcept { 
	++asked;
	if(fd != 77) about = fd == 0 ? stdin : fd == 1 ? stdout : fd == 2 ? stderr : nullptr;
	return answer;
}
static void start(){
	printed = 0;
	std::cout.sa_size = std::cerr.sa_size = std::cout.sa_flushed = std::cout.sa_flushes = 0;
}
static void print(std::ostream& o){
	++printed;
	CLAIM(&o == &std::cout);
	o << 'a' << "bc";
}
static void output(bool any, size_t n){
	CLAIM(std::cerr.sa_size == 0);
	CLAIM(std::cout.sa_size == (any ? n : 0));
	CLAIM(std::cout.sa_flushed == std::cout.sa_size); // nothing is left in the buffer
}
PROBE(log)(){
	start();
	utki::log(print);
	CLAIM(printed == 1);
	output(true, 3);
	const char* t = std::cout.sa_text;
	CLAIM(t[0] == 'a' && t[1] == 'b' && t[2] == 'c');
}
PROBE(log_nothing)(){
	start();
	utki::log(nullptr);
	utki::log(std::function<void(std::ostream&)>());
	CLAIM(printed == 0);
	output(false, 0);
}
PROBE(logcat)(char c, char d){
	start();
	utki::logcat(c, "xy", d, std::string_view("z"));
	output(true, 5);
	const char* t = std::cout.sa_text;
	CLAIM(t[0] == c && t[1] == 'x' && t[2] == 'y' && t[3] == d && t[4] == 'z');
}
PROBE(log_twice)(char c, char d){
	start();
	utki::logcat(c);
	utki::logcat(d);
	output(true, 2);
	const char* t = std::cout.sa_text;
	CLAIM(t[0] == c && t[1] == d);
}
PROBE(log_debug)(){
	start();
	utki::log_debug(print);
	CLAIM(printed == debug);
	output(debug, 3);
}
PROBE(log_debug_nothing)(){
	start();
	utki::log_debug(nullptr);
	CLAIM(printed == 0);
	output(false, 0);
}
PROBE(logcat_debug)(char c, char d){
	start();
	utki::logcat_debug(c, d);
	output(debug, 2);
	const char* t = std::cout.sa_text;
	if(debug) CLAIM(t[0] == c && t[1] == d);
}
PROBE(log_macro)(){
	start();
	LOG(print)
	CLAIM(printed == debug);
	output(debug, 3);
}
PROBE(run_debug)(){
	start();
	utki::run_debug([]{ ++printed; });
	CLAIM(printed == debug);
	utki::run_debug(nullptr);
	CLAIM(printed == debug);
	output(false, 0);
}
#define TERMINAL(name, file) \
	PROBE(is_terminal_##name)(int a){ \
		asked = 0; \
		answer = a; \
		about = nullptr; \
		bool r = utki::is_terminal_##name(); \
		CLAIM(asked == 1); \
		CLAIM(about == file); \
		CLAIM(r == (a != 0)); \
	}
TERMINAL(cin, stdin) TERMINAL(cout, stdout) TERMINAL(cerr, stderr)
