// get_ticks_ms for every reading of the clock
#include "sa.hpp"
#include <chrono>
#include <ctime>
#include <utki/time.hpp>

// the clock is stood in for: any reading, the same for every clock of the system, a later one for a later call
static long long sa_reading[4];
static unsigned sa_readings = 0;
static long long sa_read(){ return sa_reading[sa_readings == 3 ? 3 : sa_readings++]; }
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sa_read())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sa_read())); }
}}}

extern "C" int clock_gettime(clockid_t, struct timespec* t) noexcept { long long r = sa_read(); t->tv_sec = r / 1000000000; t->tv_nsec = r % 1000000000; return 0; }
PROBE(ticks)(long long a, long long b){
	ASSUME(a >= 0);
	ASSUME(b >= a);
	sa_reading[0] = a;
	sa_reading[1] = sa_reading[2] = sa_reading[3] = b;
	sa_readings = 0;
	auto t = utki::get_ticks_ms();
	static_assert(std::is_same<decltype(t), uint32_t>::value, "");
	CLAIM(sa_readings == 1);
	CLAIM(t == uint32_t(a / 1000000));
}
// two calls: nothing is remembered
PROBE(twice)(long long a, long long b){
	ASSUME(a >= 0);
	ASSUME(b >= a);
	sa_reading[0] = a;
	sa_reading[1] = sa_reading[2] = sa_reading[3] = b;
	sa_readings = 0;
	auto t = utki::get_ticks_ms();
	auto u = utki::get_ticks_ms();
	CLAIM(t == uint32_t(a / 1000000));
	CLAIM(u == uint32_t(b / 1000000));
}
