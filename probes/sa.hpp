// Harness vocabulary of the probes. A probe is a function named probe_*; its parameters stand for arbitrary
// values (every caller, every argument). Nothing here is ever executed: the probes are compiled to IR and
// the engine (sa/sa_engine.cpp) tries to show that every obligation holds on every path.
#pragma once
#include <cstddef>
#include <cstdint>
#include <stdexcept>
extern "C" {
void sa_claim(bool condition, const char* text) noexcept; // obligation: condition is true whenever reached
void sa_reach(const char* text) noexcept; // non-vacuity: this point must not have been shown unreachable
[[noreturn]] void sa_stop() noexcept; // end of the case under consideration
__attribute__((malloc, returns_nonnull)) void* sa_buffer(size_t bytes) noexcept; // fresh object of that many bytes, arbitrary contents
__attribute__((malloc, returns_nonnull)) void* sa_cstring(size_t bytes) noexcept; // the same, of at least one byte, the last of which is zero; not to be written
void sa_escape(void* p) noexcept; // whatever p points to may be read and changed by code that is not seen
int sa_user_call() ; // code that is not seen: may return anything, may throw sa_user_exc
bool sa_any_bool() noexcept;
uint8_t sa_any_u8() noexcept;
uint32_t sa_any_u32() noexcept;
uint64_t sa_any_u64() noexcept;
void* sa_any_ptr() noexcept;
}
struct sa_user_exc {};
#define SA_S2(x) #x
#define SA_S(x) SA_S2(x)
#define CLAIM(...) sa_claim(bool(__VA_ARGS__), #__VA_ARGS__)
#define NEVER(text) sa_claim(false, text)
#define REACH(text) sa_reach(text)
#define ASSUME(...) do { if(!(__VA_ARGS__)) sa_stop(); } while(0)
#define PROBE(name) extern "C" void probe_##name
