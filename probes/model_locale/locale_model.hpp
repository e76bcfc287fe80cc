// Model of std::isspace(c, locale): in the classic locale it tells the six whitespace characters, in any other one anything.
// Included ahead of everything else.
#pragma once
#include <cctype>
#define isspace sa_real_isspace
#define classic sa_classic
#include <locale>
#include <sstream>
#include <ostream>
#undef isspace
#undef classic
extern "C" bool sa_any_bool() noexcept;
extern "C" const char sa_classic_locale[sizeof(std::locale)];
#define classic() sa_classic()
namespace std {
template <class C> __attribute__((always_inline)) inline bool isspace(C c, const locale& l){
	if(reinterpret_cast<const char*>(&l) != sa_classic_locale) return sa_any_bool();
	return c == C(' ') || c == C('\n') || c == C('\t') || c == C('\r') || c == C('\v') || c == C('\f');
}
__attribute__((always_inline)) inline const locale& locale::sa_classic(){ return *reinterpret_cast<const locale*>(sa_classic_locale); }
}
