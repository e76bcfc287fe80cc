// Model of the output streams: what is written to a stream is kept, in order, in a fixed buffer. Numbers are written as one
// character each, a function of the value; formatting is not modelled.
#pragma once
#include <iosfwd>
#include <ios>
#include <string>
#include <string_view>
extern "C" [[noreturn]] void sa_stop() noexcept;
#ifndef SA_STREAM_CAP
#	define SA_STREAM_CAP 48
#endif
#ifdef SA_NO_MARKS
#	define SA_MARK(c)
#else
#	define SA_MARK(c) if(c == C(1)) ++sa_marks[1]; if(c == C(2)) ++sa_marks[2]; if(c == C(3)) ++sa_marks[3];
#endif
#define SA_SI __attribute__((always_inline)) inline
namespace std {
template <class C, class T> class basic_ostream {
public:
	using char_type = C;
	using traits_type = T;
	C sa_text[SA_STREAM_CAP];
	unsigned sa_size = 0;
	unsigned sa_marks[4] = {}; // how many of the characters 0 to 3 were written
	long long sa_number[8]; // the numbers which were written
	unsigned sa_numbers = 0;
	SA_SI void sa_value(long long v){ if(sa_numbers < 8) sa_number[sa_numbers++] = v; }
	unsigned sa_flushes = 0; // how many times flushed
	unsigned sa_flushed = 0; // how much was there at the last flush
	basic_ostream() = default;
	basic_ostream(const basic_ostream&) = delete;
	basic_ostream& operator=(const basic_ostream&) = delete;
	SA_SI basic_ostream& put(C c){ if(sa_size >= SA_STREAM_CAP) sa_stop(); sa_text[sa_size++] = c; SA_MARK(c) return *this; }
	SA_SI basic_ostream& write(const C* s, streamsize n){ for(streamsize i = 0; i < n; ++i) put(s[i]); return *this; }
	SA_SI basic_ostream& flush(){ ++sa_flushes; sa_flushed = sa_size; return *this; }
	SA_SI basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)){ return f(*this); }
	SA_SI basic_ostream& operator<<(bool v){ return put(C('0' + v)); }
	SA_SI basic_ostream& operator<<(short v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(unsigned short v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(int v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(unsigned v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(long v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(unsigned long v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(long long v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(unsigned long long v){ sa_value((long long)v); return put(C(v)); }
	SA_SI basic_ostream& operator<<(double v){ sa_value((long long)v); return put(C(int(v))); }
	SA_SI basic_ostream& operator<<(float v){ sa_value((long long)v); return put(C(int(v))); }
	SA_SI basic_ostream& operator<<(long double v){ sa_value((long long)v); return put(C(int(v))); }
	SA_SI basic_ostream& operator<<(const void* v){ return put(C(v != nullptr)); }
	SA_SI basic_ostream& operator<<(nullptr_t){ return put(C('n')); }
	SA_SI explicit operator bool() const { return true; }
	SA_SI bool operator!() const { return false; }
	SA_SI bool good() const { return true; }
	SA_SI bool fail() const { return false; }
	SA_SI bool bad() const { return false; }
	SA_SI bool eof() const { return false; }
	SA_SI void clear() {}
	SA_SI streamoff tellp(){ return streamoff(sa_size); }
};
template <class T> SA_SI basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c){ o.put(c); return o; }
template <class T> SA_SI basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c){ o.put(char(c)); return o; }
template <class T> SA_SI basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c){ o.put(char(c)); return o; }
template <class T> SA_SI basic_ostream<wchar_t, T>& operator<<(basic_ostream<wchar_t, T>& o, wchar_t c){ o.put(c); return o; }
template <class C, class T> SA_SI basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s){ return o.write(s, streamsize(T::length(s))); }
template <class C, class T> SA_SI basic_ostream<C, T>& endl(basic_ostream<C, T>& o){ o.put(C('\n')); return o.flush(); }
template <class C, class T> SA_SI basic_ostream<C, T>& flush(basic_ostream<C, T>& o){ return o.flush(); }
template <class C, class T> SA_SI basic_ostream<C, T>& ends(basic_ostream<C, T>& o){ return o.put(C(0)); }
template <class S, class V, class = enable_if_t<is_base_of_v<ios_base, S> || !is_lvalue_reference_v<S>>>
SA_SI auto operator<<(S&& o, const V& v) -> decltype(static_cast<basic_ostream<typename S::char_type, typename S::traits_type>&>(o) << v, static_cast<S&&>(o)){
	static_cast<basic_ostream<typename S::char_type, typename S::traits_type>&>(o) << v; return static_cast<S&&>(o);
}
template <class C, class T> class basic_istream {};
template <class C, class T> class basic_iostream : public basic_ostream<C, T> {};
inline namespace __cxx11 {
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
public:
	basic_ostringstream() = default;
	explicit basic_ostringstream(ios_base::openmode){}
	SA_SI basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->sa_text, this->sa_size); }
	SA_SI void str(const basic_string<C, T, A>& s){ if(!s.empty()) sa_stop(); this->sa_size = 0; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
public:
	basic_stringstream() = default;
	explicit basic_stringstream(ios_base::openmode){}
	SA_SI basic_string<C, T, A> str() const { return basic_string<C, T, A>(this->sa_text, this->sa_size); }
	SA_SI void str(const basic_string<C, T, A>& s){ if(!s.empty()) sa_stop(); this->sa_size = 0; }
};
}
extern ostream cout;
extern ostream cerr;
extern ostream clog;
extern istream cin;
extern wostream wcout;
extern wostream wcerr;
}
