#pragma once
#define _OSTREAM_INSERT_H 1
#include <iosfwd>
namespace std {
template <class C, class T> __attribute__((always_inline)) inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n){
	o.write(s, n);
	return o;
}
}
