// span: a faithful, bounds-preserving view of memory it does not own.
#include "sa.hpp"
#include <array>
#include <string>
#include <string_view>
#include <vector>
#include <utki/span.hpp>
#include <utki/utility.hpp>

using utki::span;
namespace {
template <class T> __attribute__((always_inline)) inline T* buffer(size_t n){
	ASSUME(n <= (size_t(1) << 40));
	return static_cast<T*>(sa_buffer(n * sizeof(T)));
}
template <class S, class T> __attribute__((always_inline)) inline void is_view(const S& s, T* p, size_t n){
	CLAIM(s.data() == p);
	CLAIM(s.size() == n);
	CLAIM(s.empty() == (n == 0));
	CLAIM(s.size_bytes() == n * sizeof(T));
	CLAIM(&*s.begin() == p || n == 0);
	CLAIM(size_t(s.end() - s.begin()) == n);
	CLAIM(s.rbegin().base() == s.end());
	CLAIM(s.rend().base() == s.begin());
	CLAIM(s.begin() == s.data());
	CLAIM(s.end() == s.data() + n);
	CLAIM(s.cbegin() == s.begin());
	CLAIM(s.cend() == s.end());
	CLAIM(s.crbegin() == s.rbegin());
	CLAIM(s.crend() == s.rend());
	CLAIM(utki::end_pointer(s) == p + n);
}
}
template <class T> __attribute__((always_inline)) inline void basics(size_t n, size_t i){
	T* p = buffer<T>(n);
	span<T> s(p, n);
	is_view(s, p, n);
	is_view(utki::make_span(p, n), p, n);
	const span<T> c(s);
	is_view(c, p, n);
	span<const T> k(s);
	is_view(k, p, n);
	span<T> a;
	CLAIM(a.empty());
	CLAIM(a.size() == 0);
	CLAIM(a.begin() == a.end());
	CLAIM(a.data() == nullptr);
	a = s;
	is_view(a, p, n);
	// checked access: the element, or out_of_range
	try{
		T& e = s.at(i);
		REACH("at() gives an element");
		CLAIM(i < n);
		CLAIM(&e == p + i);
	}catch(std::out_of_range&){
		REACH("at() refuses");
		CLAIM(i >= n);
	}
	try{
		const T& e = c.at(i);
		CLAIM(i < n);
		CLAIM(&e == p + i);
	}catch(std::out_of_range&){
		CLAIM(i >= n);
	}
	if(i < n){
		CLAIM(&s[i] == p + i);
		CLAIM(&c[i] == p + i);
		CLAIM(&k[i] == p + i);
	}
	if(n != 0){
		CLAIM(&s.front() == p);
		CLAIM(&c.front() == p);
		CLAIM(&s.back() == p + n - 1);
		CLAIM(&c.back() == p + n - 1);
	}
}
PROBE(basics_u8)(size_t n, size_t i){ basics<uint8_t>(n, i); }
PROBE(basics_int)(size_t n, size_t i){ basics<int>(n, i); }
struct odd{ char c[7]; };
PROBE(basics_odd)(size_t n, size_t i){ basics<odd>(n, i); }

template <class T> __attribute__((always_inline)) inline void sub(size_t n, size_t off, size_t cnt){
	T* p = buffer<T>(n);
	const span<T> s(p, n);
	ASSUME(off <= n);
	{
		auto r = s.subspan(off);
		CLAIM(r.data() == p + off);
		CLAIM(r.size() == n - off);
	}
	ASSUME(cnt <= n - off);
	{
		auto r = s.subspan(off, cnt);
		CLAIM(r.data() == p + off);
		CLAIM(r.size() == cnt);
		CLAIM(r.begin() >= s.begin());
		CLAIM(r.end() <= s.end());
	}
}
PROBE(sub_u8)(size_t n, size_t off, size_t cnt){ sub<uint8_t>(n, off, cnt); }
PROBE(sub_int)(size_t n, size_t off, size_t cnt){ sub<int>(n, off, cnt); }

PROBE(from_containers)(){
	std::array<int, 5> a;
	const std::array<int, 5>& ca = a;
	is_view(span<int>(a), a.data(), 5);
	is_view(span<const int>(a), ca.data(), 5);
	is_view(span<const int>(ca), ca.data(), 5);
	is_view(utki::make_span(a), a.data(), 5);
	is_view(utki::make_span(ca), ca.data(), 5);
	std::array<int, 0> z{};
	CLAIM(utki::make_span(z).empty());
	CLAIM(span<int>(z).empty());
}
// whatever state the container is in
PROBE(from_vector)(std::vector<int>& v, const std::vector<int>& c){
	CLAIM(span<int>(v).data() == v.data());
	CLAIM(span<int>(v).size() == v.size());
	CLAIM(span<const int>(c).data() == c.data());
	CLAIM(span<const int>(c).size() == c.size());
	CLAIM(utki::make_span(v).size() == v.size());
	CLAIM(v.empty() || utki::make_span(v).data() == v.data());
	CLAIM(utki::make_span(c).size() == c.size());
	CLAIM(c.empty() || utki::make_span(c).data() == c.data());
}
PROBE(from_string)(std::string& v, const std::string& c){
	CLAIM(span<char>(v).data() == v.data());
	CLAIM(span<char>(v).size() == v.size());
	CLAIM(span<const char>(c).data() == c.data());
	CLAIM(span<const char>(c).size() == c.size());
	CLAIM(utki::make_span(v).size() == v.size());
	CLAIM(v.empty() || utki::make_span(v).data() == v.data());
	CLAIM(utki::make_span(c).size() == c.size());
	CLAIM(c.empty() || utki::make_span(c).data() == c.data());
}
PROBE(from_string_view)(size_t n){
	const char* p = buffer<char>(n);
	std::string_view v(p, n);
	auto s = utki::make_span(v);
	CLAIM(s.size() == n);
	CLAIM(s.data() == p || n == 0);
	is_view(span<const char>(v), p, n);
}
PROBE(from_initializer_list)(int x, int y, int z){
	auto f = [&](span<const int> s){
		CLAIM(s.size() == 3);
		CLAIM(s[0] == x);
		CLAIM(s[1] == y);
		CLAIM(s[2] == z);
	};
	f({x, y, z});
	f(utki::make_span({x, y, z}));
}
// a zero-terminated string: everything in front of the first zero, which is never passed
PROBE(from_cstring)(size_t n){
	ASSUME(n >= 1);
	char* p = static_cast<char*>(sa_cstring(n));
	auto s = utki::make_span(static_cast<const char*>(p));
	CLAIM(s.data() == p);
	CLAIM(s.size() < n);
	span<const char> t(static_cast<const char*>(p));
	CLAIM(t.data() == p);
	CLAIM(t.size() < n);
}
PROBE(bytes)(size_t n){
	char* c = buffer<char>(n);
	auto u = utki::to_uint8_t(span<char>(c, n));
	CLAIM(static_cast<void*>(u.data()) == c);
	CLAIM(u.size() == n);
	auto cu = utki::to_uint8_t(span<const char>(c, n));
	CLAIM(static_cast<const void*>(cu.data()) == c);
	CLAIM(cu.size() == n);
	auto d = utki::to_char(u);
	CLAIM(d.data() == c);
	CLAIM(d.size() == n);
	auto cd = utki::to_char(cu);
	CLAIM(cd.data() == c);
	CLAIM(cd.size() == n);
}
// iterating touches the viewed memory and nothing else (the engine adds the obligations)
PROBE(iterate)(size_t n, size_t k){
	uint8_t* p = buffer<uint8_t>(n);
	span<uint8_t> s(p, n);
	for(auto& e : s) e = 1;
	for(auto i = s.rbegin(); i != s.rend(); ++i) *i = 2;
	for(size_t i = 0; i != s.size(); ++i) s[i] = 3;
	ASSUME(k <= n);
	for(auto& e : s.subspan(k)) e = 4;
}
PROBE(overlaps)(size_t n, size_t i){
	int* p = buffer<int>(n);
	ASSUME(i <= n);
	const span<int> s(p, n);
	CLAIM(utki::overlaps(s, p + i) == (i < n));
}
PROBE(overlaps_part)(size_t n, size_t a, size_t b, size_t i){
	int* p = buffer<int>(n);
	ASSUME(a <= b && b <= n && i <= n);
	const span<int> s(p + a, b - a);
	CLAIM(utki::overlaps(s, p + i) == (a <= i && i < b));
}
PROBE(overlaps_empty)(int* q){
	const span<int> s;
	CLAIM(!utki::overlaps(s, q));
}

// comparison of contents
PROBE(deep_self)(size_t n){
	uint8_t* p = buffer<uint8_t>(n);
	const span<uint8_t> s(p, n);
	CLAIM(utki::deep_equals(s, s));
	CLAIM(!utki::deep_not_equals(s, s));
	CLAIM(!utki::deep_less_than(s, s));
	CLAIM(!utki::deep_greater_than(s, s));
	CLAIM(utki::deep_less_or_equals(s, s));
	CLAIM(utki::deep_greater_or_equals(s, s));
}
PROBE(deep_sizes)(size_t n, size_t m){
	uint8_t* p = buffer<uint8_t>(n);
	uint8_t* q = buffer<uint8_t>(m);
	const span<uint8_t> s(p, n);
	const span<const uint8_t> t(q, m);
	ASSUME(n != m);
	CLAIM(!utki::deep_equals(s, t));
	CLAIM(utki::deep_not_equals(s, t));
}
// no element outside of either span is looked at, whatever the sizes
PROBE(deep_bounds)(size_t n, size_t m){
	uint8_t* p = buffer<uint8_t>(n);
	uint8_t* q = buffer<uint8_t>(m);
	const span<uint8_t> s(p, n);
	const span<const uint8_t> t(q, m);
	bool sink = utki::deep_equals(s, t);
	sink |= utki::deep_less_than(s, t);
	sink |= utki::deep_greater_than(s, t);
	sa_escape(&sink);
}
template <size_t N, size_t M, int K> __attribute__((always_inline)) inline void deep(unsigned a0, unsigned a1, unsigned b0, unsigned b1){
	unsigned a[2] = {a0, a1}, b[2] = {b0, b1};
	const span<unsigned> s(a, N);
	const span<unsigned> t(b, M);
	// lexicographic order, a proper prefix being less
	auto less = [](const unsigned* x, size_t n, const unsigned* y, size_t m){
		for(size_t i = 0; i != 2; ++i){
			if(i == m) return false;
			if(i == n) return true;
			if(x[i] < y[i]) return true;
			if(y[i] < x[i]) return false;
		}
		return false;
	};
	bool eq = N == M && (N < 1 || a0 == b0) && (N < 2 || a1 == b1);
	bool lt = less(a, N, b, M), gt = less(b, M, a, N);
	if constexpr(K == 0) CLAIM(utki::deep_equals(s, t) == eq);
	if constexpr(K == 1) CLAIM(utki::deep_not_equals(s, t) == !eq);
	if constexpr(K == 2) CLAIM(utki::deep_less_than(s, t) == lt);
	if constexpr(K == 3) CLAIM(utki::deep_greater_than(s, t) == gt);
	if constexpr(K == 4) CLAIM(utki::deep_less_or_equals(s, t) == !gt);
	if constexpr(K == 5) CLAIM(utki::deep_greater_or_equals(s, t) == !lt);
}
#define DEEP1(n, m, k) PROBE(deep_##n##_##m##_##k)(unsigned a0, unsigned a1, unsigned b0, unsigned b1){ deep<n, m, k>(a0, a1, b0, b1); }
#define DEEP(n, m) DEEP1(n, m, 0) DEEP1(n, m, 1) DEEP1(n, m, 2) DEEP1(n, m, 3) DEEP1(n, m, 4) DEEP1(n, m, 5)
DEEP(0, 0) DEEP(0, 1) DEEP(1, 0) DEEP(1, 1) DEEP(1, 2) DEEP(2, 1) DEEP(2, 2) DEEP(0, 2) DEEP(2, 0)
