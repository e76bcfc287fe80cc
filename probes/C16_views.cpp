// next, prev, skip_front, reverse, zip, contains (sequences), end_pointer
#include <vector>
#include "sa.hpp"
#include <array>
#include <list>
#include <forward_list>
#include <string_view>
#include <utki/span.hpp>
#include <utki/utility.hpp>
#include <utki/views.hpp>
// An iterator over positions 0 .. end whose difference type is as small as asked for, forward or bidirectional.
// Every place it is dereferenced or moved to must lie in the range.
template <class D, class Category> struct walker{
	using iterator_category = Category;
	using value_type = size_t;
	using difference_type = D;
	using pointer = void;
	using reference = size_t;
	size_t pos;
	size_t end;
	size_t operator*() const { CLAIM(pos < end); return pos; }
	walker& operator++(){ CLAIM(pos < end); ++pos; return *this; }
	walker operator++(int){ auto r = *this; ++*this; return r; }
	walker& operator--(){ CLAIM(pos > 0); --pos; return *this; }
	walker operator--(int){ auto r = *this; --*this; return r; }
	walker& operator+=(D n){ if(n >= 0){ CLAIM(size_t(n) <= end - pos); pos += size_t(n); } else { CLAIM(size_t(-(long long)n) <= pos); pos -= size_t(-(long long)n); } return *this; }
	walker& operator-=(D n){ if(n >= 0){ CLAIM(size_t(n) <= pos); pos -= size_t(n); } else { CLAIM(size_t(-(long long)n) <= end - pos); pos += size_t(-(long long)n); } return *this; }
	walker operator+(D n) const { auto r = *this; return r += n; }
	walker operator-(D n) const { auto r = *this; return r -= n; }
	bool operator==(const walker& o) const { return pos == o.pos; }
	bool operator!=(const walker& o) const { return pos != o.pos; }
};
// random access: any distance
PROBE(next_pointer)(size_t n, size_t from, size_t k){
	ASSUME(n <= (size_t(1) << 40));
	ASSUME(from <= n);
	ASSUME(k <= n - from);
	char* p = static_cast<char*>(sa_buffer(n));
	CLAIM(utki::next(p + from, k) == p + from + k);
	CLAIM(utki::prev(p + from + k, k) == p + from);
}
PROBE(next_int_diff)(size_t end, size_t from, size_t k){
	ASSUME(end <= 0x7fffffff);
	ASSUME(from <= end);
	ASSUME(k <= end - from);
	using it = walker<int, std::random_access_iterator_tag>;
	CLAIM(utki::next(it{from, end}, k).pos == from + k);
	CLAIM(utki::prev(it{from + k, end}, k).pos == from);
}
// distances the difference type cannot hold are made in several steps
template <size_t K, class Cat> __attribute__((always_inline)) inline void far(size_t from){
	using it = walker<int8_t, Cat>;
	ASSUME(from <= 1000);
	CLAIM(utki::next(it{from, 2000}, K).pos == from + K);
	CLAIM(utki::prev(it{from + K, 2000}, K).pos == from);
}
#define FAR(k) PROBE(far##k)(size_t from){ far<k, std::random_access_iterator_tag>(from); }
FAR(0) FAR(1) FAR(126) FAR(127) FAR(128) FAR(129) FAR(200) FAR(254) FAR(255) FAR(256) FAR(300)
template <size_t K> __attribute__((always_inline)) inline void stepwise(size_t from){
	using it = walker<int8_t, std::bidirectional_iterator_tag>;
	ASSUME(from <= 1000);
	CLAIM(utki::next(it{from, 2000}, K).pos == from + K);
	CLAIM(utki::prev(it{from + K, 2000}, K).pos == from);
}
PROBE(stepwise0)(size_t from){ stepwise<0>(from); }
PROBE(stepwise1)(size_t from){ stepwise<1>(from); }
PROBE(stepwise3)(size_t from){ stepwise<3>(from); }

template <size_t N, size_t K> __attribute__((always_inline)) inline void skips(){
	std::array<int, N> a;
	sa_escape(&a);
	size_t i = K;
	for(auto& e : utki::skip_front<K>(a)){
		CLAIM(i < N);
		CLAIM(&e == a.data() + i);
		++i;
	}
	CLAIM(i == N);
	const auto& c = a;
	i = K;
	for(auto& e : utki::skip_front<K>(c)){
		CLAIM(&e == a.data() + i);
		++i;
	}
	CLAIM(i == N);
}
PROBE(skips_0_0)(){ skips<0, 0>(); }
PROBE(skips_3_0)(){ skips<3, 0>(); }
PROBE(skips_3_1)(){ skips<3, 1>(); }
PROBE(skips_3_2)(){ skips<3, 2>(); }
PROBE(skips_3_3)(){ skips<3, 3>(); }
PROBE(skips_span)(size_t n){
	ASSUME(n >= 2 && n <= (size_t(1) << 40));
	auto s = utki::make_span(static_cast<char*>(sa_buffer(n)), n);
	auto w = utki::skip_front<2>(s);
	CLAIM(w.begin() == s.begin() + 2);
	CLAIM(w.end() == s.end());
}
template <size_t N> __attribute__((always_inline)) inline void reverses(){
	std::array<int, N> a;
	sa_escape(&a);
	size_t i = N;
	for(auto& e : utki::views::reverse(a)){
		CLAIM(i > 0);
		--i;
		CLAIM(&e == a.data() + i);
	}
	CLAIM(i == 0);
	const auto& c = a;
	i = N;
	for(auto& e : utki::views::reverse(c)){
		--i;
		CLAIM(&e == a.data() + i);
	}
	CLAIM(i == 0);
}
PROBE(reverses0)(){ reverses<0>(); }
PROBE(reverses1)(){ reverses<1>(); }
PROBE(reverses4)(){ reverses<4>(); }
PROBE(reverses_span)(size_t n){
	ASSUME(n <= (size_t(1) << 40));
	auto s = utki::make_span(static_cast<char*>(sa_buffer(n)), n);
	auto r = utki::views::reverse(s);
	CLAIM(r.begin().base() == s.end());
	CLAIM(r.end().base() == s.begin());
	for(auto& e : r) e = 1;
}
template <size_t N, size_t M> __attribute__((always_inline)) inline void zips(){
	constexpr size_t L = N < M ? N : M;
	std::array<int, N> a;
	std::array<char, M> b;
	sa_escape(&a);
	sa_escape(&b);
	size_t i = 0;
	for(auto t : utki::views::zip(a, b)){
		CLAIM(i < L);
		CLAIM(&std::get<0>(t) == a.data() + i);
		CLAIM(&std::get<1>(t) == b.data() + i);
		std::get<0>(t) = 1;
		++i;
	}
	CLAIM(i == L);
	const auto& c = b;
	i = 0;
	for(auto t : utki::views::zip(c, a)){
		CLAIM(i < L);
		CLAIM(&std::get<0>(t) == b.data() + i);
		CLAIM(&std::get<1>(t) == a.data() + i);
		static_assert(std::is_same<decltype(t), std::tuple<const char&, int&>>::value, "elements are handed out by reference, constness kept");
		++i;
	}
	CLAIM(i == L);
}
#define ZIP(n, m) PROBE(zips_##n##_##m)(){ zips<n, m>(); }
ZIP(0, 0) ZIP(0, 2) ZIP(2, 0) ZIP(1, 1) ZIP(2, 3) ZIP(3, 2) ZIP(3, 3)
PROBE(zips3)(){
	std::array<int, 4> a;
	std::array<char, 3> b;
	std::array<short, 5> c;
	sa_escape(&a);
	sa_escape(&b);
	sa_escape(&c);
	size_t i = 0;
	for(auto t : utki::views::zip(a, b, c)){
		CLAIM(i < 3);
		CLAIM(&std::get<0>(t) == &a[i]);
		CLAIM(&std::get<1>(t) == &b[i]);
		CLAIM(&std::get<2>(t) == &c[i]);
		++i;
	}
	CLAIM(i == 3);
}
template <size_t K, size_t L, size_t M> __attribute__((always_inline)) inline void zips_three(){
	constexpr size_t least = K < L ? (K < M ? K : M) : (L < M ? L : M);
	std::array<int, K> a;
	std::array<char, L> b;
	std::array<short, M> c;
	sa_escape(&a);
	sa_escape(&b);
	sa_escape(&c);
	size_t i = 0;
	for(auto t : utki::views::zip(a, b, c)){
		CLAIM(i < least);
		CLAIM(&std::get<0>(t) == a.data() + i);
		CLAIM(&std::get<1>(t) == b.data() + i);
		CLAIM(&std::get<2>(t) == c.data() + i);
		++i;
	}
	CLAIM(i == least);
}
#define ZIP3(k, l, m) PROBE(zips_##k##_##l##_##m)(){ zips_three<k, l, m>(); }
ZIP3(1, 2, 3) ZIP3(1, 3, 2) ZIP3(2, 1, 3) ZIP3(3, 1, 2) ZIP3(2, 3, 1) ZIP3(3, 2, 1) ZIP3(2, 2, 0) ZIP3(1, 1, 1)
// four collections, the last or the last but one is the shortest; a single one
PROBE(zips_4)(){
	std::array<int, 3> a;
	std::array<char, 2> b;
	sa_escape(&a);
	sa_escape(&b);
	const std::array<char, 1> c{};
	size_t i = 0;
	for(auto t : utki::views::zip(a, b, a, c)){
		CLAIM(&std::get<0>(t) == a.data() + i);
		CLAIM(&std::get<1>(t) == b.data() + i);
		CLAIM(&std::get<2>(t) == a.data() + i);
		CLAIM(&std::get<3>(t) == c.data() + i);
		++i;
	}
	CLAIM(i == 1);
	i = 0;
	for(auto t : utki::views::zip(a, b, c, a)){
		CLAIM(&std::get<2>(t) == c.data() + i);
		++i;
	}
	CLAIM(i == 1);
}
PROBE(zips_1)(){
	std::array<int, 3> a;
	sa_escape(&a);
	size_t i = 0;
	for(auto t : utki::views::zip(a)){
		CLAIM(&std::get<0>(t) == a.data() + i);
		++i;
	}
	CLAIM(i == 3);
}
// sizes unknown: nothing past the shorter one, and everything before its end
PROBE(zips_span_count)(size_t n, size_t m){
	ASSUME(n <= (size_t(1) << 40) && m <= (size_t(1) << 40));
	auto s = utki::make_span(static_cast<char*>(sa_buffer(n)), n);
	auto t = utki::make_span(static_cast<char*>(sa_buffer(m)), m);
	size_t i = 0;
	for(auto p : utki::views::zip(s, t)){
		CLAIM(i < n && i < m);
		++i;
	}
	CLAIM(i == n || i == m);
}
PROBE(zips_spans)(size_t n, size_t m){
	ASSUME(n <= (size_t(1) << 40) && m <= (size_t(1) << 40));
	auto s = utki::make_span(static_cast<char*>(sa_buffer(n)), n);
	auto t = utki::make_span(static_cast<char*>(sa_buffer(m)), m);
	for(auto p : utki::views::zip(s, t)) std::get<0>(p) = std::get<1>(p);
}
PROBE(contains_any)(size_t n, char v){
	ASSUME(n <= (size_t(1) << 40));
	utki::span<const char> s(static_cast<char*>(sa_buffer(n)), n);
	bool r = utki::contains(s, v);
	CLAIM(!r || n != 0);
}
template <size_t N> __attribute__((always_inline)) inline void in_array(int a, int b, int c, int v){
	std::array<int, 3> all{a, b, c};
	utki::span<const int> s(all.data(), N);
	CLAIM(utki::contains(s, v) == ((N > 0 && a == v) || (N > 1 && b == v) || (N > 2 && c == v)));
}
PROBE(in_array0)(int a, int b, int c, int v){ in_array<0>(a, b, c, v); }
PROBE(in_array1)(int a, int b, int c, int v){ in_array<1>(a, b, c, v); }
PROBE(in_array2)(int a, int b, int c, int v){ in_array<2>(a, b, c, v); }
PROBE(in_array3)(int a, int b, int c, int v){ in_array<3>(a, b, c, v); }
PROBE(in_vector)(int a, int b, int v){
	std::vector<int> x{a, b};
	CLAIM(utki::contains(x, v) == (a == v || b == v));
}
PROBE(in_text)(char v){
	CLAIM(utki::contains(std::string_view("xyz"), v) == (v == 'x' || v == 'y' || v == 'z'));
}
PROBE(end_pointers)(size_t n){
	ASSUME(n <= (size_t(1) << 40));
	auto p = static_cast<int*>(sa_buffer(n * sizeof(int)));
	CLAIM(utki::end_pointer(utki::make_span(p, n)) == p + n);
	std::array<int, 4> a;
	const auto& c = a;
	CLAIM(utki::end_pointer(a) == a.data() + 4);
	CLAIM(utki::end_pointer(c) == a.data() + 4);
	std::string_view v("abc");
	CLAIM(utki::end_pointer(v) == v.data() + 3);
}
