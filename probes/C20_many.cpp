// linq: collections of any size. The elements are numbers of their own place; what comes out is checked as it comes.
#include "sa.hpp"
#include <iterator>
#include <vector>
#include <utki/linq.hpp>
#define SA_INLINE __attribute__((always_inline)) inline
struct mark { size_t k; };
struct number { size_t v; };
static size_t results;
// the result of select: only says that the results come in order, none is missing
template <> class std::vector<mark> {
	size_t n = 0;
public:
	using value_type = mark;
	using iterator = const mark*;
	using const_iterator = const mark*;
	SA_INLINE vector() = default;
	SA_INLINE void reserve(size_t){}
	SA_INLINE void push_back(const mark& m){ CLAIM(m.k == n); ++n; results = n; }
	SA_INLINE mark& emplace_back(mark m){ push_back(m); static mark last; return last; }
	SA_INLINE size_t size() const { return n; }
	SA_INLINE bool empty() const { return n == 0; }
};
struct many {
	using value_type = number;
	size_t n = 0;
	SA_INLINE many(size_t n = 0) : n(n) {}
	struct const_iterator {
		using value_type = number;
		using difference_type = ptrdiff_t;
		using pointer = const number*;
		using reference = const number&;
		using iterator_category = std::forward_iterator_tag;
		number at;
		SA_INLINE const number& operator*() const { return at; }
		SA_INLINE const number* operator->() const { return &at; }
		SA_INLINE const_iterator& operator++(){ ++at.v; return *this; }
		SA_INLINE const_iterator operator++(int){ auto i = *this; ++at.v; return i; }
		SA_INLINE bool operator!=(const const_iterator& i) const { return at.v != i.at.v; }
		SA_INLINE bool operator==(const const_iterator& i) const { return at.v == i.at.v; }
	};
	using iterator = const_iterator;
	SA_INLINE const_iterator begin() const { return {{0}}; }
	SA_INLINE const_iterator end() const { return {{n}}; }
	SA_INLINE const_iterator cbegin() const { return {{0}}; }
	SA_INLINE const_iterator cend() const { return {{n}}; }
	SA_INLINE size_t size() const { return n; }
	SA_INLINE bool empty() const { return n == 0; }
};
template <bool lvalue> SA_INLINE void select_index(size_t n){
	many m(n);
	size_t k = 0;
	results = 0;
	auto f = [&k](const number& e, size_t i){
		CLAIM(e.v == k);
		CLAIM(i == k);
		++k;
		return mark{e.v};
	};
	if(lvalue) utki::linq(m).select(f); else utki::linq(std::move(m)).select(f);
	CLAIM(k == n);
	CLAIM(results == n);
}
PROBE(select_index_of_many)(size_t n){ select_index<true>(n); }
PROBE(select_index_from_many)(size_t n){ select_index<false>(n); }
template <bool lvalue> SA_INLINE void select_value(size_t n){
	many m(n);
	size_t k = 0;
	results = 0;
	auto f = [&k](const number& e){
		CLAIM(e.v == k);
		++k;
		return mark{e.v};
	};
	if(lvalue) utki::linq(m).select(f); else utki::linq(std::move(m)).select(f);
	CLAIM(k == n);
	CLAIM(results == n);
}
PROBE(select_of_many)(size_t n){ select_value<true>(n); }
PROBE(select_from_many)(size_t n){ select_value<false>(n); }
// where: an element is taken if and only if the predicate says so, before the next one is looked at
static size_t inserted, asked;
static bool pending;
SA_INLINE static bool wanted(number e){ return e.v % 5u != 2u; }
struct filtered : many {
	using many::many;
	SA_INLINE const_iterator insert(const_iterator i, number e){
		CLAIM(pending);
		CLAIM(e.v + 1 == asked);
		pending = false;
		++inserted;
		return i;
	}
	SA_INLINE void push_back(number e){ insert(end(), e); }
	SA_INLINE void emplace_back(number e){ insert(end(), e); }
	SA_INLINE const_iterator emplace_hint(const_iterator i, number e){ return insert(i, e); }
	SA_INLINE const_iterator emplace(const_iterator i, number e){ return insert(i, e); }
};
template <bool lvalue> SA_INLINE void where(size_t n){
	filtered m(n);
	asked = 0;
	pending = false;
	inserted = 0;
	auto f = [](const number& e){
		CLAIM(!pending);
		CLAIM(e.v == asked);
		++asked;
		pending = wanted(e);
		return wanted(e);
	};
	if(lvalue) utki::linq(m).where(f); else utki::linq(std::move(m)).where(f);
	CLAIM(!pending);
	CLAIM(asked == n);
}
PROBE(where_of_many)(size_t n){ where<true>(n); }
PROBE(where_from_many)(size_t n){ where<false>(n); }
