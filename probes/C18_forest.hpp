// A forest for the traversal probes: the nodes in pre-order, told by their depths, e.g. 0,1,1,0.
#pragma once
#include <cstddef>
#include <iterator>
#include <initializer_list>
#include <new>
#include <utility>
extern "C" [[noreturn]] void sa_stop() noexcept;
#define SA_INLINE __attribute__((always_inline)) inline
constexpr size_t coll_cap = 6;
struct node;
// vector-like: iterators are positions in an array that moves when something is inserted
template <bool C> struct coll_iterator{
	using iterator_category = std::random_access_iterator_tag;
	using value_type = node;
	using difference_type = ptrdiff_t;
	using reference = std::conditional_t<C, const node&, node&>;
	using pointer = std::conditional_t<C, const node*, node*>;
	node** p = nullptr;
	coll_iterator() = default;
	explicit coll_iterator(node** p) : p(p) {}
	template <bool D, std::enable_if_t<C && !D, bool> = true> coll_iterator(const coll_iterator<D>& o) : p(o.p) {}
	reference operator*() const { return **p; }
	pointer operator->() const { return *p; }
	reference operator[](ptrdiff_t n) const { return *p[n]; }
	coll_iterator& operator++(){ ++p; return *this; }
	coll_iterator operator++(int){ auto r = *this; ++p; return r; }
	coll_iterator& operator--(){ --p; return *this; }
	coll_iterator operator--(int){ auto r = *this; --p; return r; }
	coll_iterator& operator+=(ptrdiff_t n){ p += n; return *this; }
	coll_iterator& operator-=(ptrdiff_t n){ p -= n; return *this; }
	friend coll_iterator operator+(coll_iterator a, ptrdiff_t n){ return a += n; }
	friend coll_iterator operator+(ptrdiff_t n, coll_iterator a){ return a += n; }
	friend coll_iterator operator-(coll_iterator a, ptrdiff_t n){ return a -= n; }
	friend ptrdiff_t operator-(const coll_iterator& a, const coll_iterator& b){ return a.p - b.p; }
	friend bool operator==(const coll_iterator& a, const coll_iterator& b){ return a.p == b.p; }
	friend bool operator!=(const coll_iterator& a, const coll_iterator& b){ return a.p != b.p; }
	friend bool operator<(const coll_iterator& a, const coll_iterator& b){ return a.p < b.p; }
	friend bool operator>(const coll_iterator& a, const coll_iterator& b){ return a.p > b.p; }
	friend bool operator<=(const coll_iterator& a, const coll_iterator& b){ return a.p <= b.p; }
	friend bool operator>=(const coll_iterator& a, const coll_iterator& b){ return a.p >= b.p; }
};
struct coll{
	using value_type = node;
	using size_type = size_t;
	using difference_type = ptrdiff_t;
	using iterator = coll_iterator<false>;
	using const_iterator = coll_iterator<true>;
	using reverse_iterator = std::reverse_iterator<iterator>;
	using const_reverse_iterator = std::reverse_iterator<const_iterator>;
	using reference = node&;
	using const_reference = const node&;
	node** items = nullptr;
	size_t n = 0;
	struct store* spare = nullptr; // where the next insertion moves the contents
	iterator begin() noexcept { return iterator(items); }
	iterator end() noexcept { return iterator(items + n); }
	const_iterator begin() const noexcept { return const_iterator(items); }
	const_iterator end() const noexcept { return const_iterator(items + n); }
	const_iterator cbegin() const noexcept { return begin(); }
	const_iterator cend() const noexcept { return end(); }
	reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
	reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
	const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
	const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
	size_t size() const noexcept { return n; }
	bool empty() const noexcept { return n == 0; }
	node& operator[](size_t i) noexcept { return *items[i]; }
	const node& operator[](size_t i) const noexcept { return *items[i]; }
	node& at(size_t i);
	const node& at(size_t i) const;
	node& front() noexcept { return *items[0]; }
	const node& front() const noexcept { return *items[0]; }
	node& back() noexcept { return *items[n - 1]; }
	const node& back() const noexcept { return *items[n - 1]; }
	iterator insert(const_iterator pos, node&& v);
	iterator insert(const_iterator pos, const node& v);
	template <class... A> iterator emplace(const_iterator pos, A&&... a){ return insert(pos, node(std::forward<A>(a)...)); }
	void push_back(node&& v){ insert(cend(), std::move(v)); }
	void push_back(const node& v){ insert(cend(), v); }
	template <class... A> node& emplace_back(A&&... a){ return *insert(cend(), node(std::forward<A>(a)...)); }
	void pop_back(){ erase(cend() - 1); }
	iterator erase(const_iterator pos){
		size_t k = size_t(pos - cbegin());
		if(k >= n) sa_bad();
		for(size_t i = k; i + 1 < n; ++i) items[i] = items[i + 1];
		--n;
		return begin() + ptrdiff_t(k);
	}
	static void sa_bad(){ sa_claim(false, "position outside of the collection"); sa_stop(); }
};
struct node{
	unsigned value = 0;
	coll children;
};
struct store{
	node added;
	node* items[coll_cap];
};
SA_INLINE node& coll::at(size_t i){ if(i >= n) throw std::out_of_range(""); return *items[i]; }
SA_INLINE const node& coll::at(size_t i) const { if(i >= n) throw std::out_of_range(""); return *items[i]; }
SA_INLINE coll::iterator coll::insert(const_iterator pos, node&& v){
	size_t k = size_t(pos - cbegin());
	if(k > n) sa_bad();
	if(n + 1 > coll_cap) sa_stop();
	if(!spare) sa_stop();
	node* e = &spare->added;
	e->value = v.value;
	e->children.items = v.children.items;
	e->children.n = v.children.n;
	v.children.n = 0; // moved from
	v.value = 0xdead;
	node** to = spare->items;
	spare = nullptr;
	for(size_t i = 0; i != k; ++i) to[i] = items[i];
	to[k] = e;
	for(size_t i = k; i != n; ++i) to[i + 1] = items[i];
	items = to;
	++n;
	return begin() + ptrdiff_t(k);
}
SA_INLINE coll::iterator coll::insert(const_iterator pos, const node& v){ node c(v); return insert(pos, std::move(c)); }

// depths in pre-order, two bits each, first node lowest
template <size_t N, unsigned D> struct forest{
	static constexpr size_t depth(size_t i){ return (D >> (2 * i)) & 3; }
	static constexpr size_t parent(size_t i){ // N when a root
		if(depth(i) == 0) return N;
		size_t j = i;
		while(depth(--j) + 1 != depth(i)){}
		return j;
	}
	static constexpr size_t subtree_end(size_t i){ size_t j = i + 1; while(j < N && depth(j) > depth(i)) ++j; return j; }
	static constexpr size_t sibling_index(size_t i){ size_t k = 0; for(size_t j = 0; j != i; ++j) if(parent(j) == parent(i)) ++k; return k; }
	static constexpr size_t ancestor(size_t i, size_t level){ while(depth(i) != level) i = parent(i); return i; }
	static constexpr bool last(size_t i){ for(size_t j = i + 1; j < N; ++j) if(parent(j) == parent(i)) return false; return true; }
	static constexpr size_t fanout(size_t p){ size_t k = 0; for(size_t j = 0; j < N; ++j) if(parent(j) == p) ++k; return k; }
	node nodes[N + 1];
	node* items[N + 1][coll_cap];
	coll roots;
	store spare;
	template <size_t I> SA_INLINE void place(){
		if constexpr(I < N){
			constexpr size_t p = parent(I), k = sibling_index(I);
			nodes[I].value = unsigned(I);
			items[p][k] = &nodes[I];
			place<I + 1>();
		}
	}
	template <size_t I> SA_INLINE void lists(){
		if constexpr(I < N){
			nodes[I].children.items = items[I];
			nodes[I].children.n = fanout(I);
			nodes[I].children.spare = &spare;
			lists<I + 1>();
		}
	}
	SA_INLINE forest(){
		roots.items = items[N];
		roots.n = fanout(N);
		roots.spare = &spare;
		lists<0>();
		place<0>();
	}
};
// all the forests of up to four nodes
constexpr unsigned d4(unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0){ return a | b << 2 | c << 4 | d << 6; }
#ifndef SA_FOREST4
#	define FORESTS4(X)
#else
#	define FORESTS4(X) FORESTS_OF_4(X)
#endif
#define FORESTS(X) \
	X(0, 0, 0, 0, 0) \
	X(1, 0, 0, 0, 0) \
	X(2, 0, 0, 0, 0) X(2, 0, 1, 0, 0) \
	X(3, 0, 0, 0, 0) X(3, 0, 0, 1, 0) X(3, 0, 1, 0, 0) X(3, 0, 1, 1, 0) X(3, 0, 1, 2, 0) FORESTS4(X)
#define FORESTS_OF_4(X) \
	X(4, 0, 0, 0, 0) X(4, 0, 0, 0, 1) X(4, 0, 0, 1, 0) X(4, 0, 0, 1, 1) X(4, 0, 0, 1, 2) X(4, 0, 1, 0, 0) X(4, 0, 1, 0, 1) \
	X(4, 0, 1, 1, 0) X(4, 0, 1, 1, 1) X(4, 0, 1, 1, 2) X(4, 0, 1, 2, 0) X(4, 0, 1, 2, 1) X(4, 0, 1, 2, 2) X(4, 0, 1, 2, 3)
