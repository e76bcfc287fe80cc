// Stand-in for std::map / std::unordered_map used by probes which ask for it: same interface, at most SA_MAP_CAP
// elements kept inside of the object, ordered by the comparator.
#ifndef SA_MAP_MODEL
#define SA_MAP_MODEL
#include <bits/c++config.h>
#include <bits/allocator.h>
#include <bits/functexcept.h>
#include <bits/functional_hash.h>
#include <bits/range_access.h>
#include <bits/stl_algobase.h>
#include <bits/stl_function.h>
#include <bits/stl_iterator.h>
#include <bits/stl_pair.h>
#include <initializer_list>
#include <iterator>
#include <new>
#include <tuple>
#include <type_traits>
#ifndef SA_MAP_CAP
#	define SA_MAP_CAP 4
#endif
extern "C" [[noreturn]] void sa_stop() noexcept;
namespace sa_model{
template <typename D, typename K, typename V, typename C>
class map_base{
public:
	using key_type = K;
	using mapped_type = V;
	using value_type = std::pair<const K, V>;
	using size_type = std::size_t;
	using difference_type = std::ptrdiff_t;
	using reference = value_type&;
	using const_reference = const value_type&;
	using pointer = value_type*;
	using const_pointer = const value_type*;
	using iterator = __gnu_cxx::__normal_iterator<pointer, map_base>;
	using const_iterator = __gnu_cxx::__normal_iterator<const_pointer, map_base>;
	using reverse_iterator = std::reverse_iterator<iterator>;
	using const_reverse_iterator = std::reverse_iterator<const_iterator>;
private:
	alignas(value_type) unsigned char m_store[SA_MAP_CAP * sizeof(value_type)];
	std::size_t n = 0;
	C comp;
	value_type* s() noexcept { return reinterpret_cast<value_type*>(m_store); }
	const value_type* s() const noexcept { return reinterpret_cast<const value_type*>(m_store); }
	std::size_t lower(const K& k) const { std::size_t i = 0; while(i != n && comp(s()[i].first, k)) ++i; return i; }
	bool is(std::size_t i, const K& k) const { return i != n && !comp(k, s()[i].first); }
	template <typename... P> std::pair<iterator, bool> put(const K& k, P&&... p){
		std::size_t i = lower(k);
		if(is(i, k)) return {begin() + i, false};
		if(n >= SA_MAP_CAP) sa_stop();
		for(std::size_t j = n; j != i; --j){ ::new(static_cast<void*>(s() + j)) value_type(std::move(s()[j - 1])); s()[j - 1].~value_type(); }
		::new(static_cast<void*>(s() + i)) value_type(std::forward<P>(p)...);
		++n;
		return {begin() + i, true};
	}
public:
	map_base(){}
	explicit map_base(const C& c) : comp(c) {}
	map_base(std::initializer_list<value_type> l){ for(auto& v : l) put(v.first, v); }
	template <typename I> map_base(I b, I e){ for(; b != e; ++b) insert(*b); }
	map_base(const map_base& o) : comp(o.comp) { for(auto& v : o) put(v.first, v); }
	map_base(map_base&& o) : comp(o.comp) { for(auto& v : o) put(v.first, std::move(v)); o.clear(); }
	map_base& operator=(const map_base& o){ if(this != &o){ clear(); for(auto& v : o) put(v.first, v); } return *this; }
	map_base& operator=(map_base&& o){ if(this != &o){ clear(); for(auto& v : o) put(v.first, std::move(v)); o.clear(); } return *this; }
	~map_base(){ clear(); }
	void clear() noexcept { for(std::size_t i = 0; i != n; ++i) s()[i].~value_type(); n = 0; }
	std::size_t size() const noexcept { return n; }
	bool empty() const noexcept { return n == 0; }
	void reserve(std::size_t){}
	iterator begin() noexcept { return iterator(s()); }
	iterator end() noexcept { return iterator(s() + n); }
	const_iterator begin() const noexcept { return const_iterator(s()); }
	const_iterator end() const noexcept { return const_iterator(s() + n); }
	const_iterator cbegin() const noexcept { return begin(); }
	const_iterator cend() const noexcept { return end(); }
	reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
	reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
	const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
	const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
	std::pair<iterator, bool> insert(const value_type& v){ return put(v.first, v); }
	std::pair<iterator, bool> insert(value_type&& v){ return put(v.first, std::move(v)); }
	template <typename P, typename = std::enable_if_t<std::is_constructible<value_type, P&&>::value>> std::pair<iterator, bool> insert(P&& p){ return insert(value_type(std::forward<P>(p))); }
	iterator insert(const_iterator, const value_type& v){ return insert(v).first; }
	iterator insert(const_iterator, value_type&& v){ return insert(std::move(v)).first; }
	template <typename P, typename = std::enable_if_t<std::is_constructible<value_type, P&&>::value>> iterator insert(const_iterator, P&& p){ return insert(value_type(std::forward<P>(p))).first; }
	template <typename I> void insert(I b, I e){ for(; b != e; ++b) insert(*b); }
	template <typename... P> std::pair<iterator, bool> emplace(P&&... p){ return insert(value_type(std::forward<P>(p)...)); }
	template <typename... P> iterator emplace_hint(const_iterator, P&&... p){ return emplace(std::forward<P>(p)...).first; }
	template <typename... P> std::pair<iterator, bool> try_emplace(const K& k, P&&... p){ return put(k, std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(std::forward<P>(p)...)); }
	template <typename P> std::pair<iterator, bool> insert_or_assign(const K& k, P&& p){ auto i = find(k); if(i != end()){ i->second = std::forward<P>(p); return {i, false}; } return emplace(k, std::forward<P>(p)); }
	V& operator[](const K& k){ return try_emplace(k).first->second; }
	V& at(const K& k){ auto i = find(k); if(i == end()) std::__throw_out_of_range("map"); return i->second; }
	const V& at(const K& k) const { auto i = find(k); if(i == end()) std::__throw_out_of_range("map"); return i->second; }
	iterator find(const K& k){ std::size_t i = lower(k); return is(i, k) ? begin() + i : end(); }
	const_iterator find(const K& k) const { std::size_t i = lower(k); return is(i, k) ? begin() + i : end(); }
	std::size_t count(const K& k) const { return find(k) != end(); }
	bool contains(const K& k) const { return find(k) != end(); }
	iterator lower_bound(const K& k){ return begin() + lower(k); }
	const_iterator lower_bound(const K& k) const { return begin() + lower(k); }
	C key_comp() const { return comp; }
};
}
#endif
