// traversal: positions and indices, lookup, ordering, insertion and removal
#include <vector>
#include "sa.hpp"
#include <stdexcept>
#include "C18_forest.hpp"
#include <utki/tree.hpp>

using path_type = std::vector<size_t>;
template <size_t N, unsigned D, size_t I, size_t L = 0> SA_INLINE void fill(path_type& p){
	using F = forest<N, D>;
	if constexpr(L <= F::depth(I)){
		constexpr size_t step = F::sibling_index(F::ancestor(I, L));
		p.push_back(step);
		fill<N, D, I, L + 1>(p);
	}
}
template <size_t N, unsigned D, size_t I> SA_INLINE path_type path(){
	path_type p;
	fill<N, D, I>(p);
	return p;
}
template <size_t N, unsigned D, size_t I, size_t L, class It> SA_INLINE void levels(forest<N, D>& f, It& it){
	using F = forest<N, D>;
	if constexpr(L <= F::depth(I)){
		constexpr size_t a = F::ancestor(I, L);
		CLAIM(&it.at_level(L) == &f.nodes[a]);
		levels<N, D, I, L + 1>(f, it);
	}
}
template <size_t N, unsigned D, size_t I, class It> SA_INLINE void position(forest<N, D>& f, It it){
	using F = forest<N, D>;
	CLAIM(&*it == &f.nodes[I]);
	CLAIM(it.operator->() == &f.nodes[I]);
	CLAIM(it.depth() == F::depth(I) + 1);
	const It& cit = it;
	CLAIM(&*cit == &f.nodes[I]);
	CLAIM(cit.operator->() == &f.nodes[I]);
	CLAIM(it.index() == path<N, D, I>());
	levels<N, D, I, 0>(f, it);
	levels<N, D, I, 0>(f, cit);
}
template <size_t N, unsigned D, size_t I> SA_INLINE void lookup(){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	const auto& ct = t;
	const coll& croots = f.roots;
	auto kt = utki::make_traversal(croots);
	path_type p = path<N, D, I>();
	CLAIM(t.is_valid(p));
	CLAIM(kt.is_valid(p));
	position<N, D, I>(f, t.make_iterator(p));
	position<N, D, I>(f, ct.make_const_iterator(p));
	position<N, D, I>(f, kt.make_const_iterator(p));
	CLAIM(&t[p] == &f.nodes[I]);
	CLAIM(&ct[p] == &f.nodes[I]);
	const auto& ckt = kt;
	CLAIM(&ckt[p] == &f.nodes[I]);
}
template <size_t N, unsigned D, size_t I> SA_INLINE void levels_out(size_t level){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	auto it = t.make_iterator(path<N, D, I>());
	ASSUME(level > f.depth(I));
	try{
		it.at_level(level);
		NEVER("at_level() past the depth of the iterator has to throw");
	}catch(std::out_of_range&){
		REACH("at_level() throws");
	}
	const auto& cit = it;
	try{
		cit.at_level(level);
		NEVER("at_level() const past the depth of the iterator has to throw");
	}catch(std::out_of_range&){
	}
}
// a step that does not exist, below node I (below the roots when I is N), then any number of further steps
template <size_t N, unsigned D, size_t I> SA_INLINE void invalid(size_t step, size_t further, bool more){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	path_type p;
	if constexpr(I != N) fill<N, D, I>(p);
	constexpr size_t fanout = forest<N, D>::fanout(I);
	ASSUME(step >= fanout);
	p.push_back(step);
	if(more) p.push_back(further);
	CLAIM(!t.is_valid(p));
	try{
		t.make_iterator(p);
		NEVER("an iterator is made for an index that points out of the tree");
	}catch(std::out_of_range&){
		REACH("make_iterator() throws");
	}
	try{
		t.make_const_iterator(p);
		NEVER("a const iterator is made for an index that points out of the tree");
	}catch(std::out_of_range&){
	}
}
template <size_t N, unsigned D, size_t I, size_t J> SA_INLINE void compare(){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	auto a = I == N ? t.end() : t.make_iterator(path<N, D, I == N ? 0 : I>());
	auto b = J == N ? t.end() : t.make_iterator(path<N, D, J == N ? 0 : J>());
	CLAIM((a == b) == (I == J));
	CLAIM((a != b) == (I != J));
	CLAIM((a < b) == (I < J));
	CLAIM((a > b) == (I > J));
	CLAIM((a <= b) == (I <= J));
	CLAIM((a >= b) == (I >= J));
}
template <size_t N, unsigned D, size_t I, size_t J = 0> SA_INLINE void compares(){
	if constexpr(J <= N){
		compare<N, D, I, J>();
		compares<N, D, I, J + 1>();
	}
}
// one step forward and one step back, from and to iterators made by index
template <size_t N, unsigned D, size_t I> SA_INLINE void steps(){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	auto a = t.make_iterator(path<N, D, I>());
	auto& r = ++a;
	CLAIM(&r == &a);
	if constexpr(I + 1 == N) CLAIM(a == t.end());
	else{
		CLAIM(a == t.make_iterator(path<N, D, I + 1>()));
		CLAIM(a.index() == path<N, D, I + 1>());
	}
	auto& q = --a;
	CLAIM(&q == &a);
	CLAIM(a == t.make_iterator(path<N, D, I>()));
	CLAIM(a.index() == path<N, D, I>());
}
// visits the forest and claims that it consists of the given nodes in that order
template <size_t N, unsigned D, size_t I> SA_INLINE void erase(){
	using F = forest<N, D>;
	F f;
	auto t = utki::make_traversal(f.roots);
	auto r = t.erase(t.make_iterator(path<N, D, I>()));
	constexpr size_t e = F::subtree_end(I);
	if constexpr(e == N) CLAIM(r == t.end());
	else{
		CLAIM(&*r == &f.nodes[e]);
		CLAIM(r.depth() == F::depth(e) + 1);
	}
	size_t k = 0;
	for(auto i = t.begin(); i != t.end(); ++i){
		if(k == I) k = e;
		CLAIM(k < N);
		CLAIM(&*i == &f.nodes[k]);
		CLAIM(i.depth() == F::depth(k) + 1);
		if(k == e && e != N) CLAIM(i == r);
		++k;
	}
	if(k == I) k = e;
	CLAIM(k == N);
	if constexpr(e == N){ CLAIM(r == t.end()); }
}
constexpr unsigned fresh = 77;
// A: after the node, C: the node is copied in
template <size_t N, unsigned D, size_t I, bool A, bool C> SA_INLINE void insert(){
	using F = forest<N, D>;
	F f;
	auto t = utki::make_traversal(f.roots);
	node child;
	child.value = 78;
	node* child_items[1] = {&child};
	node x;
	x.value = fresh;
	x.children.items = child_items;
	x.children.n = 1;
	auto where = t.make_iterator(path<N, D, I>());
	auto put = [&](auto&& v){
		if constexpr(A) return t.insert_after(where, std::forward<decltype(v)>(v));
		else return t.insert(where, std::forward<decltype(v)>(v));
	};
	auto r = C ? put(static_cast<const node&>(x)) : put(std::move(x));
	CLAIM(r->value == fresh);
	CLAIM(r->children.size() == 1);
	CLAIM(r.depth() == F::depth(I) + 1);
	CLAIM(!C || x.value == fresh);
	// where the new node stands in pre-order
	constexpr size_t at = A ? F::subtree_end(I) : I;
	size_t k = 0;
	bool seen = false;
	for(auto i = t.begin(); i != t.end(); ++i){
		if(!seen && k == at && i->value == fresh){
			seen = true;
			CLAIM(i == r);
			++i;
			CLAIM(i->value == 78);
			continue;
		}
		CLAIM(k < N);
		CLAIM(&*i == &f.nodes[k]);
		CLAIM(i.depth() == F::depth(k) + 1);
		++k;
	}
	CLAIM(k == N);
	CLAIM(seen);
}
// at the end of the roots
template <size_t N, unsigned D> SA_INLINE void append(){
	using F = forest<N, D>;
	F f;
	auto t = utki::make_traversal(f.roots);
	node x;
	x.value = fresh;
	auto r = t.insert(t.end(), x);
	size_t k = 0;
	for(auto i = t.begin(); i != t.end(); ++i){
		if(k == N){
			CLAIM(i == r);
			CLAIM(i->value == fresh);
			CLAIM(i.depth() == 1);
		}else CLAIM(&*i == &f.nodes[k]);
		++k;
	}
	CLAIM(k == N + 1);
	CLAIM(r->value == fresh);
}
#define ONE(n, a, b, c, d, i) \
	PROBE(lookup_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) lookup<n, d4(a, b, c, d), i>(); } \
	PROBE(levels_##n##_##a##b##c##d##_##i)(size_t l){ if constexpr(i < n) levels_out<n, d4(a, b, c, d), i>(l); } \
	PROBE(invalid_##n##_##a##b##c##d##_##i)(size_t s, size_t u, bool m){ if constexpr(i <= n) invalid<n, d4(a, b, c, d), i>(s, u, m); } \
	PROBE(steps_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) steps<n, d4(a, b, c, d), i>(); } \
	PROBE(compare_##n##_##a##b##c##d##_##i)(){ if constexpr(i <= n) compares<n, d4(a, b, c, d), i>(); } \
	PROBE(erase_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) erase<n, d4(a, b, c, d), i>(); } \
	PROBE(insert_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) insert<n, d4(a, b, c, d), i, false, false>(); } \
	PROBE(insert_copy_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) insert<n, d4(a, b, c, d), i, false, true>(); } \
	PROBE(insert_after_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) insert<n, d4(a, b, c, d), i, true, false>(); } \
	PROBE(insert_after_copy_##n##_##a##b##c##d##_##i)(){ if constexpr(i < n) insert<n, d4(a, b, c, d), i, true, true>(); }
#define ALL(n, a, b, c, d) \
	PROBE(append_##n##_##a##b##c##d)(){ append<n, d4(a, b, c, d)>(); } \
	ONE(n, a, b, c, d, 0) ONE(n, a, b, c, d, 1) ONE(n, a, b, c, d, 2) ONE(n, a, b, c, d, 3)
PROBE(empty_index)(){
	forest<2, d4(0, 1)> f;
	auto t = utki::make_traversal(f.roots);
	path_type p;
	CLAIM(!t.is_valid(p));
	CLAIM(!t.is_valid(std::initializer_list<size_t>{}));
	REACH("is_valid");
}
PROBE(lists_of_steps)(){
	forest<4, d4(0, 0, 1, 1)> f;
	auto t = utki::make_traversal(f.roots);
	const auto& ct = t;
	CLAIM(t.is_valid({1, 1}));
	CLAIM(!t.is_valid({1, 2}));
	CLAIM(!t.is_valid({0, 0}));
	CLAIM(!t.is_valid({2}));
	CLAIM(&*t.make_iterator({1, 0}) == &f.nodes[2]);
	CLAIM(&*ct.make_const_iterator({1, 1}) == &f.nodes[3]);
	CLAIM(&t[{1, 0}] == &f.nodes[2]);
	CLAIM(&ct[{1, 1}] == &f.nodes[3]);
}
FORESTS(ALL)
