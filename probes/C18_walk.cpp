// traversal: every node exactly once in pre-order, and the way back
#include <vector>
#include "sa.hpp"
#include <stdexcept>
#include "C18_forest.hpp"
#include <utki/tree.hpp>
template <size_t N, unsigned D, bool C> SA_INLINE void forward(){
	forest<N, D> f;
	std::conditional_t<C, const coll, coll>& roots = f.roots;
	auto t = utki::make_traversal(roots);
	size_t k = 0;
	for(auto i = t.begin(); i != t.end(); ++i){
		CLAIM(k < N);
		CLAIM(&*i == &f.nodes[k]);
		CLAIM(&i->value == &f.nodes[k].value);
		CLAIM(i.depth() == f.depth(k) + 1);
		CLAIM(i.is_last_child() == f.last(k));
		++k;
	}
	CLAIM(k == N);
	CLAIM(!t.end().is_last_child());
}
template <size_t N, unsigned D> SA_INLINE void const_forward(){
	forest<N, D> f;
	const auto t = utki::make_traversal(f.roots);
	size_t k = 0;
	for(auto i = t.cbegin(); i != t.cend(); ++i){
		CLAIM(k < N);
		CLAIM(&*i == &f.nodes[k]);
		++k;
	}
	CLAIM(k == N);
}
template <size_t N, unsigned D> SA_INLINE void backward(){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	size_t k = N;
	for(auto i = t.end(); i != t.begin();){
		--i;
		CLAIM(k > 0);
		--k;
		CLAIM(&*i == &f.nodes[k]);
		CLAIM(i.depth() == f.depth(k) + 1);
	}
	CLAIM(k == 0);
}
template <size_t N, unsigned D> SA_INLINE void reverse(){
	forest<N, D> f;
	auto t = utki::make_traversal(f.roots);
	size_t k = N;
	for(auto i = t.rbegin(); i != t.rend(); ++i){
		CLAIM(k > 0);
		--k;
		CLAIM(&*i == &f.nodes[k]);
	}
	CLAIM(k == 0);
}
template <size_t N, unsigned D> SA_INLINE void const_reverse(){
	forest<N, D> f;
	const auto t = utki::make_traversal(f.roots);
	size_t k = N;
	for(auto i = t.crbegin(); i != t.crend(); ++i){
		CLAIM(k > 0);
		--k;
		CLAIM(&*i == &f.nodes[k]);
	}
	CLAIM(k == 0);
}
#define W(n, a, b, c, d) \
	PROBE(forward_##n##_##a##b##c##d)(){ forward<n, d4(a, b, c, d), false>(); } \
	PROBE(forward_const_##n##_##a##b##c##d)(){ forward<n, d4(a, b, c, d), true>(); } \
	PROBE(const_forward_##n##_##a##b##c##d)(){ const_forward<n, d4(a, b, c, d)>(); } \
	PROBE(backward_##n##_##a##b##c##d)(){ backward<n, d4(a, b, c, d)>(); } \
	PROBE(reverse_##n##_##a##b##c##d)(){ reverse<n, d4(a, b, c, d)>(); } \
	PROBE(const_reverse_##n##_##a##b##c##d)(){ const_reverse<n, d4(a, b, c, d)>(); }
FORESTS(W)
