// linq: what comes out of select, where, order_by and group_by, and what becomes of the collection it was given
#include "sa.hpp"
#include <vector>
#include <utki/linq.hpp>
#define SA_INLINE __attribute__((always_inline)) inline
struct item {
	int v;
	int n; // where it was
	bool moved = false;
	SA_INLINE item(int v, int n) : v(v), n(n) {}
	SA_INLINE item(const item& i) : v(i.v), n(i.n), moved(i.moved) {}
	SA_INLINE item(item&& i) : v(i.v), n(i.n), moved(i.moved) { i.moved = true; i.v = 77; }
	SA_INLINE item& operator=(const item& i){ v = i.v; n = i.n; moved = i.moved; return *this; }
	SA_INLINE item& operator=(item&& i){ v = i.v; n = i.n; moved = i.moved; i.moved = true; i.v = 77; return *this; }
};
using items = std::vector<item>;
template <size_t N> struct input {
	int v[N + 1];
	items c;
	SA_INLINE input(){
		for(size_t i = 0; i != N; ++i){
			v[i] = int(sa_any_u32());
			c.push_back(item(v[i], int(i)));
		}
	}
	// the collection is as it was
	SA_INLINE void same(){
		CLAIM(c.size() == N);
		for(size_t i = 0; i != N; ++i){
			CLAIM(c[i].v == v[i] && c[i].n == int(i));
			CLAIM(!c[i].moved);
		}
	}
};
struct pair_of { int a, b; };
template <size_t N, bool lvalue> SA_INLINE void select_one(){
	input<N> in;
	size_t calls = 0;
	auto f = [&](const item& i){ CLAIM(!i.moved); ++calls; return pair_of{i.v, i.n}; };
	std::vector<pair_of> r = lvalue ? utki::linq(in.c).select(f).get() : utki::linq(std::move(in.c)).select(f).get();
	CLAIM(calls == N);
	CLAIM(r.size() == N);
	for(size_t i = 0; i != N; ++i) CLAIM(r[i].a == in.v[i] && r[i].b == int(i));
	if(lvalue) in.same();
}
template <size_t N, bool lvalue> SA_INLINE void select_two(){
	input<N> in;
	auto f = [&](const item& i, size_t k){ CLAIM(i.n == int(k)); return pair_of{i.v, int(k)}; };
	std::vector<pair_of> r = lvalue ? utki::linq(in.c).select(f).get() : utki::linq(std::move(in.c)).select(f).get();
	CLAIM(r.size() == N);
	for(size_t i = 0; i != N; ++i) CLAIM(r[i].a == in.v[i] && r[i].b == int(i));
	if(lvalue) in.same();
}
#define SELECT(n) \
	PROBE(select_one_of_##n)(){ select_one<n, true>(); } PROBE(select_one_from_##n)(){ select_one<n, false>(); } \
	PROBE(select_two_of_##n)(){ select_two<n, true>(); } PROBE(select_two_from_##n)(){ select_two<n, false>(); }
SELECT(0) SELECT(1) SELECT(3)
template <size_t N, bool lvalue> SA_INLINE void where(){
	input<N> in;
	auto f = [](const item& i){ CLAIM(!i.moved); return i.v > 0; };
	items r = lvalue ? utki::linq(in.c).where(f).get() : utki::linq(std::move(in.c)).where(f).get();
	size_t k = 0;
	for(size_t i = 0; i != N; ++i)
		if(in.v[i] > 0){
			CLAIM(k < r.size());
			if(k >= r.size()) return;
			CLAIM(r[k].v == in.v[i] && r[k].n == int(i));
			CLAIM(!r[k].moved);
			++k;
		}
	CLAIM(r.size() == k);
	if(lvalue) in.same();
}
#define WHERE(n) PROBE(where_of_##n)(){ where<n, true>(); } PROBE(where_from_##n)(){ where<n, false>(); }
WHERE(0) WHERE(1) WHERE(2) WHERE(3)
// a predicate may take its element by value
template <size_t N, bool lvalue> SA_INLINE void where_by_value(){
	input<N> in;
	auto f = [](item i){ CLAIM(!i.moved); return i.v > 0; };
	items r = lvalue ? utki::linq(in.c).where(f).get() : utki::linq(std::move(in.c)).where(f).get();
	size_t k = 0;
	for(size_t i = 0; i != N; ++i)
		if(in.v[i] > 0){
			CLAIM(k < r.size());
			if(k >= r.size()) return;
			CLAIM(r[k].v == in.v[i] && r[k].n == int(i));
			CLAIM(!r[k].moved);
			++k;
		}
	CLAIM(r.size() == k);
	if(lvalue) in.same();
}
PROBE(where_by_value_of)(){ where_by_value<2, true>(); }
PROBE(where_by_value_from)(){ where_by_value<2, false>(); }
template <size_t N, bool lvalue> SA_INLINE void order(){
	input<N> in;
	auto f = [](const item& i) -> const int& { return i.v; };
	items r = lvalue ? utki::linq(in.c).order_by(f).get() : utki::linq(std::move(in.c)).order_by(f).get();
	CLAIM(r.size() == N);
	if(r.size() != N) return;
	for(size_t i = 0; i != N; ++i){
		CLAIM(!r[i].moved);
		if(i) CLAIM(r[i - 1].v <= r[i].v);
	}
	// each element is there once
	for(size_t i = 0; i != N; ++i){
		size_t there = 0;
		for(size_t k = 0; k != N; ++k) if(r[k].n == int(i)){ ++there; CLAIM(r[k].v == in.v[i]); }
		CLAIM(there == 1);
	}
	if(lvalue) in.same();
}
#define ORDER(n) PROBE(order_by_of_##n)(){ order<n, true>(); } PROBE(order_by_from_##n)(){ order<n, false>(); }
ORDER(0) ORDER(1) ORDER(2) ORDER(3)
template <size_t N, bool lvalue> SA_INLINE void group(){
	input<N> in;
	auto f = [](const item& i){ CLAIM(!i.moved); return i.v; };
	std::map<int, items> r = lvalue ? utki::linq(in.c).group_by(f).get() : utki::linq(std::move(in.c)).group_by(f).get();
	// as many groups as there are keys
	size_t keys = 0;
	for(size_t i = 0; i != N; ++i){
		bool seen = false;
		for(size_t k = 0; k != i; ++k) if(in.v[k] == in.v[i]) seen = true;
		if(!seen) ++keys;
	}
	CLAIM(r.size() == keys);
	for(size_t i = 0; i != N; ++i){
		auto g = r.find(in.v[i]);
		CLAIM(g != r.end());
		if(g == r.end()) return;
		// the members of the group are those with this key, in order
		size_t k = 0;
		for(size_t j = 0; j != N; ++j)
			if(in.v[j] == in.v[i]){
				CLAIM(k < g->second.size());
				if(k >= g->second.size()) return;
				CLAIM(g->second[k].v == in.v[j] && g->second[k].n == int(j));
				CLAIM(!g->second[k].moved);
				++k;
			}
		CLAIM(g->second.size() == k);
	}
	if(lvalue) in.same();
}
#define GROUP(n) PROBE(group_by_of_##n)(){ group<n, true>(); } PROBE(group_by_from_##n)(){ group<n, false>(); }
GROUP(0) GROUP(1) GROUP(2)
// the steps of a chain go one after another
PROBE(chain)(){
	input<2> in;
	auto r = utki::linq(in.c)
		.where([](const item& i){ return i.v != 0; })
		.select([](const item& i){ CLAIM(i.v != 0); return pair_of{i.v, i.n}; })
		.where([](const pair_of& p){ return p.b == 1; })
		.get();
	CLAIM(r.size() == (in.v[1] != 0 ? 1 : 0));
	if(r.size() == 1) CLAIM(r[0].a == in.v[1] && r[0].b == 1);
	in.same();
}
