#include "sa.hpp"
#include <utility>
#include <utki/flags.hpp>

namespace{
// one flag; fewer than a byte; a byte; exactly one machine word; more than one word
enum class one{ a, enum_size };
enum class five{ a, b, c, d, e, enum_size };
enum class eight{ a, enum_size = 8 };
enum class word{ a, enum_size = 64 };
enum class many{ a, enum_size = 71 };

template <typename E> constexpr size_t count = size_t(E::enum_size);
template <size_t... i> struct list{};

// the indices claims are made about: all of them for small enumerations, word boundaries and ends for large ones
template <typename E> auto indices(){
	if constexpr(count<E> == 1) return list<0>{};
	else if constexpr(count<E> == 5) return list<0, 1, 2, 3, 4>{};
	else if constexpr(count<E> == 8) return list<0, 3, 7>{};
	else if constexpr(count<E> == 64) return list<0, 31, 32, 63>{};
	else return list<0, 63, 64, 70>{};
}
template <typename F, size_t... i> void each(list<i...>, F f){ (f(std::integral_constant<size_t, i>{}), ...); }

// arbitrary set of flags: the flags claims are made about are arbitrary, each of the others is `rest`
template <typename E> utki::flags<E> any(bool (&b)[count<E>], bool rest){
	utki::flags<E> f(rest);
	for(size_t i = 0; i != count<E>; ++i) b[i] = rest;
	each(indices<E>(), [&](auto i){ bool v = sa_any_bool(); b[i] = v; f.set(E(size_t(i)), v); });
	return f;
}
template <typename E> struct both{ bool a[count<E>]; bool b[count<E>]; utki::flags<E> fa; utki::flags<E> fb;
	both(bool ra, bool rb) : fa(any<E>(a, ra)), fb(any<E>(b, rb)){} };
template <typename E> bool has(const utki::flags<E>& f, size_t i){ return f.get(E(i)); }

template <typename E> void access(){
	for(bool rest : {false, true}){
		bool b[count<E>];
		const auto f = any<E>(b, rest);
		CLAIM(f.size() == count<E>);
		each(indices<E>(), [&](auto i){
			CLAIM(f.get(E(size_t(i))) == b[i]);
			CLAIM(f[E(size_t(i))] == b[i]);
		});
	}
}
template <typename E> void modify(){
	each(indices<E>(), [&](auto i){
		bool b[count<E>];
		const auto f = any<E>(b, false);
		bool v = sa_any_bool();
		auto s = f; auto s1 = f; auto c = f; auto x = f;
		CLAIM(&s.set(E(size_t(i)), v) == &s);
		CLAIM(&s1.set(E(size_t(i))) == &s1);
		CLAIM(&c.clear(E(size_t(i))) == &c);
		x[E(size_t(i))] = v;
		each(indices<E>(), [&](auto j){
			CLAIM(has(s, j) == (i == j ? v : b[j]));
			CLAIM(has(s1, j) == (i == j ? true : b[j]));
			CLAIM(has(c, j) == (i == j ? false : b[j]));
			CLAIM(has(x, j) == (i == j ? v : b[j]));
			CLAIM(has(f, j) == b[j]);
			CLAIM(has(f | E(size_t(i)), j) == (i == j ? true : b[j]));
		});
	});
}
template <typename E> void whole(){
	for(bool rest : {false, true}){
		bool b[count<E>];
		const auto f = any<E>(b, rest);
		bool v = sa_any_bool();
		auto s = f; auto s1 = f; auto c = f; auto n = f; utki::flags<E> init(v); utki::flags<E> def;
		CLAIM(&s.set(v) == &s);
		CLAIM(&s1.set() == &s1);
		CLAIM(&c.clear() == &c);
		CLAIM(&n.invert() == &n);
		each(indices<E>(), [&](auto j){
			CLAIM(has(s, j) == v);
			CLAIM(has(s1, j));
			CLAIM(!has(c, j));
			CLAIM(has(n, j) == !b[j]);
			CLAIM(has(~f, j) == !b[j]);
			CLAIM(has(init, j) == v);
			CLAIM(!has(def, j));
		});
	}
}
template <typename E> void algebra(){
	for(bool ra : {false, true}) for(bool rb : {false, true}){
		const both<E> t(ra, rb);
		auto ia = t.fa, io = t.fa, ix = t.fa;
		CLAIM(&(ia &= t.fb) == &ia);
		CLAIM(&(io |= t.fb) == &io);
		CLAIM(&(ix ^= t.fb) == &ix);
		each(indices<E>(), [&](auto j){
			CLAIM(has(t.fa & t.fb, j) == (t.a[j] && t.b[j]));
			CLAIM(has(t.fa | t.fb, j) == (t.a[j] || t.b[j]));
			CLAIM(has(t.fa ^ t.fb, j) == (t.a[j] != t.b[j]));
			CLAIM(has(ia, j) == (t.a[j] && t.b[j]));
			CLAIM(has(io, j) == (t.a[j] || t.b[j]));
			CLAIM(has(ix, j) == (t.a[j] != t.b[j]));
			CLAIM(has(t.fa, j) == t.a[j]);
			CLAIM(has(t.fb, j) == t.b[j]);
		});
	}
}
// every one of the flags counts for the predicates: all equal to `rest` except flag i, which is arbitrary
template <typename E, size_t from = 0, size_t... i> void summary(std::index_sequence<i...>){
	auto at = [](auto k){
		for(bool rest : {false, true}){
			bool v = sa_any_bool();
			utki::flags<E> f(rest), g(rest);
			f.set(E(size_t(k)), v);
			bool single = count<E> == 1;
			CLAIM(f.is_clear() == (!v && (single || !rest)));
			CLAIM(f.is_set() == (v && (single || rest)));
			CLAIM((f == g) == (v == rest));
			CLAIM((f != g) == (v != rest));
			CLAIM((g == f) == (v == rest));
			CLAIM((~f).is_clear() == (v && (single || rest)));
			CLAIM((~f).is_set() == (!v && (single || !rest)));
			auto n = f; n.invert();
			CLAIM(n.is_clear() == (v && (single || rest)));
			CLAIM((f ^ f).is_clear());
			CLAIM((f | ~f).is_set());
			CLAIM((f & ~f).is_clear());
		}
	};
	(at(std::integral_constant<size_t, from + i>{}), ...);
	// complete sets
	utki::flags<E> none, all(true);
	CLAIM(none.is_clear());
	CLAIM(!none.is_set());
	CLAIM(all.is_set());
	CLAIM(!all.is_clear());
	CLAIM(~none == all);
	CLAIM(~all == none);
	none.set(); all.clear();
	CLAIM(none.is_set() && all.is_clear());
}
// combined values which differ in any of the flags are told apart
template <typename E> void equality(){
	const both<E> t(true, true);
	bool same = true;
	each(indices<E>(), [&](auto j){ same = same & (t.a[j] == t.b[j]); });
	CLAIM((t.fa == t.fb) == same);
	CLAIM((t.fa != t.fb) == !same);
}
template <typename E> void lists(){
	each(indices<E>(), [&](auto i){ each(indices<E>(), [&](auto j){
		E a = E(size_t(i)), b = E(size_t(j));
		utki::flags<E> f{a, b};
		utki::flags<E> s(a);
		auto m = utki::make_flags({a, b});
		auto o = a | b;
		each(indices<E>(), [&](auto k){
			bool in = k == i || k == j;
			CLAIM(has(f, k) == in);
			CLAIM(has(m, k) == in);
			CLAIM(has(o, k) == in);
			CLAIM(has(s, k) == (k == i));
		});
	}); });
	utki::flags<E> empty(std::initializer_list<E>{});
	CLAIM(empty.is_clear());
}
}
#define ALL(f) \
	PROBE(f##_one)(){ f<one>(); } PROBE(f##_five)(){ f<five>(); } PROBE(f##_eight)(){ f<eight>(); } \
	PROBE(f##_word)(){ f<word>(); } PROBE(f##_many)(){ f<many>(); }
ALL(access) ALL(modify) ALL(whole) ALL(algebra) ALL(equality) ALL(lists)
PROBE(summary_one)(){ summary<one>(std::make_index_sequence<1>()); }
PROBE(summary_five)(){ summary<five>(std::make_index_sequence<5>()); }
PROBE(summary_eight)(){ summary<eight>(std::make_index_sequence<8>()); }
PROBE(summary_word)(){ summary<word>(std::make_index_sequence<64>()); }
#define PART(k, n) PROBE(summary_many##k)(){ summary<many, k * 9>(std::make_index_sequence<n>()); }
PART(0, 9) PART(1, 9) PART(2, 9) PART(3, 9) PART(4, 9) PART(5, 9) PART(6, 9) PART(7, 8)
