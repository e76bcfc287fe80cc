// tree: construction and comparison, over a container that only tells what it was made from
#include "sa.hpp"
#include <utility>
#include <utki/tree.hpp>
extern "C" bool sa_equal(uint64_t a, uint64_t b) noexcept;
struct value{
	uint32_t v = 5;
	bool moved = false;
	value() = default;
	value(uint32_t v) : v(v) {}
	value(const value&) = default;
	value& operator=(const value&) = default;
	value(value&& o) noexcept : v(o.v) { o.moved = true; }
	value& operator=(value&& o) noexcept { v = o.v; o.moved = true; return *this; }
	friend bool operator==(const value& a, const value& b) noexcept { return a.v == b.v; }
	friend bool operator==(const value& a, uint64_t b) noexcept { return uint64_t(a.v) + 1 == b; }
};
bool equal_result;
template <class T, class A> struct kids{
	uint64_t tag = 0;
	bool moved = false;
	const void* from = nullptr;
	size_t count = 0;
	kids() = default;
	kids(const kids&) = default;
	kids& operator=(const kids&) = default;
	kids(kids&& o) noexcept : tag(o.tag), from(o.from), count(o.count) { o.moved = true; o.tag = 0; o.count = 0; }
	kids& operator=(kids&& o) noexcept { tag = o.tag; from = o.from; count = o.count; o.moved = true; o.tag = 0; return *this; }
	kids(std::initializer_list<T> l) : tag(99), from(l.begin()), count(l.size()) {}
	template <class I> kids(I b, I e) : tag(99), from(&*b), count(size_t(e - b)) {}
	friend bool operator==(const kids& a, const kids& b) noexcept {
		return a.tag == b.tag ? equal_result : false; // any relation that holds for containers with equal contents only
	}
	friend bool operator!=(const kids& a, const kids& b) noexcept { return !(a == b); }
};
template <class T> struct alloc {};
using tree = utki::tree<value, kids, alloc>;
using box = tree::container_type;
PROBE(from_value)(uint32_t x){
	tree t((value(x)));
	CLAIM(t.value.v == x);
	CLAIM(t.children.tag == 0);
	CLAIM(t.children.count == 0);
	tree d;
	CLAIM(d.value.v == 5);
	CLAIM(d.children.count == 0);
}
PROBE(from_children)(uint64_t g, size_t n){
	box b;
	b.tag = g;
	b.count = n;
	tree t(b);
	CLAIM(t.value.v == 5);
	CLAIM(t.children.tag == g);
	CLAIM(t.children.count == n);
	CLAIM(b.tag == g);
	tree m(std::move(b));
	CLAIM(m.children.tag == g);
	CLAIM(m.children.count == n);
}
PROBE(from_value_and_children)(uint32_t x, uint64_t g, size_t n){
	box b;
	b.tag = g;
	b.count = n;
	tree t(value(x), b);
	CLAIM(t.value.v == x);
	CLAIM(t.children.tag == g);
	CLAIM(t.children.count == n);
	tree m(value(x), std::move(b));
	CLAIM(m.value.v == x);
	CLAIM(m.children.tag == g);
	CLAIM(m.children.count == n);
}
PROBE(from_list)(uint32_t x, uint32_t y){
	std::initializer_list<tree> l{tree(value(y)), tree(value(y))};
	tree t(l);
	CLAIM(t.value.v == 5);
	CLAIM(t.children.count == 2);
	tree u(value(x), l);
	CLAIM(u.value.v == x);
	CLAIM(u.children.count == 2);
}
PROBE(copy)(uint32_t x, uint64_t g, size_t n){
	box b;
	b.tag = g;
	b.count = n;
	tree t(value(x), b);
	tree c(t);
	CLAIM(c.value.v == x);
	CLAIM(c.children.tag == g);
	CLAIM(t.value.v == x);
	CLAIM(t.children.tag == g);
	tree a;
	a = t;
	CLAIM(a.value.v == x);
	CLAIM(a.children.tag == g);
	CLAIM(t.children.tag == g);
	tree m(std::move(t));
	CLAIM(m.value.v == x);
	CLAIM(m.children.tag == g);
	CLAIM(m.children.count == n);
	tree q;
	q = std::move(m);
	CLAIM(q.value.v == x);
	CLAIM(q.children.tag == g);
}
PROBE(equality)(uint32_t x, uint32_t y, uint64_t g, uint64_t h, bool eq){
	equal_result = eq;
	box b, c;
	b.tag = g;
	c.tag = h;
	const tree s(value(x), b), t(value(y), c);
	CLAIM((s == t) == (x == y && (b == c)));
}
PROBE(equality_with_value)(uint32_t x, uint64_t g, uint32_t y, uint64_t z){
	box b;
	b.tag = g;
	const tree s(value(x), b);
	CLAIM((s == value(y)) == (x == y));
	CLAIM((s == z) == (uint64_t(x) + 1 == z));
}
