#include <list>
#include <string>
#include <type_traits>
#include <vector>
#include <utki/tree.hpp>
using tree = utki::tree<int>;
using vec = tree::container_type;
using trav = utki::traversal<vec>;
using ctrav = utki::traversal<const vec>;
template <class T> T&& dv() noexcept;
// @ok traversal of a constant collection gives constant nodes
static_assert(std::is_same_v<decltype(*dv<ctrav&>().begin()), const tree&>);
static_assert(std::is_same_v<decltype(*dv<const ctrav&>().cbegin()), const tree&>);
static_assert(std::is_same_v<decltype(dv<ctrav&>().begin().operator->()), const tree*>);
static_assert(std::is_same_v<decltype(dv<const ctrav&>()[dv<const std::vector<size_t>&>()]), const tree&>);
// @ok traversal of a mutable collection gives mutable nodes through iterator and constant ones through const_iterator
static_assert(std::is_same_v<decltype(*dv<trav&>().begin()), tree&>);
static_assert(std::is_same_v<decltype(*dv<const trav&>().cbegin()), const tree&>);
static_assert(std::is_same_v<decltype(dv<trav&>().begin().operator->()), tree*>);
static_assert(std::is_same_v<decltype(dv<trav::const_iterator&>().operator->()), const tree*>);
static_assert(std::is_same_v<decltype(dv<trav::const_iterator&>().at_level(0)), const tree&>);
static_assert(std::is_same_v<decltype(dv<trav::iterator&>().at_level(0)), tree&>);
static_assert(std::is_same_v<decltype(dv<trav&>()[dv<const std::vector<size_t>&>()]), tree&>);
static_assert(std::is_same_v<decltype(dv<const trav&>()[dv<const std::vector<size_t>&>()]), const tree&>);
// @ok the iterators are bidirectional iterators
static_assert(std::is_same_v<std::iterator_traits<trav::iterator>::iterator_category, std::bidirectional_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<trav::const_iterator>::iterator_category, std::bidirectional_iterator_tag>);
static_assert(std::is_same_v<std::iterator_traits<trav::iterator>::reference, tree&>);
static_assert(std::is_same_v<std::iterator_traits<trav::const_iterator>::reference, const tree&>);
// @ok all the ways to give an index
void f(trav& t, const trav& ct, utki::span<const size_t> s, const std::vector<size_t>& v){
	t.make_iterator(s); t.make_iterator(v); t.make_iterator({0, 1});
	ct.make_const_iterator(s); ct.make_const_iterator(v); ct.make_const_iterator({0, 1});
	ct.is_valid(s); ct.is_valid(v); ct.is_valid({0, 1});
	t[s].value = 1; t[v].value = 1; t[{0, 1}].value = 1;
	int x = ct[s].value + ct[v].value + ct[{0, 1}].value;
	(void)x;
}
void g(ctrav& t, const ctrav& ct, utki::span<const size_t> s, const std::vector<size_t>& v){
	t.make_iterator(s); t.make_iterator(v); ct.make_const_iterator(s); ct.is_valid(s);
	int x = ct[s].value + ct[v].value;
	(void)x;
}
// @ok changes of a mutable collection
void f(trav& t, trav::iterator i, const tree& x){
	t.insert(i, x); t.insert(i, tree(1)); t.insert_after(i, x); t.insert_after(i, tree(1)); t.erase(i);
}
// @ok all the ways to walk
int f(vec& v, const vec& cv){
	auto t = utki::make_traversal(v);
	auto ct = utki::make_traversal(cv);
	int s = 0;
	for(auto& n : t) s += n.value;
	for(auto& n : ct) s += n.value;
	for(auto i = t.rbegin(); i != t.rend(); ++i) s += i->value;
	for(auto i = ct.crbegin(); i != ct.crend(); ++i) s += i->value;
	return s;
}
// @ok a tree of strings
#include <vector>
using st = utki::tree<std::string>;
static const st x(std::string("r"), {st(std::string("a")), st(std::string("b"), {st(std::string("c"))})});
static bool b = x == x && x == std::string("r");
// @ok std::list as container
using lt = utki::tree<int, std::list>;
int f(lt::container_type& c){ int s = 0; for(auto& n : utki::make_traversal(c)) s += n.value; return s; }
// @reject a node of a constant collection is changed
void f(ctrav& t){ (*t.begin()).value = 1; }
// @reject a node is changed through a const_iterator
void f(trav& t){ (*t.cbegin()).value = 1; }
// @reject a node is changed through a const_iterator, at_level
void f(trav& t){ t.cbegin().at_level(0).value = 1; }
// @reject a node is changed through operator[] of a constant traversal
void f(const trav& t, const std::vector<size_t>& v){ t[v].value = 1; }
// @reject something is inserted into a constant collection
void f(ctrav& t, const tree& x){ t.insert(t.begin(), x); }
// @reject something is erased from a constant collection
void f(ctrav& t){ t.erase(t.begin()); }
// @reject a const_iterator becomes an iterator
trav::iterator f(trav::const_iterator i){ return i; }
// @reject collection whose elements have other children
struct odd{ std::list<int> children; };
void f(std::vector<odd>& v){ utki::make_traversal(v); }
