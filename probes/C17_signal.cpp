// signal: every connected callback is called once per emit, in order of connection, with the emitted arguments.
#include "sa.hpp"
#include <list>
#include <utki/signal.hpp>
// the parts of std::list that live in the shared library
void std::__detail::_List_node_base::_M_hook(std::__detail::_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void std::__detail::_List_node_base::_M_unhook() noexcept { auto n = this->_M_next; auto p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
namespace {
struct journal{
	unsigned n = 0;
	unsigned who[8];
	unsigned arg[8];
	__attribute__((always_inline)) void add(unsigned w, unsigned a){ if(n >= 8) sa_stop(); who[n] = w; arg[n] = a; ++n; }
};
}
PROBE(one)(unsigned x, unsigned y){
	journal j;
	utki::signal<unsigned> s;
	CLAIM(s.size() == 0);
	CLAIM(s.empty());
	s.emit(x);
	CLAIM(j.n == 0);
	auto c = s.connect([&](unsigned a){ j.add(1, a); });
	CLAIM(s.size() == 1);
	CLAIM(!s.empty());
	CLAIM(j.n == 0);
	s.emit(x);
	CLAIM(j.n == 1);
	CLAIM(j.who[0] == 1);
	CLAIM(j.arg[0] == x);
	s.emit(y);
	CLAIM(j.n == 2);
	CLAIM(j.arg[1] == y);
	s.disconnect(c);
	CLAIM(s.empty());
	s.emit(x);
	CLAIM(j.n == 2);
}
// connections a, b, c; then one of them (or none) is taken out; then everything is emitted again
template <int Out> __attribute__((always_inline)) inline void three(unsigned x, unsigned y){
	journal j;
	utki::signal<unsigned> s;
	auto a = s.connect([&](unsigned v){ j.add(1, v); });
	auto b = s.connect([&](unsigned v){ j.add(2, v); });
	auto c = s.connect([&](unsigned v){ j.add(3, v); });
	CLAIM(s.size() == 3);
	s.emit(x);
	CLAIM(j.n == 3);
	CLAIM(j.who[0] == 1 && j.who[1] == 2 && j.who[2] == 3);
	CLAIM(j.arg[0] == x && j.arg[1] == x && j.arg[2] == x);
	j.n = 0;
	if(Out == 1) s.disconnect(a);
	if(Out == 2) s.disconnect(b);
	if(Out == 3) s.disconnect(c);
	CLAIM(s.size() == (Out ? 2 : 3));
	s.emit(y);
	CLAIM(j.n == (Out ? 2 : 3));
	CLAIM(j.who[0] == (Out == 1 ? 2 : 1));
	CLAIM(j.who[1] == (Out == 0 || Out == 3 ? 2 : 3));
	CLAIM(j.arg[0] == y && j.arg[1] == y);
	// the others can still be taken out by their ids, and a new one comes last
	auto d = s.connect([&](unsigned v){ j.add(4, v); });
	if(Out != 1) s.disconnect(a);
	if(Out != 3) s.disconnect(c);
	j.n = 0;
	s.emit(y);
	CLAIM(j.n == (Out == 2 ? 1 : 2));
	CLAIM(j.who[Out == 2 ? 0 : 1] == 4);
	if(Out != 2) CLAIM(j.who[0] == 2);
	if(Out != 2) s.disconnect(b);
	s.disconnect(d);
	CLAIM(s.empty());
	j.n = 0;
	s.emit(y);
	CLAIM(j.n == 0);
}
PROBE(three0)(unsigned x, unsigned y){ three<0>(x, y); }
PROBE(three1)(unsigned x, unsigned y){ three<1>(x, y); }
PROBE(three2)(unsigned x, unsigned y){ three<2>(x, y); }
PROBE(three3)(unsigned x, unsigned y){ three<3>(x, y); }
// what a callback does to an argument it took by value is not seen by the next one; references are passed through
struct value{
	unsigned v;
	bool whole = true;
	explicit value(unsigned v) : v(v) {}
	value(const value& o) : v(o.v), whole(o.whole) {}
	value(value&& o) noexcept : v(o.v), whole(o.whole) { o.whole = false; o.v = 0; }
	value& operator=(const value&) = default;
};
PROBE(by_value)(unsigned x){
	unsigned n = 0;
	utki::signal<value> s;
	auto a = s.connect([&](value v){ ++n; CLAIM(v.whole); CLAIM(v.v == x); v.v = 7; });
	auto b = s.connect([&](value v){ ++n; CLAIM(v.whole); CLAIM(v.v == x); value w(std::move(v)); CLAIM(w.v == x); });
	auto c = s.connect([&](const value& v){ ++n; CLAIM(v.whole); CLAIM(v.v == x); });
	s.emit(value(x));
	CLAIM(n == 3);
	value k(x);
	s.emit(k);
	CLAIM(n == 6);
	CLAIM(k.whole && k.v == x);
	s.disconnect(a);
	s.disconnect(b);
	s.disconnect(c);
}
PROBE(by_reference)(unsigned x){
	utki::signal<unsigned&, const unsigned&> s;
	unsigned y = x;
	auto a = s.connect([&](unsigned& v, const unsigned& c){ CLAIM(&v == &y); CLAIM(&c == &x); v += 1; });
	auto b = s.connect([&](unsigned& v, const unsigned& c){ CLAIM(&v == &y); CLAIM(v == x + 1); v += 1; });
	s.emit(y, x);
	CLAIM(y == x + 2);
	s.disconnect(a);
	s.disconnect(b);
}
struct only_moved{
	unsigned v;
	explicit only_moved(unsigned v) : v(v) {}
	only_moved(only_moved&& o) noexcept : v(o.v) { o.v = 0; }
	only_moved(const only_moved&) = delete;
};
PROBE(move_only)(unsigned x){
	unsigned n = 0;
	utki::signal<only_moved> s;
	auto a = s.connect([&](only_moved v){ ++n; CLAIM(v.v == x); });
	s.emit(only_moved(x));
	CLAIM(n == 1);
	s.disconnect(a);
}
PROBE(no_arguments)(){
	unsigned n = 0;
	utki::signal<> s;
	auto a = s.connect([&]{ CLAIM(n == 0); ++n; });
	auto b = s.connect([&]{ CLAIM(n == 1); ++n; });
	s.emit();
	CLAIM(n == 2);
	s.disconnect(b);
	s.disconnect(a);
	s.emit();
	CLAIM(n == 2);
}
PROBE(several_arguments)(unsigned x, unsigned char y, uint64_t z){
	unsigned n = 0;
	utki::signal<unsigned, unsigned char, uint64_t> s;
	auto a = s.connect([&](unsigned p, unsigned char q, uint64_t r){ ++n; CLAIM(p == x); CLAIM(q == y); CLAIM(r == z); });
	s.emit(x, y, z);
	CLAIM(n == 1);
	s.disconnect(a);
}
// an exception of a callback reaches the emitter and leaves the connections alone
PROBE(throwing)(unsigned x){
	journal j;
	utki::signal<unsigned> s;
	auto a = s.connect([&](unsigned v){ j.add(1, v); if(v == 1) throw sa_user_exc(); });
	auto b = s.connect([&](unsigned v){ j.add(2, v); });
	bool thrown = false;
	try{
		s.emit(1);
	}catch(sa_user_exc&){
		thrown = true;
	}
	CLAIM(thrown);
	CLAIM(j.who[0] == 1);
	CLAIM(s.size() == 2);
	ASSUME(x != 1);
	j.n = 0;
	s.emit(x);
	CLAIM(j.n == 2);
	CLAIM(j.who[0] == 1 && j.who[1] == 2);
	s.disconnect(a);
	s.disconnect(b);
	CLAIM(s.empty());
}
// the callback object lives from connect() to disconnect() and is destroyed once
namespace {
struct counted{
	int& alive;
	explicit counted(int& a) : alive(a) { ++alive; }
	counted(const counted& o) : alive(o.alive) { ++alive; }
	counted(counted&& o) noexcept : alive(o.alive) { ++alive; }
	~counted(){ --alive; }
	void operator()(unsigned) const { CLAIM(alive >= 1); }
};
}
PROBE(lifetime)(unsigned x){
	int alive = 0;
	{
		utki::signal<unsigned> s;
		auto a = s.connect(counted(alive));
		CLAIM(alive == 1);
		s.emit(x);
		CLAIM(alive == 1);
		s.disconnect(a);
		CLAIM(alive == 0);
	}
	CLAIM(alive == 0);
}
// signals do not share connections
PROBE(independent)(unsigned x){
	journal j;
	utki::signal<unsigned> s, t;
	auto a = s.connect([&](unsigned v){ j.add(1, v); });
	auto b = t.connect([&](unsigned v){ j.add(2, v); });
	s.emit(x);
	CLAIM(j.n == 1);
	CLAIM(j.who[0] == 1);
	s.disconnect(a);
	t.emit(x);
	CLAIM(j.n == 2);
	CLAIM(j.who[1] == 2);
	CLAIM(t.size() == 1);
	t.disconnect(b);
}
