// scope_exit: the action runs exactly once, when the scope is left, unless it was released.
#include "sa.hpp"
#include <functional>
#include <utility>
#include <utki/utility.hpp>

PROBE(runs_once)(){
	int n = 0;
	{
		utki::scope_exit s([&](){ ++n; });
		CLAIM(n == 0);
	}
	CLAIM(n == 1);
}
PROBE(left_by_exception)(){
	int n = 0;
	bool caught = false;
	try{
		utki::scope_exit s([&](){ ++n; });
		throw sa_user_exc();
	}catch(sa_user_exc&){
		caught = true;
		CLAIM(n == 1); // before the handler
	}
	CLAIM(caught);
	CLAIM(n == 1);
}
PROBE(left_either_way)(){
	int n = 0;
	try{
		utki::scope_exit s([&](){ ++n; });
		if(sa_any_bool()) throw sa_user_exc();
		CLAIM(n == 0);
		REACH("left normally");
	}catch(sa_user_exc&){
		REACH("left by an exception");
		CLAIM(n == 1);
	}
	CLAIM(n == 1);
}
// the action may throw anything: nothing leaves the destructor
PROBE(action_throws)(){
	int n = 0;
	{
		utki::scope_exit s([&](){ ++n; if(sa_any_bool()) throw sa_user_exc(); if(sa_any_bool()) throw 13; throw std::runtime_error("x"); });
	}
	CLAIM(n == 1);
}
PROBE(action_throws_while_unwinding)(){
	int n = 0;
	bool right = false;
	try{
		utki::scope_exit s([&](){ ++n; throw 13; });
		throw sa_user_exc();
	}catch(sa_user_exc&){
		right = true;
	}
	CLAIM(right);
	CLAIM(n == 1);
}
PROBE(user_action)(){
	{
		utki::scope_exit s([](){ sa_user_call(); });
	}
	REACH("behind the scope");
}
PROBE(released)(){
	int n = 0;
	{
		std::function<void()> f;
		{
			utki::scope_exit s([&](){ ++n; });
			f = s.release();
			CLAIM(n == 0);
			CLAIM(bool(f));
		}
		CLAIM(n == 0);
		f();
		CLAIM(n == 1);
	}
	CLAIM(n == 1);
}
PROBE(released_twice)(){
	int n = 0;
	{
		utki::scope_exit s([&](){ ++n; });
		{
			auto f = s.release();
			auto g = s.release();
			CLAIM(bool(f));
			CLAIM(!g);
		}
		CLAIM(n == 0);
	}
	CLAIM(n == 0);
}
PROBE(reset)(){
	int n = 0;
	{
		utki::scope_exit s([&](){ ++n; });
		auto f = s.reset();
		CLAIM(bool(f));
		CLAIM(n == 0);
		f();
	}
	CLAIM(n == 1);
}
PROBE(maybe_released)(){
	int n = 0;
	bool r = false;
	{
		utki::scope_exit s([&](){ ++n; });
		if(sa_any_bool()){ s.release(); r = true; }
	}
	CLAIM(n == (r ? 0 : 1));
}
PROBE(no_action)(){
	{
		utki::scope_exit s((std::function<void()>()));
		CLAIM(!s.release());
	}
	{ utki::scope_exit s(nullptr); }
	REACH("an empty action does nothing");
}
// the action's own data lives exactly as long as it is needed
struct data{
	int *made, *gone, *ran;
	data(int* m, int* g, int* r) : made(m), gone(g), ran(r) { ++*made; }
	data(const data& d) : made(d.made), gone(d.gone), ran(d.ran) { ++*made; }
	~data(){ ++*gone; }
	void operator()() const{ ++*ran; }
};
PROBE(owns_action)(){
	int made = 0, gone = 0, ran = 0;
	{
		utki::scope_exit s{std::function<void()>(data(&made, &gone, &ran))};
		CLAIM(made == gone + 1);
		CLAIM(ran == 0);
	}
	CLAIM(made == gone);
	CLAIM(ran == 1);
}
PROBE(released_action_owned_by_result)(){
	int made = 0, gone = 0, ran = 0;
	{
		utki::scope_exit s{std::function<void()>(data(&made, &gone, &ran))};
		{
			auto f = s.release();
			CLAIM(made == gone + 1);
		}
		CLAIM(made == gone);
	}
	CLAIM(made == gone);
	CLAIM(ran == 0);
}
PROBE(reverse_order)(){
	int n = 0, first = 0, second = 0;
	{
		utki::scope_exit a([&](){ first = ++n; });
		utki::scope_exit b([&](){ second = ++n; });
	}
	CLAIM(second == 1);
	CLAIM(first == 2);
}
