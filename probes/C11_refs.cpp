// shared_ref / unique_ref: always an object, shared or sole ownership exactly as of the wrapped smart pointer.
#include "sa.hpp"
#include <memory>
#include <utility>
#include <utki/shared.hpp>
#include <utki/shared_ref.hpp>
#include <utki/unique_ref.hpp>

namespace {
struct obj{
	int v;
	int* gone;
	obj(int v, int* gone) : v(v), gone(gone) {}
	obj(const obj&) = delete;
	virtual ~obj(){ ++*gone; }
};
struct left{ int l = 1; virtual ~left() = default; };
struct derived : public left, public obj{ // obj is not the first base: converting moves the pointer
	derived(int v, int* gone) : obj(v, gone) {}
};
struct other : public obj{ other(int v, int* gone) : obj(v, gone) {} };
struct mv{ // can only be moved
	int x;
	explicit mv(int x) : x(x) {}
	mv(mv&& m) : x(m.x) { m.x = -1; }
	mv(const mv&) = delete;
};
struct taker{ int a; int b; taker(mv m, int& r) : a(m.x), b(++r) {} };
}

PROBE(shared_ref_is_the_object)(){
	int gone = 0;
	{
		auto p = std::make_shared<obj>(7, &gone);
		utki::shared_ref<obj> r(p);
		CLAIM(&r.get() == p.get());
		CLAIM(&static_cast<obj&>(r) == p.get());
		CLAIM(r.to_shared_ptr().get() == p.get());
		CLAIM(p.use_count() == 2);
		p.reset();
		CLAIM(gone == 0);
		CLAIM(r.get().v == 7);
		CLAIM(r.to_shared_ptr().use_count() == 1);
	}
	CLAIM(gone == 1);
}
PROBE(shared_ref_takes_over)(){
	int gone = 0;
	{
		auto p = std::make_shared<obj>(7, &gone);
		obj* raw = p.get();
		utki::shared_ref<obj> r(std::move(p));
		CLAIM(!p);
		CLAIM(&r.get() == raw);
		CLAIM(r.to_shared_ptr().use_count() == 1);
	}
	CLAIM(gone == 1);
}
PROBE(shared_ref_copy)(int a, int b){
	int gone_a = 0, gone_b = 0;
	{
		auto x = utki::make_shared<obj>(a, &gone_a);
		{
			utki::shared_ref<obj> y(x);
			CLAIM(&y.get() == &x.get());
			CLAIM(x.to_shared_ptr().use_count() == 2);
		}
		CLAIM(gone_a == 0);
		CLAIM(x.to_shared_ptr().use_count() == 1);
		auto z = utki::make_shared<obj>(b, &gone_b);
		obj* zo = &z.get();
		CLAIM(zo != &x.get());
		x = z;
		CLAIM(gone_a == 1); // nobody refers to it any more
		CLAIM(gone_b == 0);
		CLAIM(&x.get() == zo);
		CLAIM(x.get().v == b);
		CLAIM(z.to_shared_ptr().use_count() == 2);
	}
	CLAIM(gone_a == 1);
	CLAIM(gone_b == 1);
}
PROBE(shared_ref_move)(int a, int b){
	int gone_a = 0, gone_b = 0;
	{
		auto x = utki::make_shared<obj>(a, &gone_a);
		obj* xo = &x.get();
		utki::shared_ref<obj> y(std::move(x));
		CLAIM(&y.get() == xo);
		CLAIM(y.to_shared_ptr().use_count() == 1);
		auto z = utki::make_shared<obj>(b, &gone_b);
		z = std::move(y);
		CLAIM(gone_b == 1);
		CLAIM(gone_a == 0);
		CLAIM(&z.get() == xo);
	}
	CLAIM(gone_a == 1);
	CLAIM(gone_b == 1);
}
PROBE(shared_ref_to_base)(int a){
	int gone = 0;
	{
		auto d = utki::make_shared<derived>(a, &gone);
		obj* o = static_cast<obj*>(&d.get());
		utki::shared_ref<obj> r(d);
		utki::shared_ref<const derived> c = d;
		CLAIM(&r.get() == o);
		CLAIM(&c.get() == &d.get());
		CLAIM(d.to_shared_ptr().use_count() == 3);
		CLAIM(r.get().v == a);
	}
	CLAIM(gone == 1);
}
PROBE(shared_ref_base_outlives)(int a){
	int gone = 0;
	{
		auto make = [&]() -> utki::shared_ref<obj>{ return utki::make_shared<derived>(a, &gone); };
		utki::shared_ref<obj> r = make();
		CLAIM(gone == 0);
		CLAIM(r.get().v == a);
		CLAIM(r.to_shared_ptr().use_count() == 1);
	}
	CLAIM(gone == 1);
}
PROBE(shared_ref_conversions)(int a){
	int gone = 0;
	{
		auto x = utki::make_shared<obj>(a, &gone);
		const std::shared_ptr<obj>& p = x;
		CLAIM(p.get() == &x.get());
		CLAIM(p.use_count() == 1);
		std::shared_ptr<const obj> pc = x;
		CLAIM(pc.get() == &x.get());
		CLAIM(p.use_count() == 2);
		std::weak_ptr<obj> w = x;
		std::weak_ptr<const obj> wc = x;
		auto w2 = utki::make_weak(x);
		auto w3 = utki::make_weak(x.to_shared_ptr());
		CLAIM(p.use_count() == 2); // weak references do not own
		CLAIM(w.lock().get() == &x.get());
		CLAIM(wc.lock().get() == &x.get());
		CLAIM(w2.lock().get() == &x.get());
		CLAIM(w3.lock().get() == &x.get());
		CLAIM(p.use_count() == 2);
	}
	CLAIM(gone == 1);
}
PROBE(shared_ref_weak_expires)(int a){
	int gone = 0;
	std::weak_ptr<obj> w;
	{
		auto x = utki::make_shared<obj>(a, &gone);
		w = utki::make_weak(x);
		CLAIM(!w.expired());
	}
	CLAIM(gone == 1);
	CLAIM(w.expired());
}
PROBE(make_shared_forwards)(int v){
	int n = 5;
	mv m(v);
	auto r = utki::make_shared<taker>(std::move(m), n);
	CLAIM(r.get().a == v);
	CLAIM(m.x == -1);
	CLAIM(n == 6); // the reference was passed, not a copy
	CLAIM(r.get().b == 6);
}
PROBE(make_unique_forwards)(int v){
	int n = 5;
	mv m(v);
	auto r = utki::make_unique<taker>(std::move(m), n);
	CLAIM(r.get().a == v);
	CLAIM(m.x == -1);
	CLAIM(n == 6);
	CLAIM(r.get().b == 6);
}
// the cast gives the same object or throws std::bad_cast; the source is not touched
PROBE(dynamic_cast_shared)(int a){
	int gone = 0;
	{
		utki::shared_ref<obj> r = utki::make_shared<other>(a, &gone);
		obj* o = &r.get();
		bool ok = false;
		try{
			auto d = utki::dynamic_reference_cast<derived>(r);
			REACH("cast succeeded");
			ok = true;
			CLAIM(&d.get() == d.to_shared_ptr().get());
			CLAIM(d.to_shared_ptr() != nullptr);
			CLAIM(&d.get() == dynamic_cast<derived*>(o));
			CLAIM(r.to_shared_ptr().use_count() == 2);
		}catch(std::bad_cast&){
			REACH("cast failed");
			CLAIM(dynamic_cast<derived*>(o) == nullptr);
		}
		CLAIM(&r.get() == o);
		CLAIM(r.to_shared_ptr().use_count() == 1);
		CLAIM(gone == 0);
	}
	CLAIM(gone == 1);
}
struct cmp{
	int v;
	bool operator<(const cmp& c) const{ return v < c.v; }
	bool operator==(const cmp& c) const{ return v == c.v; }
};
PROBE(shared_ref_compares_objects)(int a, int b){
	auto x = utki::make_shared<cmp>(cmp{a});
	auto y = utki::make_shared<cmp>(cmp{b});
	cmp o{b};
	CLAIM((x < o) == (a < b));
	CLAIM((x == o) == (a == b));
	CLAIM((x == y) == (a == b));
}
PROBE(unique_ref_compares_objects)(int a, int b){
	auto x = utki::make_unique<cmp>(cmp{a});
	auto y = utki::make_unique<cmp>(cmp{b});
	cmp o{b};
	CLAIM((x < o) == (a < b));
	CLAIM((x == o) == (a == b));
	CLAIM((x == y) == (a == b));
}
// it is the comparison of the objects that counts, whatever it says: here an object need not equal itself
struct odd{
	int v;
	bool operator<(const odd& c) const{ return v < c.v + 3; }
	bool operator==(const odd& c) const{ return v + 1 == c.v; }
	bool operator!=(const odd& c) const{ return !(*this == c); }
};
template <typename ref> __attribute__((always_inline)) inline void compares_as(const ref& x, const ref& y, int a, int b){
	odd o{b};
	CLAIM((x < o) == (a < b + 3));
	CLAIM((x == o) == (a + 1 == b));
	CLAIM((x == y) == (a + 1 == b));
	CLAIM((y == x) == (b + 1 == a));
	CLAIM(!(x == x));
}
PROBE(shared_ref_compares_as_the_object)(int a, int b){
	ASSUME(a < 1000000 && a > -1000000 && b < 1000000 && b > -1000000);
	compares_as(utki::make_shared<odd>(odd{a}), utki::make_shared<odd>(odd{b}), a, b);
	// the same object twice
	auto x = utki::make_shared<odd>(odd{a});
	auto y = x;
	CLAIM(!(x == y));
}
PROBE(unique_ref_compares_as_the_object)(int a, int b){
	ASSUME(a < 1000000 && a > -1000000 && b < 1000000 && b > -1000000);
	auto x = utki::make_unique<odd>(odd{a});
	auto y = utki::make_unique<odd>(odd{b});
	compares_as(x, y, a, b);
}

PROBE(unique_ref_is_the_object)(int a){
	int gone = 0;
	{
		auto p = std::make_unique<obj>(a, &gone);
		obj* raw = p.get();
		utki::unique_ref<obj> r(std::move(p));
		CLAIM(!p);
		CLAIM(&r.get() == raw);
		CLAIM(&static_cast<obj&>(r) == raw);
		CLAIM(gone == 0);
	}
	CLAIM(gone == 1);
}
PROBE(unique_ref_move)(int a, int b){
	int gone_a = 0, gone_b = 0;
	{
		auto x = utki::make_unique<obj>(a, &gone_a);
		obj* xo = &x.get();
		utki::unique_ref<obj> y(std::move(x));
		CLAIM(&y.get() == xo);
		auto z = utki::make_unique<obj>(b, &gone_b);
		z = std::move(y);
		CLAIM(gone_b == 1);
		CLAIM(gone_a == 0);
		CLAIM(&z.get() == xo);
		CLAIM(z.get().v == a);
	}
	CLAIM(gone_a == 1);
	CLAIM(gone_b == 1);
}
PROBE(unique_ref_to_base)(int a){
	int gone = 0;
	{
		auto d = utki::make_unique<derived>(a, &gone);
		obj* o = static_cast<obj*>(&d.get());
		utki::unique_ref<obj> r(std::move(d));
		CLAIM(&r.get() == o);
		CLAIM(gone == 0);
		CLAIM(r.get().v == a);
	}
	CLAIM(gone == 1);
}
PROBE(unique_ref_to_unique_ptr)(int a){
	int gone = 0;
	{
		auto d = utki::make_unique<obj>(a, &gone);
		obj* o = &d.get();
		{
			std::unique_ptr<obj> p = std::move(d).to_unique_ptr();
			CLAIM(p.get() == o);
			CLAIM(gone == 0);
		}
		CLAIM(gone == 1);
	}
	CLAIM(gone == 1);
}

namespace {
struct sh : virtual public utki::shared{
	int v; int* gone;
	sh(int v, int* gone) : v(v), gone(gone) {}
	~sh() override{ ++*gone; }
};
struct es : public std::enable_shared_from_this<es>{
	int v; int* gone;
	es(int v, int* gone) : v(v), gone(gone) {}
	~es(){ ++*gone; }
};
}
PROBE(make_shared_from_enable)(int a){
	int gone = 0;
	{
		auto x = utki::make_shared<es>(a, &gone);
		{
			auto y = utki::make_shared_from(x.get());
			CLAIM(&y.get() == &x.get());
			CLAIM(x.to_shared_ptr().use_count() == 2);
			auto w = utki::make_weak_from(x.get());
			CLAIM(w.lock().get() == &x.get());
			CLAIM(x.to_shared_ptr().use_count() == 2);
		}
		CLAIM(x.to_shared_ptr().use_count() == 1);
		CLAIM(gone == 0);
	}
	CLAIM(gone == 1);
}
PROBE(make_shared_from_shared)(int a){
	int gone = 0;
	{
		auto x = utki::make_shared<sh>(a, &gone);
		// what the language says about a cast to the object's own type
		ASSUME(dynamic_cast<sh*>(static_cast<utki::shared*>(&x.get())) == &x.get());
		REACH("made");
		{
			auto y = utki::make_shared_from(x.get());
			CLAIM(&y.get() == &x.get());
			CLAIM(x.to_shared_ptr().use_count() == 2);
			auto w = utki::make_weak_from(x.get());
			CLAIM(w.lock().get() == &x.get());
			CLAIM(x.to_shared_ptr().use_count() == 2);
		}
		CLAIM(x.to_shared_ptr().use_count() == 1);
		CLAIM(gone == 0);
	}
	CLAIM(gone == 1);
}
