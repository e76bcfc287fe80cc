// Singletons: at most one object of a type exists, in every history of construction and destruction.
#include "sa.hpp"
#include <memory>
#include <new>
#include <stdexcept>
#include <utki/singleton.hpp>

class plain : public utki::singleton<plain>{ public: int v = 3; };
class other : public utki::singleton<other>{ public: int v = 4; };
class intr : public utki::intrusive_singleton<intr, intr>{
	friend class utki::intrusive_singleton<intr, intr>;
	static utki::intrusive_singleton<intr, intr>::instance_type instance;
public:
	int v = 5;
};
utki::intrusive_singleton<intr, intr>::instance_type intr::instance;
// a base in front of the singleton base: the stored pointer is not the address of the base object
struct front{ int f = 1; virtual ~front() = default; };
class second_base : public front, public utki::singleton<second_base>{ public: int v = 6; };
// construction may fail after the singleton base was made
class failing : public utki::singleton<failing>{ public: int v = 7; failing(){ if(sa_any_bool()) throw sa_user_exc(); } };

template <class T> __attribute__((always_inline)) inline void lifecycle(){
	if(T::is_created()) sa_stop();
	{
		T s;
		REACH("the first object can be created");
		CLAIM(T::is_created());
		CLAIM(&T::inst() == &s);
		const bool again = T::is_created();
		CLAIM(again);
	}
	CLAIM(!T::is_created());
	{
		T s;
		REACH("a new object can be created after the first is gone");
		CLAIM(T::is_created());
		CLAIM(&T::inst() == &s);
	}
	CLAIM(!T::is_created());
}
PROBE(lifecycle_plain)(){ lifecycle<plain>(); }
PROBE(lifecycle_intrusive)(){ lifecycle<intr>(); }
PROBE(lifecycle_second_base)(){ lifecycle<second_base>(); }

template <class T> __attribute__((always_inline)) inline void twice(){
	if(T::is_created()) sa_stop();
	{
		T s;
		alignas(T) unsigned char mem[sizeof(T)];
		bool refused = false;
		try{
			new(static_cast<void*>(mem)) T;
			NEVER("a second object was created while the first one exists");
		}catch(std::logic_error&){
			REACH("the second creation is refused with std::logic_error");
			refused = true;
		}
		CLAIM(refused);
		CLAIM(T::is_created());
		CLAIM(&T::inst() == &s);
		// and again: refusing changed nothing
		bool refused2 = false;
		try{ new(static_cast<void*>(mem)) T; }catch(std::logic_error&){ refused2 = true; }
		CLAIM(refused2);
		CLAIM(&T::inst() == &s);
	}
	CLAIM(!T::is_created());
}
PROBE(twice_plain)(){ twice<plain>(); }
PROBE(twice_intrusive)(){ twice<intr>(); }
PROBE(twice_second_base)(){ twice<second_base>(); }

// whatever happened before: creating throws exactly when an object exists
template <class T> __attribute__((always_inline)) inline void any_history(){
	const bool existed = T::is_created();
	alignas(T) unsigned char mem[sizeof(T)];
	try{
		T* p = new(static_cast<void*>(mem)) T;
		REACH("created");
		CLAIM(!existed);
		CLAIM(T::is_created());
		CLAIM(&T::inst() == p);
	}catch(std::logic_error&){
		REACH("refused");
		CLAIM(existed);
		CLAIM(T::is_created());
	}
}
PROBE(any_history_plain)(){ any_history<plain>(); }
PROBE(any_history_intrusive)(){ any_history<intr>(); }

// an object whose constructor fails half way does not stay registered
PROBE(failing)(){
	if(failing::is_created()) sa_stop();
	try{
		failing s;
		CLAIM(failing::is_created());
		CLAIM(&failing::inst() == &s);
	}catch(sa_user_exc&){
		REACH("failed half way");
	}
	CLAIM(!failing::is_created());
}
// singletons of different types do not influence each other
PROBE(independent)(){
	if(plain::is_created() || other::is_created() || intr::is_created()) sa_stop();
	{
		plain p;
		CLAIM(!other::is_created());
		CLAIM(!intr::is_created());
		{
			other o;
			intr i;
			CLAIM(&plain::inst() == &p);
			CLAIM(&other::inst() == &o);
			CLAIM(&intr::inst() == &i);
		}
		CLAIM(!other::is_created());
		CLAIM(!intr::is_created());
		CLAIM(plain::is_created());
		CLAIM(plain::inst().v == 3);
	}
	CLAIM(!plain::is_created());
}
// owned by a smart pointer: destroyed through its owner only
PROBE(owned)(){
	if(plain::is_created()) sa_stop();
	{
		std::unique_ptr<plain> p(new plain);
		CLAIM(&plain::inst() == p.get());
	}
	CLAIM(!plain::is_created());
}
