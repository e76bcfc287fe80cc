// Exceptions: the texts which describe them and what is nested in them
#include "sa.hpp"
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <string>
#include <utki/exception.hpp>
// demangling: the name without its first character; what it is returned in is given back once
static unsigned sa_owned;
namespace __cxxabiv1{
extern "C" char* __cxa_demangle(const char* name, char* buffer, size_t* length, int* status) {
	*status = 0;
	sa_owned = sa_owned + 1u;
	return const_cast<char*>(name) + 1;
}
}
extern "C" void free(void* p) noexcept { if(p) sa_owned = sa_owned - 1u; }
struct A : std::exception {
	char m[2];
	explicit A(char c) : m{c, 0} {}
	const char* what() const noexcept override { return m; }
};
struct B : std::exception {
	char m[3];
	explicit B(char c) : m{c, 'b', 0} {}
	const char* what() const noexcept override { return m; }
};
struct D : B {
	using B::B;
};
struct E : utki::exception {
	const char* what() const noexcept override { return "e"; }
	std::string to_string(std::string_view i) const override { return std::string(i.data(), i.size()) + "own"; }
};
struct X {}; // not an exception of the library
#define SA_INLINE __attribute__((always_inline)) inline
struct reader {
	const char* p;
	size_t n;
	SA_INLINE void is(const char* t){
		for(size_t i = 0; t[i] != 0; ++i, ++p, --n){
			CLAIM(n != 0);
			CLAIM(*p == t[i]);
		}
	}
	SA_INLINE void is(char c){
		CLAIM(n != 0);
		CLAIM(*p == c);
		++p, --n;
	}
};
#define READ(...) do { std::string sa_r = __VA_ARGS__; t = sa_r; } while(0)
#define TEXT(s) reader r{(s).data(), (s).size()};
#define DONE CLAIM(r.n == 0); CLAIM(sa_owned == 0); REACH("done");
#define IND const char in[2] = {i, j}; const std::string_view ind(in, 2)
#define I r.is(i); r.is(j);
// ---- one exception
PROBE(plain)(char c){
	sa_owned = 0;
	ASSUME(c != 0);
	A a(c);
	std::string s = utki::to_string(static_cast<const std::exception&>(a));
	TEXT(s) r.is("A: "); r.is(c); DONE
}
PROBE(plain_indented)(char c, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0);
	A a(c);
	IND;
	std::string s = utki::to_string(static_cast<const std::exception&>(a), ind);
	TEXT(s) I r.is("A: "); r.is(c); DONE
}
PROBE(dynamic_type)(char c){
	sa_owned = 0;
	ASSUME(c != 0);
	D d(c);
	const std::exception& b = d;
	std::string s = utki::to_string(b);
	TEXT(s) r.is("D: "); r.is(c); r.is('b'); DONE
}
PROBE(caught)(char c, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0);
	IND;
	try {
		throw D(c);
	} catch(std::exception& e) {
		std::string s = utki::to_string(e, ind);
		TEXT(s) I r.is("D: "); r.is(c); r.is('b'); DONE
		return;
	}
	NEVER("handler");
}
PROBE(member)(char i, char j){
	sa_owned = 0;
	IND;
	utki::exception e;
	std::string s = e.to_string(ind);
	TEXT(s) I r.is("4utki9exceptionE: std::exception"); DONE
}
// ---- nested by the standard library
PROBE(nested_std)(char c, char d, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			throw A(c);
		} catch(...) {
			std::throw_with_nested(B(d));
		}
	} catch(std::exception& e) {
		std::string s = utki::to_string(e, ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1BE: "); r.is(d); r.is("b\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(nested_std_other)(char d, char i, char j){
	sa_owned = 0;
	ASSUME(d != 0);
	IND;
	try {
		try {
			throw X();
		} catch(...) {
			std::throw_with_nested(B(d));
		}
	} catch(std::exception& e) {
		std::string s = utki::to_string(e, ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1BE: "); r.is(d); r.is("b\n"); I r.is("X"); DONE
		return;
	}
	NEVER("handler");
}
PROBE(nested_in_other)(char c, char d, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(X());
			}
		} catch(...) {
			std::throw_with_nested(B(d));
		}
	} catch(std::exception& e) {
		std::string s = utki::to_string(e, ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1BE: "); r.is(d); r.is("b\n"); I r.is("t17_Nested_exceptionI1XE\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
// ---- the current exception
PROBE(none)(){
	try {
		utki::current_exception_to_string();
	} catch(std::logic_error&) {
		REACH("refused");
		return;
	}
	NEVER("no exception is being handled");
}
PROBE(current_other)(char i, char j){
	sa_owned = 0;
	IND;
	try {
		throw X();
	} catch(...) {
		std::string s = utki::current_exception_to_string(ind);
		TEXT(s) I r.is("X"); DONE
		return;
	}
	NEVER("handler");
}
PROBE(current_number)(){
	sa_owned = 0;
	try {
		throw 5;
	} catch(...) {
		std::string s = utki::current_exception_to_string();
		TEXT(s) r.is(""); DONE
		return;
	}
	NEVER("handler");
}
PROBE(current_stays)(char c){
	sa_owned = 0;
	ASSUME(c != 0);
	try {
		throw A(c);
	} catch(A& a) {
		std::exception_ptr before = std::current_exception();
		std::string s = utki::current_exception_to_string();
		CLAIM(std::current_exception() == before);
		std::string u = utki::to_string(static_cast<const std::exception&>(a));
		CLAIM(std::current_exception() == before);
		CLAIM(a.m[0] == c);
		REACH("still");
		return;
	}
	NEVER("handler");
}
PROBE(current_nested)(char c, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0);
	IND;
	try {
		try {
			throw A(c);
		} catch(...) {
			std::throw_with_nested(X());
		}
	} catch(...) {
		std::string s = utki::current_exception_to_string(ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1XE\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
// ---- throw_with_nested() of the library
PROBE(stacked)(char c, char d, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			throw A(c);
		} catch(...) {
			utki::throw_with_nested(B(d));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string(ind);
		TEXT(s) I r.is("B: "); r.is(d); r.is("b\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_what)(char c, char d){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	try {
		try {
			throw A(c);
		} catch(...) {
			utki::throw_with_nested(B(d));
		}
	} catch(std::exception& e) {
		const char* w = e.what();
		std::string s(w);
		TEXT(s) r.is("exception stack:\n- B: "); r.is(d); r.is("b\n- A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_other)(char d){
	sa_owned = 0;
	ASSUME(d != 0);
	try {
		try {
			throw X();
		} catch(...) {
			utki::throw_with_nested(A(d));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string("- ");
		TEXT(s) r.is("- A: "); r.is(d); r.is("\n- X"); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_own)(char d, char i, char j){
	sa_owned = 0;
	ASSUME(d != 0);
	IND;
	try {
		try {
			throw E();
		} catch(...) {
			utki::throw_with_nested(A(d));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string(ind);
		TEXT(s) I r.is("A: "); r.is(d); r.is('\n'); I r.is("own"); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_three)(char c, char d, char e1, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0 && e1 != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				utki::throw_with_nested(B(d));
			}
		} catch(...) {
			utki::throw_with_nested(A(e1));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string(ind);
		TEXT(s) I r.is("A: "); r.is(e1); r.is('\n'); I r.is("B: "); r.is(d); r.is("b\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_what_three)(char c, char d, char e1){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0 && e1 != 0);
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				utki::throw_with_nested(B(d));
			}
		} catch(...) {
			utki::throw_with_nested(A(e1));
		}
	} catch(std::exception& e) {
		e.what();
		std::string s(e.what()); // the same again
		TEXT(s) r.is("exception stack:\n- A: "); r.is(e1); r.is("\n- B: "); r.is(d); r.is("b\n- A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_four)(char c, char d, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			try {
				try {
					throw X();
				} catch(...) {
					utki::throw_with_nested(A(c));
				}
			} catch(...) {
				utki::throw_with_nested(D(d));
			}
		} catch(...) {
			utki::throw_with_nested(A(d));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string(ind);
		TEXT(s) I r.is("A: "); r.is(d); r.is('\n'); I r.is("D: "); r.is(d); r.is("b\n"); I r.is("A: "); r.is(c); r.is('\n'); I r.is('X'); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_over_nested)(char c, char d, char e1, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0 && e1 != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(B(d));
			}
		} catch(...) {
			utki::throw_with_nested(A(e1));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string(ind);
		TEXT(s) I r.is("A: "); r.is(e1); r.is('\n'); I r.is("t17_Nested_exceptionI1BE: "); r.is(d); r.is("b\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(stacked_over_nested_other)(char c, char e1, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && e1 != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(X());
			}
		} catch(...) {
			utki::throw_with_nested(A(e1));
		}
	} catch(utki::exception& e) {
		std::string s = e.to_string(ind);
		TEXT(s) I r.is("A: "); r.is(e1); r.is('\n'); I r.is("t17_Nested_exceptionI1XE\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(nested_three)(char c, char d, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(B(d));
			}
		} catch(...) {
			std::throw_with_nested(A(d));
		}
	} catch(std::exception& e) {
		std::string s = utki::to_string(e, ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1AE: "); r.is(d); r.is('\n'); I r.is("t17_Nested_exceptionI1BE: "); r.is(d); r.is("b\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(current_nested_deeper)(char c, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(X());
			}
		} catch(...) {
			std::throw_with_nested(X());
		}
	} catch(...) {
		std::string s = utki::current_exception_to_string(ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1XE\n"); I r.is("t17_Nested_exceptionI1XE\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
// every mix of the two kinds, three deep
template <typename first, typename second> SA_INLINE void mixed(char c, char d, char i, char j, first make_first, second make_second, const char* first_text, bool first_what, const char* second_text, bool second_what){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(make_first());
			}
		} catch(...) {
			std::throw_with_nested(make_second());
		}
	} catch(...) {
		std::string s = utki::current_exception_to_string(ind);
		TEXT(s) I r.is(second_text); r.is('\n');
		I r.is(first_text);
		if(first_what){ r.is(": "); r.is(d); r.is('b'); }
		r.is('\n');
		I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
PROBE(current_over_std_over_std)(char c, char d, char i, char j){
	mixed(c, d, i, j, [d]{ return B(d); }, []{ return X(); }, "t17_Nested_exceptionI1BE", true, "t17_Nested_exceptionI1XE", false);
}
PROBE(current_over_other_over_std)(char c, char d, char i, char j){
	mixed(c, d, i, j, []{ return X(); }, []{ return X(); }, "t17_Nested_exceptionI1XE", false, "t17_Nested_exceptionI1XE", false);
}
PROBE(std_over_other_over_std)(char c, char d, char i, char j){
	sa_owned = 0;
	ASSUME(c != 0 && d != 0);
	IND;
	try {
		try {
			try {
				throw A(c);
			} catch(...) {
				std::throw_with_nested(X());
			}
		} catch(...) {
			std::throw_with_nested(B(d));
		}
	} catch(std::exception& e) {
		std::string s = utki::to_string(e, ind);
		TEXT(s) I r.is("t17_Nested_exceptionI1BE: "); r.is(d); r.is("b\n"); I r.is("t17_Nested_exceptionI1XE\n"); I r.is("A: "); r.is(c); DONE
		return;
	}
	NEVER("handler");
}
// ---- what is caught as what
PROBE(kinds)(char c){
	sa_owned = 0;
	ASSUME(c != 0);
	try {
		try {
			throw X();
		} catch(...) {
			utki::throw_with_nested(A(c));
		}
	} catch(A&) {
		NEVER("it is a stack, not the exception itself");
	} catch(utki::exception&) {
		REACH("stack");
		return;
	} catch(...) {
	}
	NEVER("handler");
}
PROBE(current_stays_nested)(char c){
	sa_owned = 0;
	ASSUME(c != 0);
	try {
		try {
			throw A(c);
		} catch(...) {
			utki::throw_with_nested(A(c));
		}
	} catch(utki::exception& e) {
		std::exception_ptr before = std::current_exception();
		std::string s = e.to_string();
		CLAIM(std::current_exception() == before);
		e.what();
		CLAIM(std::current_exception() == before);
		REACH("still");
		return;
	}
	NEVER("handler");
}
// ---- the description itself fails
struct F : utki::exception {
	std::string to_string(std::string_view i) const override { throw X(); }
};
struct G : utki::exception {
	std::string to_string(std::string_view i) const override { throw std::bad_alloc(); }
};
template <class inner_type> SA_INLINE void what_fails(const char* t){
	sa_owned = 0;
	try {
		try {
			throw inner_type();
		} catch(...) {
			utki::throw_with_nested(A('a'));
		}
	} catch(std::exception& e) {
		std::string s(e.what());
		TEXT(s) r.is(t); DONE
		return;
	}
	NEVER("handler");
}
PROBE(what_fails)(){ what_fails<F>("error"); }
PROBE(what_without_memory)(){ what_fails<G>("std::bad_alloc"); }
