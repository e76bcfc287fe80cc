// string_parser, text of any length and contents: nothing outside of the text is touched, what is read and what is left are
// neighbouring pieces of it, and the reading stops where it is said to stop
#include "sa.hpp"
#include <string_view>
#include <utki/string.hpp>
using utki::string_parser;
using sv = std::string_view;
static bool space(char c){ return c == ' ' || ('\t' <= c && c <= '\r'); }
// a is what was consumed: the text is a followed by what is left
static void pieces(const char* t, size_t n, size_t consumed, const string_parser& p){
	CLAIM(consumed <= n);
	CLAIM(p.size() == n - consumed);
	CLAIM(p.get_view().size() == n - consumed);
	CLAIM(p.empty() == (n == consumed));
}
PROBE(is_space)(char c){
	CLAIM(string_parser::is_space(c) == space(c));
}
PROBE(view)(size_t n){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	pieces(t, n, 0, p);
	CLAIM(p.get_view().data() == t);
}
PROBE(read_char)(size_t n){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	try{
		char c = p.read_char();
		CLAIM(n != 0);
		CLAIM(c == t[0]);
		pieces(t, n, 1, p);
		REACH("read");
	}catch(std::invalid_argument&){
		CLAIM(n == 0);
		pieces(t, n, 0, p);
		REACH("thrown");
	}
}
PROBE(peek_char)(size_t n){
	const char* t = (const char*)sa_buffer(n);
	const string_parser p(sv(t, n));
	try{
		char c = p.peek_char();
		CLAIM(n != 0);
		CLAIM(c == t[0]);
		REACH("peeked");
	}catch(std::invalid_argument&){
		CLAIM(n == 0);
		REACH("thrown");
	}
	pieces(t, n, 0, p);
}
PROBE(peek_char_at)(size_t n, size_t k){
	const char* t = (const char*)sa_buffer(n);
	const string_parser p(sv(t, n));
	try{
		char c = p.peek_char(k);
		CLAIM(k < n);
		CLAIM(c == t[k]);
		REACH("peeked");
	}catch(std::invalid_argument&){
		CLAIM(k >= n);
		REACH("thrown");
	}
	pieces(t, n, 0, p);
}
PROBE(read_chars)(size_t n, size_t k){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	sv r = p.read_chars(k);
	size_t want = k < n ? k : n;
	CLAIM(r.size() == want);
	CLAIM(r.data() == t);
	pieces(t, n, r.size(), p);
}
PROBE(read_chars_until)(size_t n, char c){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	sv r = p.read_chars_until(c);
	CLAIM(r.data() == t || r.empty());
	pieces(t, n, r.size(), p);
	if(r.size() < n) CLAIM(t[r.size()] == c);
}
PROBE(read_word)(size_t n){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	sv r = p.read_word();
	CLAIM(r.data() == t || r.empty());
	pieces(t, n, r.size(), p);
	if(r.size() < n) CLAIM(space(t[r.size()]));
}
PROBE(read_word_until)(size_t n, char c){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	sv r = p.read_word_until(c);
	CLAIM(r.data() == t || r.empty());
	pieces(t, n, r.size(), p);
	if(r.size() < n) CLAIM(space(t[r.size()]) || t[r.size()] == c);
}
PROBE(skip_whitespaces)(size_t n){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	p.skip_whitespaces();
	CLAIM(p.size() <= n);
	pieces(t, n, n - p.size(), p);
}
PROBE(skip_whitespaces_and_comma)(size_t n){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	p.skip_whitespaces_and_comma();
	CLAIM(p.size() <= n);
	pieces(t, n, n - p.size(), p);
}
PROBE(skip_inclusive_until)(size_t n, char c){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	p.skip_inclusive_until(c);
	CLAIM(p.size() <= n);
	pieces(t, n, n - p.size(), p);
}
PROBE(skip_inclusive_until_one_of)(size_t n, char a, char b){
	const char* t = (const char*)sa_buffer(n);
	string_parser p(sv(t, n));
	char cs[2] = {a, b};
	char r = p.skip_inclusive_until_one_of(utki::span<const char>(cs, 2));
	CLAIM(p.size() <= n);
	pieces(t, n, n - p.size(), p);
	(void)r;
}
