#include <ctre.hpp>
#include <cstdio>
#include <string>
#include <string_view>
#ifndef FROM
#define FROM 0
#define TO 128
#endif
using G = ctll::augment_grammar<ctre::pcre>;
template <class T> constexpr std::string_view name() { std::string_view s = __PRETTY_FUNCTION__; auto a = s.find("T = ") + 4; auto b = s.find("; std::string_view", a); if (b == s.npos) b = s.rfind(']'); return s.substr(a, b - a); }
template <class Sym> struct once { static inline bool done = false; };
template <class Sym> void visit();
struct printer {
	static void out(ctll::accept) { std::printf("accept"); }
	static void out(ctll::reject) { std::printf("reject"); }
	static void out(ctll::pop_input) { std::printf("pop"); }
	static void out(ctll::epsilon) { std::printf("epsilon"); }
	template <class... T> static void out(ctll::list<T...>) { std::printf("push"); ((std::printf("\x1f%.*s", int(name<T>().size()), name<T>().data())), ...); }
	template <class... T> static void go(ctll::list<T...>) { (visit<T>(), ...); }
	template <class T> static void go(T) { }
};
template <class Sym, class Term> void cell(int c) {
	using R = decltype(G::rule(Sym{}, Term{}));
	std::printf("%.*s\x1e%d\x1e", int(name<Sym>().size()), name<Sym>().data(), c); printer::out(R{}); std::printf("\n"); printer::go(R{});
}
template <class Sym, size_t... I> void chars(std::index_sequence<I...>) { ((FROM + I < 128 ? cell<Sym, ctll::term<char(FROM + I < 128 ? FROM + I : 0)>>(int(FROM + I)) : void()), ...); }
template <class Sym> void visit() {
	if (once<Sym>::done) return; once<Sym>::done = true;
	if constexpr (std::is_base_of_v<ctll::action, Sym>) { std::printf("%.*s\x1e-2\x1e" "action\n", int(name<Sym>().size()), name<Sym>().data()); }
	else {
		chars<Sym>(std::make_index_sequence<TO - FROM>());
		cell<Sym, ctll::term<char32_t(0x100)>>(128); cell<Sym, ctll::epsilon>(-1);
	}
}
int main() { std::printf("START\x1e"); printer::out(typename G::start_stack{}); std::printf("\n"); printer::go(typename G::start_stack{}); visit<ctll::empty_stack_symbol>(); }
