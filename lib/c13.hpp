// One pattern and operation, one text, every spelling of the subject and of the call.
#include <ctre.hpp>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include "special.hpp"
using sp::model;
using results = std::vector<ref::result>;
template <class R, class B> results collect_one(const R & r, B b) { return {sp::take(r, b)}; }
template <class R, class B> results collect_range(R && r, B b, size_t limit) {
	results l; auto e = r.end();
	for (auto it = r.begin(); it != e; ++it) { if (l.size() > limit) { l.emplace_back(); break; } l.push_back(sp::take(*it, b)); }
	return l;
}
struct ctx { std::string what; int op; const results * want; int groups; size_t limit; };
inline void compare(const ctx & c, const char * rep, const results & got) {
	++sp::execs;
	if (!sp::same(got, *c.want)) sp::dev(c.what.substr(0, c.what.find(" on ")) + rep, c.what + " as " + rep + ": expected " + sp::str(*c.want, c.groups) + ", got " + sp::str(got, c.groups));
}
template <int OP, class R, class B> void one(const ctx & c, const char * rep, R && r, B b) {
	if constexpr (OP < 3) compare(c, rep, collect_one(r, b)); else compare(c, rep, collect_range(r, b, c.limit));
}
// a user's own string: begin/end are forward iterators, the end has another type
struct own_string {
	std::string_view s;
	struct stop { const char * p; };
	struct iterator {
		using value_type = char; using reference = char; using pointer = const char *; using difference_type = std::ptrdiff_t; using iterator_category = std::forward_iterator_tag;
		const char * p = nullptr;
		constexpr char operator*() const { return *p; }
		constexpr iterator & operator++() { ++p; return *this; }
		constexpr iterator operator++(int) { auto x = *this; ++p; return x; }
		friend constexpr bool operator==(iterator a, iterator b) { return a.p == b.p; }
		friend constexpr bool operator!=(iterator a, iterator b) { return a.p != b.p; }
		friend constexpr bool operator==(iterator a, stop b) { return a.p == b.p; }
		friend constexpr bool operator!=(iterator a, stop b) { return a.p != b.p; }
		friend constexpr bool operator==(stop b, iterator a) { return a.p == b.p; }
		friend constexpr bool operator!=(stop b, iterator a) { return a.p != b.p; }
	};
	constexpr iterator begin() const { return {s.data()}; }
	constexpr stop end() const { return {s.data() + s.size()}; }
};
template <class M, int OP> void reps(const std::string & s, const ctx & c, const ctx & rev, const ctx & zero) {
	std::string_view v = s; const std::string & cs = s; std::string ms = s;
	one<OP>(c, "string_view", M::template f<OP>(v), v.begin());
	one<OP>(c, "const string", M::template f<OP>(cs), cs.begin());
	one<OP>(c, "string", M::template f<OP>(ms), ms.begin());
	one<OP>(c, "pair of string_view iterators", M::template f<OP>(v.begin(), v.end()), v.begin());
	one<OP>(c, "pair of string iterators", M::template f<OP>(cs.begin(), cs.end()), cs.begin());
	one<OP>(c, "pair of mutable string iterators", M::template f<OP>(ms.begin(), ms.end()), ms.begin());
	one<OP>(zero, "C string", M::template f<OP>(cs.c_str()), cs.c_str());
	one<OP>(zero, "mutable C string", M::template f<OP>(ms.data()), static_cast<const char *>(ms.data()));
	if (s.size() == 3) { const char a[] = {s[0], s[1], s[2], 0}; one<OP>(zero, "character array", M::template f<OP>(a), &a[0]); char b[] = {s[0], s[1], s[2], 0}; one<OP>(zero, "mutable character array", M::template f<OP>(b), static_cast<const char *>(b)); std::array<char, 3> d{s[0], s[1], s[2]}; one<OP>(c, "std::array", M::template f<OP>(d), d.begin()); }
	std::vector<char> vec(s.begin(), s.end()); const auto & cvec = vec;
	one<OP>(c, "vector", M::template f<OP>(vec), vec.begin());
	one<OP>(c, "const vector", M::template f<OP>(cvec), cvec.begin());
	std::deque<char> dq(s.begin(), s.end()); one<OP>(c, "deque", M::template f<OP>(dq), dq.begin());
	std::list<char> li(s.begin(), s.end()); const auto & cli = li;
	one<OP>(c, "list", M::template f<OP>(li), li.begin());
	one<OP>(c, "const list", M::template f<OP>(cli), cli.begin());
	one<OP>(c, "pair of list iterators", M::template f<OP>(li.begin(), li.end()), li.begin());
	if constexpr (!M::bidirectional) {
		std::forward_list<char> fl(s.begin(), s.end()); one<OP>(c, "forward_list", M::template f<OP>(fl), fl.begin());
		own_string own{v}; one<OP>(c, "own string type with a sentinel", M::template f<OP>(own), own.begin());
		one<OP>(c, "iterator and sentinel", M::template f<OP>(own.begin(), own.end()), own.begin());
	}
	one<OP>(rev, "pair of reverse iterators", M::template f<OP>(v.rbegin(), v.rend()), v.rbegin());
	if constexpr (OP >= 3) {
		one<OP>(c, "string_view | operation", M::template pipe<OP>(v), v.begin());
		one<OP>(c, "string | operation", M::template pipe<OP>(cs), cs.begin());
		one<OP>(c, "list | operation", M::template pipe<OP>(li), li.begin());
		one<OP>(zero, "C string | operation", M::template pipe<OP>(cs.c_str()), cs.c_str());
	}
	if constexpr (OP == 3) {
		results l; size_t n = 0;
		for (auto it = M::template f<6>(v); it != M::template f<7>() && n++ <= c.limit; it++) l.push_back(sp::take(*it, v.begin()));
		compare(c, "iterator and end iterator", l);
	}
	std::wstring w(s.begin(), s.end()); std::u16string u16(s.begin(), s.end()); std::u32string u32(s.begin(), s.end());
	std::wstring_view wv = w; std::u16string_view u16v = u16; std::u32string_view u32v = u32;
	one<OP>(c, "wstring_view", M::template f<OP>(wv), wv.begin());
	one<OP>(c, "wstring", M::template f<OP>(std::as_const(w)), std::as_const(w).begin());
	one<OP>(zero, "wide C string", M::template f<OP>(w.c_str()), w.c_str());
	one<OP>(c, "u16string_view", M::template f<OP>(u16v), u16v.begin());
	one<OP>(c, "u16string", M::template f<OP>(std::as_const(u16)), std::as_const(u16).begin());
	one<OP>(c, "u32string_view", M::template f<OP>(u32v), u32v.begin());
#ifdef __cpp_char8_t
	std::u8string u8(s.begin(), s.end()); std::u8string_view u8v = u8;
	one<OP>(c, "u8string_view", M::template f<OP>(u8v), u8v.data());
	one<OP>(c, "u8string", M::template f<OP>(std::as_const(u8)), u8v.data());
	one<OP>(zero, "UTF-8 C string", M::template f<OP>(u8.c_str()), u8v.data());
#endif
	// the ways to write the call
	M::template calls<OP>([&](const char * how, auto && r) { one<OP>(c, how, r, v.begin()); }, v);
}
template <class M, int OP> void all(const std::string & alphabet, unsigned maxlen) {
	model m(M::text, M::flags);
	sp::strings(alphabet, maxlen, [&](const std::string & s) {
		++sp::states; sp::hang(20);
		std::string text = std::string(sp::opname[OP]) + " " + M::text + " flags=" + std::to_string(M::flags) + " on \"" + sp::show(s) + "\"";
		sp::at("%s", text.c_str());
		results want = m.run(OP, s), rwant = m.run(OP, std::string(s.rbegin(), s.rend())), zwant = m.run(OP, std::string(s.c_str()));
		ctx c{text, OP, &want, int(m.re.groups), s.size() + 2}, r = c, z = c; r.want = &rwant; z.want = &zwant;
		reps<M, OP>(s, c, r, z);
	});
}
