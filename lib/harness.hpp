// Glue between generated pattern tables (real library code) and the exhaustive driver.
#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

constexpr unsigned HMAXG = 16;
struct outcome {
	bool ok = false;
	int groups = 0;          // number of groups the result object reports (0 = whole match only)
	int cap[HMAXG][2];       // [begin,end) or -1,-1
	outcome() { for (auto & c: cap) c[0] = c[1] = -1; }
};
using sv = std::string_view;
struct trace {
	std::vector<outcome> items;  // one item for match/search/starts_with, one per element for the enumerating operations
	const char * broken = nullptr; // some self-consistency rule was broken
	bool overlong = false;       // enumeration did not end within the allowed number of steps
	unsigned long long histories = 0;
};
using exec_fn = void (*)(sv, trace &);
enum op_kind { op_match, op_search, op_starts, op_search_all, op_split, op_tokenize, op_count };
struct entry {
	const char * pattern; size_t length;
	unsigned flags;          // 1 = case insensitive, 2 = multiline
	unsigned domain;         // index into the table of subject domains
	int known;               // 1: listed in the known findings; 2: only termination is checked
	exec_fn fn[op_count];
	const char * like;       // known finding: the pattern whose meaning the library gives to this one (null: atomic iterations)
	bool utf8;               // subjects are UTF-8 (char8_t)
	bool zero;               // subjects are C strings
};
// every sequence of up to maxlen members; a member is one unit of the alphabet, or chunk[i] units of it
struct domain { const char * alphabet; size_t size; unsigned maxlen; const unsigned char * chunk; };

template <class S, class I> int offset(const S & s, I i) { return int(i - s.begin()); }
// iterators that notice every use outside of their range
inline const char * outside = nullptr;
template <class Category> struct checked {
	using value_type = char; using reference = char; using pointer = const char *; using difference_type = std::ptrdiff_t; using iterator_category = Category;
	const char * p = nullptr, * b = nullptr, * e = nullptr;
	constexpr void must(bool x, const char * what) const { if (!x && !outside) outside = what; }
	char operator*() const { bool in = p && p >= b && p < e; must(in, p && p < b ? "reads before the beginning" : p ? "reads at or behind the end" : "reads through a singular iterator"); return in ? *p : '\0'; }
	checked & operator++() { must(p && p < e, p ? "steps behind the end" : "steps a singular iterator"); ++p; return *this; }
	checked operator++(int) { auto x = *this; ++*this; return x; }
	checked & operator--() { static_assert(std::is_base_of_v<std::bidirectional_iterator_tag, Category>); must(p && p > b, p ? "steps before the beginning" : "steps a singular iterator back"); --p; return *this; }
	checked operator--(int) { auto x = *this; --*this; return x; }
	friend bool operator==(const checked & x, const checked & y) { return x.p == y.p; }
	friend bool operator!=(const checked & x, const checked & y) { return x.p != y.p; }
#define RANDOM static_assert(std::is_base_of_v<std::random_access_iterator_tag, Category>)
	checked & operator+=(difference_type n) { RANDOM; must(p && n >= b - p && n <= e - p, n > 0 ? "jumps behind the end" : "jumps before the beginning"); p += n; return *this; }
	checked & operator-=(difference_type n) { return *this += -n; }
	friend checked operator+(checked x, difference_type n) { return x += n; }
	friend checked operator+(difference_type n, checked x) { return x += n; }
	friend checked operator-(checked x, difference_type n) { return x -= n; }
	friend difference_type operator-(const checked & x, const checked & y) { RANDOM; x.must(x.p && y.p && x.b == y.b, "distance of singular iterators"); return x.p - y.p; }
	char operator[](difference_type n) const { return *(*this + n); }
	friend bool operator<(const checked & x, const checked & y) { RANDOM; return x.p < y.p; }
	friend bool operator>(const checked & x, const checked & y) { RANDOM; return x.p > y.p; }
	friend bool operator<=(const checked & x, const checked & y) { RANDOM; return x.p <= y.p; }
	friend bool operator>=(const checked & x, const checked & y) { RANDOM; return x.p >= y.p; }
#undef RANDOM
};
// a range whose end is of another type, as in a container of the user
template <class Category, bool Common> struct checked_range {
	sv s;
	struct stop { const char * e;
		friend bool operator==(const checked<Category> & x, stop y) { return x.p == y.e; } friend bool operator!=(const checked<Category> & x, stop y) { return x.p != y.e; }
		friend bool operator==(stop y, const checked<Category> & x) { return x.p == y.e; } friend bool operator!=(stop y, const checked<Category> & x) { return x.p != y.e; }
	};
	checked<Category> begin() const { return {s.data(), s.data(), s.data() + s.size()}; }
	auto end() const { if constexpr (Common) return checked<Category>{s.data() + s.size(), s.data(), s.data() + s.size()}; else return stop{s.data() + s.size()}; }
	size_t size() const { return s.size(); }
};
template <class C, bool X> int offset(const checked_range<C, X> & s, checked<C> i) { return i.p ? int(i.p - s.s.data()) : -77; }
template <size_t I, class R, class S> void fill_one(const R & r, const S & s, outcome & o) {
	auto g = r.template get<I>();
	if (g) {
		o.cap[I][0] = offset(s, g.begin());
		o.cap[I][1] = offset(s, g.end());
	}
}
template <class R, class S, size_t... I> void fill_all(const R & r, const S & s, outcome & o, std::index_sequence<I...>) { (fill_one<I>(r, s, o), ...); }
template <class R, class S> outcome fill(const R & r, const S & s) {
	outcome o;
	o.groups = int(R::count()) - 1;
	o.ok = bool(r);
	if (o.ok) fill_all(r, s, o, std::make_index_sequence<R::count()>{});
	return o;
}
template <class A, class B> void same_group(const A & a, const B & b, trace & t) {
	if (a.get_id() != b.get_id()) t.broken = "an access path leads to another group";
	else if (bool(a) != bool(b) || (a && (a.begin() != b.begin() || a.end() != b.end()))) t.broken = "access paths disagree on a group";
}
#define OPDEF(name, F) static void name(sv s, trace & t) { t.items.push_back(fill(F(s), s)); }

// the enumerating operations: a walk with ++it, then every history of {++it, it++} with copies
inline bool same_outcome(const outcome & a, const outcome & b) {
	if (a.ok != b.ok || a.groups != b.groups) return false;
	for (unsigned i = 0; i < HMAXG; ++i) if (a.cap[i][0] != b.cap[i][0] || a.cap[i][1] != b.cap[i][1]) return false;
	return true;
}
template <class It, class End, class S> void histories(It it, const End & end, size_t k, const S & s, trace & t, unsigned depth) {
	bool fin = k == t.items.size();
	if ((it == end) != fin || (end == it) != fin || (it != end) == fin || (end != it) == fin) { t.broken = "comparison with the sentinel"; return; }
	++t.histories;
	if (fin) return;
	if (!same_outcome(fill(*it, s), t.items[k])) { t.broken = "value depends on the increment history"; return; }
	It copy = it;
	if (!(copy == it) || copy != it) { t.broken = "a copy is not equal to its original"; return; }
	if (depth == 0) { // only one kind of step below the depth bound
		++copy; histories(std::move(copy), end, k + 1, s, t, 0);
		return;
	}
	It & self = ++copy;
	if (&self != &copy) { t.broken = "++it does not return the iterator"; return; }
	if (!same_outcome(fill(*it, s), t.items[k])) { t.broken = "advancing a copy changed the original"; return; }
	histories(copy, end, k + 1, s, t, depth - 1);
	if (t.broken) return;
	It prev = it++;
	if (!same_outcome(fill(*prev, s), t.items[k])) { t.broken = "it++ does not return the previous value"; return; }
	histories(std::move(it), end, k + 1, s, t, depth - 1);
}
template <class Range, class S> void walk(const Range & r, const S & s, trace & t) {
	size_t limit = s.size() + 3;
	auto it = r.begin(); auto end = r.end();
	for (; it != end; ++it) {
		if (t.items.size() == limit) { t.overlong = true; return; }
		t.items.push_back(fill(*it, s));
	}
	size_t n = 0;
	for (auto && m: r) { if (n == t.items.size() || !same_outcome(fill(m, s), t.items[n])) { t.broken = "second walk of the range differs"; return; } ++n; }
	if (n != t.items.size()) { t.broken = "second walk of the range is shorter"; return; }
	histories(r.begin(), end, 0, s, t, 4);
}
#define RANGEDEF(name, F) static void name(sv s, trace & t) { walk(F(s), s, t); }
#define ITERDEF(name, F, I) static void name(sv s, trace & t) { walk(F(s), s, t); if (!t.broken && !t.overlong) histories(I(s), ctre::sentinel, 0, s, t, 2); }

#if defined(__cpp_char8_t)
inline std::u8string_view as_utf8(sv s) { return {reinterpret_cast<const char8_t *>(s.data()), s.size()}; }
#define U8_OPDEF(name, F) static void name(sv b, trace & t) { auto s = as_utf8(b); t.items.push_back(fill(F(s), s)); }
#define U8_RANGEDEF(name, F) static void name(sv b, trace & t) { auto s = as_utf8(b); walk(F(s), s, t); }
#define U8_ITERDEF(name, F, I) static void name(sv b, trace & t) { auto s = as_utf8(b); walk(F(s), s, t); if (!t.broken && !t.overlong) histories(I(s), ctre::sentinel, 0, s, t, 2); }
#endif

// C strings: the unit behind the terminator may not exist
#define Z_OPDEF(name, F) static void name(sv s, trace & t) { t.items.push_back(fill(F(s.data()), s)); }
#define Z_RANGEDEF(name, F) static void name(sv s, trace & t) { walk(F(s.data()), s, t); }
#define Z_ITERDEF(name, F, I) static void name(sv s, trace & t) { walk(F(s.data()), s, t); }
template <class C, bool X, class F> void checked_op(sv b, trace & t, F f) { outside = nullptr; checked_range<C, X> s{b}; f(s); if (outside) t.broken = outside; }
#define CHECKED_OPDEF(name, F, C, X) static void name(sv b, trace & t) { checked_op<C, X>(b, t, [&](auto & s) { t.items.push_back(fill(F(s), s)); }); }
#define CHECKED_RANGEDEF(name, F, C, X) static void name(sv b, trace & t) { checked_op<C, X>(b, t, [&](auto & s) { walk(F(s), s, t); }); }
#define R_OPDEF(name, F) CHECKED_OPDEF(name, F, std::random_access_iterator_tag, true)
#define R_RANGEDEF(name, F) CHECKED_RANGEDEF(name, F, std::random_access_iterator_tag, true)
#define R_ITERDEF(name, F, I) R_RANGEDEF(name, F)
#define B_OPDEF(name, F) CHECKED_OPDEF(name, F, std::bidirectional_iterator_tag, true)
#define B_RANGEDEF(name, F) CHECKED_RANGEDEF(name, F, std::bidirectional_iterator_tag, true)
#define B_ITERDEF(name, F, I) B_RANGEDEF(name, F)
#define F_OPDEF(name, F) CHECKED_OPDEF(name, F, std::forward_iterator_tag, false)
#define F_RANGEDEF(name, F) CHECKED_RANGEDEF(name, F, std::forward_iterator_tag, false)
#define F_ITERDEF(name, F, I) F_RANGEDEF(name, F)
