// Every accessor of every result and group, against the span the reference computes.
#include <ctre.hpp>
#include "special.hpp"
#include <charconv>
#include <deque>
#include <iomanip>
#include <limits>
#include <list>
#include <optional>
#include <sstream>
using sp::model;
template <class C> std::basic_string<C> widen(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }
template <class T> struct is_opt: std::false_type {}; template <class T> struct is_opt<std::optional<T>>: std::true_type {};
struct ctx { const std::string & key; const std::string & what; };
inline void bad(const ctx & c, const std::string & acc, const char * m) { sp::dev(c.key + acc, c.what + ": " + acc + ": " + m); }
#define MUST(x, acc) do { ++sp::execs; if (!(x)) bad(c, where + acc, "wrong"); } while (0)

// what needs no contiguous storage; G is a group or a whole result
template <class C, class G, class It> void loose(const ctx & c, const std::string & where, const G & g, It base, std::basic_string_view<C> subject, int b, int e) {
	bool m = b >= 0;
	MUST(bool(g) == m, "bool");
	MUST((g ? true : false) == m && !g == !m, "bool in conditions");
	if (!m) { // reads as an empty text
		MUST(g.size() == 0, "size"); MUST(g.to_string().empty() && g.str().empty(), "to_string"); MUST(!g.to_optional_string(), "to_optional_string");
		return;
	}
	MUST(sp::dist(base, g.begin()) == b, "begin"); MUST(sp::dist(base, g.end()) == e, "end");
	MUST(g.size() == size_t(e - b), "size");
	std::basic_string<C> all; for (auto i = g.begin(); i != g.end(); ++i) all.push_back(C(*i));
	MUST(all == subject.substr(size_t(b), size_t(e - b)), "begin..end");
	all.clear(); for (auto x: g) all.push_back(C(x));
	MUST(all == subject.substr(size_t(b), size_t(e - b)), "range-for");
	MUST(g.to_string() == all, "to_string"); MUST(g.str() == all, "str");
	static_assert(std::is_same_v<decltype(g.to_string()), std::basic_string<C>> && std::is_same_v<decltype(g.str()), std::basic_string<C>> && std::is_same_v<decltype(g.size()), size_t>);
	auto o = g.to_optional_string(); MUST(o && *o == all, "to_optional_string");
}
template <class C, class G> void group_only(const ctx & c, const std::string & where, const G & g, size_t id, int b, int e) {
	MUST(g.get_id() == id && G::get_id() == id, "get_id");
	MUST(g.unit_size() == (b >= 0 ? size_t(e - b) : 0), "unit_size");
}
template <class C, class G> void tight(const ctx & c, const std::string & where, const G & g, const C * base, std::basic_string_view<C> subject, int b, int e, const std::vector<std::basic_string<C>> & probes) {
	using V = std::basic_string_view<C>; using S = std::basic_string<C>;
	bool m = b >= 0; V want = m ? subject.substr(size_t(b), size_t(e - b)) : V();
	auto ov = g.to_optional_view(); MUST(bool(ov) == m && (!m || *ov == want), "to_optional_view");
	auto os = g.to_optional_string(); MUST(bool(os) == m && (!m || *os == want), "to_optional_string");
	std::optional<V> cv = g; MUST(bool(cv) == m && (!m || *cv == want), "conversion to optional view");
	// direct initialisation: std::optional's own converting constructor is preferred by the language (KF-3)
	auto cs = static_cast<std::optional<S>>(g); auto dv = std::optional<V>(g);
	if (m) { MUST(cs && *cs == want, "direct conversion to optional string"); MUST(dv && *dv == want, "direct conversion to optional view"); }
	else if (cs || dv) sp::known("std::optional<string or view>(unmatched)");
	static_assert(std::is_same_v<decltype(ov), std::optional<V>> && std::is_same_v<decltype(os), std::optional<S>>);
	if (!m) { V v = g; MUST(v.empty() && g.to_view().empty() && g.view().empty(), "view"); if constexpr (std::is_same_v<C, char>) { std::ostringstream x; x << '<' << g << '>'; MUST(x.str() == "<>", "stream output"); } }
	if (m) {
		V v = g; MUST(v == want && v.data() == base + b, "conversion to view");
		auto tv = g.to_view(); MUST(tv == want && tv.data() == base + b, "to_view");
		auto vw = g.view(); MUST(vw == want && vw.data() == base + b, "view");
		static_assert(std::is_same_v<decltype(tv), V> && std::is_same_v<decltype(vw), V>);
		MUST(ov->data() == base + b, "to_optional_view data");
		MUST(g.data() == base + b, "data");
		MUST(static_cast<S>(g) == want, "conversion to string"); S made(g); MUST(made == want, "construction of a string"); S assigned; assigned = g; MUST(assigned == want, "assignment to a string");
	}
	for (auto & p: probes) {
		bool eq = m && want == p; V pv = p; const C * z = p.c_str();
		bool zq = m && want == V(z);
		MUST((g == p) == eq && (p == g) == eq && (g != p) != eq && (p != g) != eq, "comparison with a string");
		MUST((g == pv) == eq && (pv == g) == eq && (g != pv) != eq && (pv != g) != eq, "comparison with a view");
		MUST((g == z) == zq && (z == g) == zq && (g != z) != zq && (z != g) != zq, "comparison with a literal");
	}
	if constexpr (std::is_same_v<C, char>) if (m) {
		std::ostringstream x, y; x << g << '|' << std::setw(6) << std::setfill('*') << g << '|' << std::left << std::setw(4) << g; y << want << '|' << std::setw(6) << std::setfill('*') << want << '|' << std::left << std::setw(4) << want;
		MUST(x.str() == y.str() && x.good(), "stream output");
	}
}
template <class R, class... A> void number_as(const ctx & c, const std::string & where, const char * b, const char * e, const std::optional<R> & got_opt, R got, A... a) {
	R want{0}; std::from_chars(b, e, want, a...);
	MUST(got == want || (got != got && want != want), "to_number"); MUST(got_opt && (*got_opt == want || (want != want && *got_opt != *got_opt)), "to_optional_number");
}
template <class R, class G> void integer(const ctx & c, const std::string & where, const G & g, bool m, std::string_view s) {
	if (!m) { MUST(g.template to_number<R>() == 0, "to_number of an unmatched group"); MUST(!g.template to_optional_number<R>() && !g.template to_optional_number<R>(16), "to_optional_number of an unmatched group"); return; }
	const char * b = s.data(), * e = b + s.size();
	number_as<R>(c, where, b, e, g.template to_optional_number<R>(), g.template to_number<R>());
	for (int base: {2, 8, 10, 16, 36}) number_as<R>(c, where, b, e, g.template to_optional_number<R>(base), g.template to_number<R>(base), base);
}
template <class R, class G> void floating(const ctx & c, const std::string & where, const G & g, bool m, std::string_view s) {
	if (!m) { MUST(!g.template to_optional_number<R>(), "to_optional_number of an unmatched group"); return; }
	const char * b = s.data(), * e = b + s.size();
	number_as<R>(c, where, b, e, g.template to_optional_number<R>(), g.template to_number<R>());
	for (auto f: {std::chars_format::fixed, std::chars_format::scientific, std::chars_format::general, std::chars_format::hex}) number_as<R>(c, where, b, e, g.template to_optional_number<R>(f), g.template to_number<R>(f), f);
}
template <class G> void numbers(const ctx & c, const std::string & where, const G & g, bool m, std::string_view s, bool all) {
	if (!m) MUST(!g.to_optional_number(), "to_optional_number of an unmatched group");
	else { int w = 0; std::from_chars(s.data(), s.data() + s.size(), w); MUST(g.to_number() == w && g.to_optional_number() == w, "to_number"); static_assert(std::is_same_v<decltype(g.to_number()), int>); }
	integer<long long>(c, where, g, m, s); integer<unsigned char>(c, where, g, m, s);
	if (all) {
		integer<signed char>(c, where, g, m, s); integer<short>(c, where, g, m, s); integer<unsigned short>(c, where, g, m, s); integer<int>(c, where, g, m, s); integer<unsigned>(c, where, g, m, s);
		integer<long>(c, where, g, m, s); integer<unsigned long>(c, where, g, m, s); integer<unsigned long long>(c, where, g, m, s);
		floating<float>(c, where, g, m, s); floating<double>(c, where, g, m, s); floating<long double>(c, where, g, m, s);
	}
}

// how a subject is stored
template <class C> struct as_view { static constexpr const char * name = "string_view"; static constexpr bool contiguous = true; std::basic_string_view<C> s; as_view(const std::basic_string<C> & x): s(x) {} auto base() const { return s.begin(); } const C * raw() const { return s.data(); } };
template <class C> struct as_string { static constexpr const char * name = "string"; static constexpr bool contiguous = true; const std::basic_string<C> s; as_string(const std::basic_string<C> & x): s(x) {} auto base() const { return s.begin(); } const C * raw() const { return s.data(); } };
template <class C> struct as_vector { static constexpr const char * name = "vector"; static constexpr bool contiguous = true; std::vector<C> v; struct rng { const std::vector<C> & v; }; const std::vector<C> & s; as_vector(const std::basic_string<C> & x): v(x.begin(), x.end()), s(v) { } auto base() const { return v.begin(); } const C * raw() const { return v.data(); } };
template <class C> struct as_zero { static constexpr const char * name = "C string"; static constexpr bool contiguous = true; const C * s; as_zero(const std::basic_string<C> & x): s(x.c_str()) {} auto base() const { return s; } const C * raw() const { return s; } };
template <class C> struct as_deque { static constexpr const char * name = "deque"; static constexpr bool contiguous = false; std::deque<C> s; as_deque(const std::basic_string<C> & x): s(x.begin(), x.end()) {} auto base() const { return s.begin(); } const C * raw() const { return nullptr; } };
template <class C> struct as_list { static constexpr const char * name = "list"; static constexpr bool contiguous = false; std::list<C> s; as_list(const std::basic_string<C> & x): s(x.begin(), x.end()) {} auto base() const { return s.begin(); } const C * raw() const { return nullptr; } };

template <class C, class St, class R, size_t... I> void result(const ctx & c, const R & r, const St & st, std::basic_string_view<C> u, const ref::result & w, const std::vector<std::basic_string<C>> & probes, std::index_sequence<I...>) {
	++sp::steps;
	static_assert(std::tuple_size_v<R> == sizeof...(I) && R::count() == sizeof...(I));
	auto one = [&](const std::string & where, const auto & g, int b, int e) {
		loose<C>(c, where, g, st.base(), u, b, e);
		if constexpr (St::contiguous) {
			tight<C>(c, where, g, st.raw(), u, b, e, probes);
			if constexpr (std::is_same_v<C, char>) numbers(c, where, g, b >= 0, b >= 0 ? std::string_view(st.raw() + b, size_t(e - b)) : std::string_view(), false);
		}
	};
	auto grp = [&](const std::string & where, const auto & g, size_t id, int b, int e) { one(where, g, b, e); group_only<C>(c, where, g, id, b, e); };
	int wb = w.ok ? w.cap[0][0] : -1, we = w.ok ? w.cap[0][1] : -1;
	one("result.", r, wb, we);
	{ (grp("get<" + std::to_string(I) + ">().", r.template get<I>(), I, w.ok ? w.cap[I][0] : -1, w.ok ? w.cap[I][1] : -1), ...); }
	R copy = r, other; other = copy;
	if (w.ok) (grp("copy.get<" + std::to_string(I) + ">().", other.template get<I>(), I, w.cap[I][0], w.cap[I][1]), ...);
	one("copy.", copy, wb, we);
}
template <class C, class St, class P> void subject(const P & p, const model & m, const std::string & text, const std::vector<std::basic_string<C>> & probes) {
	auto wide = widen<C>(text); St st(wide); std::basic_string_view<C> u = wide;
	auto each = [&](int op, const auto & f) {
		auto w = m.run(op, text);
		std::string key = std::string(P::text) + sp::opname[op] + St::name, what = std::string(sp::opname[op]) + " of '" + P::text + "' on " + St::name + " of " + std::to_string(sizeof(C)) + "-byte units '" + sp::show(text) + "'";
		sp::at("%s", what.c_str());
		++sp::states;
		f(ctx{key, what}, w);
	};
	each(0, [&](const ctx & c, auto & w) { auto r = p.match(st.s); result<C>(c, r, st, u, w[0], probes, std::make_index_sequence<decltype(r)::count()>{}); });
	each(1, [&](const ctx & c, auto & w) { auto r = p.search(st.s); result<C>(c, r, st, u, w[0], probes, std::make_index_sequence<decltype(r)::count()>{}); });
#ifdef QUICK
	if constexpr (!std::is_same_v<St, as_view<C>>) return; else {
#else
	{
#endif
	each(2, [&](const ctx & c, auto & w) { auto r = p.starts_with(st.s); result<C>(c, r, st, u, w[0], probes, std::make_index_sequence<decltype(r)::count()>{}); });
	auto list = [&](const ctx & c, auto & w, auto && rg) {
		size_t n = 0; for (auto r: rg) { if (n < w.size()) result<C>(c, r, st, u, w[n], probes, std::make_index_sequence<decltype(r)::count()>{}); if (++n > w.size() + 2) break; }
		if (n != w.size()) bad(c, "range", "another number of elements");
	};
	if constexpr (!std::is_pointer_v<std::decay_t<decltype(st.s)>>) {
		each(3, [&](const ctx & c, auto & w) { list(c, w, p.search_all(st.s)); });
		each(4, [&](const ctx & c, auto & w) { list(c, w, p.split(st.s)); });
		each(5, [&](const ctx & c, auto & w) { list(c, w, p.tokenize(st.s)); });
	}
	}
}
template <class C, class P> void pattern_on(const P & p, std::string_view alphabet, unsigned n, unsigned np) {
	model m(P::text);
	std::vector<std::basic_string<C>> probes; sp::strings(std::string(alphabet), np, [&](const std::string & s) { probes.push_back(widen<C>(s)); });
	probes.push_back(widen<C>(std::string(1, '\0'))); probes.push_back(widen<C>(std::string("a\0", 2)));
	sp::strings(std::string(alphabet), n, [&](const std::string & s) {
		subject<C, as_view<C>>(p, m, s, probes);
#ifdef QUICK
		if constexpr (!std::is_same_v<C, char>) return;
#endif
		subject<C, as_string<C>>(p, m, s, probes); subject<C, as_vector<C>>(p, m, s, probes);
		subject<C, as_deque<C>>(p, m, s, probes); subject<C, as_list<C>>(p, m, s, probes);
		if constexpr (std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) subject<C, as_zero<C>>(p, m, s, probes);
	});
}
#define PATTERN(name, str) struct name { static constexpr const char * text = str; \
	template <class S> auto match(const S & s) const { return ctre::match<str>(s); } template <class S> auto search(const S & s) const { return ctre::search<str>(s); } template <class S> auto starts_with(const S & s) const { return ctre::starts_with<str>(s); } \
	template <class S> auto search_all(const S & s) const { return ctre::search_all<str>(s); } template <class S> auto split(const S & s) const { return ctre::split<str>(s); } template <class S> auto tokenize(const S & s) const { return ctre::tokenize<str>(s); } };

// number conversions: every text over an alphabet
inline void number_texts(std::string_view alphabet, unsigned n, unsigned part, unsigned parts) {
	unsigned k = 0;
	auto one = [&](const std::string & s) {
		if (k++ % parts != part) return;
		std::string key = "number", what = "to_number of '" + sp::show(s) + "'"; ctx c{key, what};
		sp::at("%s", what.c_str()); ++sp::states; ++sp::steps;
		std::string t = ">" + s + "7"; // further digits behind the captured text must not be read
		auto r = ctre::match<">([^;]*?)7(x)?">(t);
		if (!r) { bad(c, "match", "no match"); return; }
		numbers(c, "get<1>().", r.template get<1>(), true, std::string_view(t).substr(1, s.size()), true);
		numbers(c, "get<2>().", r.template get<2>(), false, {}, true);
		auto q = ctre::match<"[^;]*">(s); numbers(c, "result.", q, true, s, true);
		auto z = ctre::match<"[^;]*">(s.c_str()); numbers(c, "result of a C string.", z, true, s, true);
		auto none = ctre::match<"[^;]*;">(s); numbers(c, "result.", none, false, {}, true);
	};
	sp::strings(std::string(alphabet), n, one);
	auto around = [&](auto lim) { for (int d = -1; d <= 1; ++d) { long double v = (long double)lim + d; char b[64]; snprintf(b, sizeof b, "%.0Lf", v); one(b); one(std::string("0") + b); one(std::string(b) + "0"); } };
	around(std::numeric_limits<signed char>::min()); around(std::numeric_limits<signed char>::max()); around(std::numeric_limits<unsigned char>::max()); around(std::numeric_limits<short>::min()); around(std::numeric_limits<short>::max()); around(std::numeric_limits<unsigned short>::max());
	around(std::numeric_limits<int>::min()); around(std::numeric_limits<int>::max()); around(std::numeric_limits<unsigned>::max()); around(std::numeric_limits<long>::min()); around(std::numeric_limits<long>::max()); around(std::numeric_limits<unsigned long>::max());
	for (const char * s: {"1e308", "1e309", "-1e309", "1e-400", "4.9e-324", "3.4028236e38", "1.5e-45", "inf", "-inf", "nan", "infinity", "0x1p3", "1p3", "1.7976931348623157e308", "0.1", ".5", "5.", "1e", "1e+", "--1", "+1", " 1", "1 ", "00", "-0", "zz", "7fffffff", "80000000", "ffffffffffffffff", "10000000000000000"}) one(s);
}
