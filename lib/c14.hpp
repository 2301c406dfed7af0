// UTF-8 subjects: unit sequences, one after another, forwards and backwards.
#include <ctre.hpp>
#include "special.hpp"
#include <algorithm>
#include <cstdlib>
static constexpr auto pat_each = ctll::fixed_string{"(\\x{fffd})|([\\x{80}-\\x{10ffff}])|[^]"};
static constexpr auto pat_behind = ctll::fixed_string{"(?<=(\\x{fffd})|([^]))"};
static constexpr auto pat_twice = ctll::fixed_string{"(.)\\1"};
struct decoded { uint32_t cp[16]; int at[17]; int n = 0; };
// what a sequence of units means
inline void decode(const unsigned char * s, int len, decoded & d) {
	d.n = 0;
	for (int i = 0; i < len;) {
		uint32_t lead = s[i]; int need = lead >= 0xF8 ? 0 : lead >= 0xF0 ? 3 : lead >= 0xE0 ? 2 : lead >= 0xC0 ? 1 : 0, got = 0;
		uint32_t v = need == 3 ? lead & 7 : need == 2 ? lead & 15 : lead & 31;
		d.at[d.n] = i++;
		while (got < need && i < len && s[i] >= 0x80 && s[i] < 0xC0) { v = v << 6 | (s[i++] & 63u); ++got; }
		if (lead < 0x80) v = lead;
		else if (!need || got < need || v < (need == 1 ? 0x80u : need == 2 ? 0x800u : 0x10000u) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) v = 0xFFFD;
		d.cp[d.n++] = v;
	}
	d.at[d.n] = len;
}
inline int encode(uint32_t v, unsigned char * b) {
	if (v < 0x80) { b[0] = static_cast<unsigned char>(v); return 1; }
	int n = v < 0x800 ? 2 : v < 0x10000 ? 3 : 4;
	for (int i = n; --i; v >>= 6) b[i] = static_cast<unsigned char>(0x80 | (v & 63));
	b[0] = static_cast<unsigned char>((n == 2 ? 0xC0 : n == 3 ? 0xE0 : 0xF0) | v);
	return n;
}
inline std::string text(const unsigned char * s, int n) { std::string r; char b[8]; for (int i = 0; i < n; ++i) { snprintf(b, 8, "%02X ", s[i]); r += b; } if (n) r.pop_back(); return "<" + r + ">"; }
inline void bad(const char * what, const unsigned char * s, int n) { sp::dev(what, std::string(what) + " on the units " + text(s, n)); }
// every sequence over the alphabets of the single places
template <class F> void sequences(const std::vector<std::vector<unsigned char>> & places, F && f) {
	unsigned char s[8]; std::vector<size_t> idx(places.size(), 0); int n = int(places.size());
	for (int i = 0; i < n; ++i) s[i] = places[size_t(i)][0];
	while (true) {
		f(s, n);
		int j = n - 1;
		while (j >= 0) { auto & k = idx[size_t(j)]; if (++k == places[size_t(j)].size()) k = 0; s[j] = places[size_t(j)][k]; if (k) break; --j; }
		if (j < 0) break;
	}
}
inline std::vector<unsigned char> every(unsigned part = 0, unsigned parts = 1) { std::vector<unsigned char> v; for (unsigned i = part; i < 256; i += parts) v.push_back(static_cast<unsigned char>(i)); return v; }
inline const std::vector<unsigned char> edge{0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF};
#ifdef INTERNAL
// the iterator itself: values and positions, forwards and backwards
inline void iterate(const unsigned char * s, int n) {
	decoded d; decode(s, n, d);
	auto p = reinterpret_cast<const char8_t *>(s);
	const ctre::utf8_iterator b{p, p + n, p};
	ctre::utf8_iterator::sentinel e;
	++sp::states; ++sp::execs;
	auto it = b;
	for (int i = 0; i <= d.n; ++i) {
		++sp::steps;
		if (it.ptr != p + d.at[i]) return bad("stepping forward leads elsewhere", s, n);
		if ((it == e) != (i == d.n) || (it != e) != (i < d.n)) return bad("comparison with the end", s, n);
		if (i == d.n) break;
		if (uint32_t(*it) != d.cp[i]) return bad("another code point", s, n);
		if (i % 2) ++it; else { auto old = it++; if (!(old.ptr == p + d.at[i])) return bad("it++", s, n); }
	}
	for (int i = d.n; i-- > 0;) {
		++sp::steps;
		if (i % 2) --it; else { auto old = it--; if (!(old.ptr == p + d.at[i + 1])) return bad("it--", s, n); }
		if (it.ptr != p + d.at[i]) return bad("stepping backward leads elsewhere", s, n);
		if (uint32_t(*it) != d.cp[i]) return bad("another code point after stepping backward", s, n);
	}
	if (!(it == b) || it != b) bad("comparison of positions", s, n);
	for (int i = 0; i <= d.n; ++i) for (int j = 0; j <= d.n; ++j) {
		auto x = b + unsigned(i); const char8_t * y = p + d.at[j];
		if ((x == y) != (i == j) || (x != y) != (i != j) || (y == x) != (i == j) || (y != x) != (i != j) || (x == b + unsigned(j)) != (i == j)) return bad("comparison with a position", s, n);
		if ((e == x) != (i == d.n) || (e != x) != (i < d.n)) return bad("comparison with the end", s, n);
	}
	for (int i = 0; i <= d.n; ++i) { if ((b + unsigned(i)).ptr != p + d.at[i] || ((b + unsigned(d.n)) - unsigned(d.n - i)).ptr != p + d.at[i]) return bad("steps of several code points", s, n); }
}
#endif
// the same through the library's operations
inline void observe(const unsigned char * s, int n) {
	decoded d; decode(s, n, d);
	auto p = reinterpret_cast<const char8_t *>(s); std::u8string_view v{p, size_t(n)};
	++sp::states; sp::execs += 2;
	int i = 0;
	for (auto && m: ctre::search_all<pat_each>(v)) {
		++sp::steps;
		if (i >= d.n) return bad("search_all finds too many characters", s, n);
		auto g = m.get<0>();
		if (g.begin() - p != d.at[i] || g.end() - p != d.at[i + 1]) return bad("search_all finds another character", s, n);
		if (bool(m.get<1>()) != (d.cp[i] == 0xFFFD)) return bad("U+FFFD", s, n);
		if (bool(m.get<2>()) != (d.cp[i] >= 0x80 && d.cp[i] != 0xFFFD)) return bad("value", s, n);
		++i;
	}
	if (i != d.n) return bad("search_all finds too few characters", s, n);
	i = 1;
	if (n) for (auto && m: ctre::search_all<pat_behind>(v)) {
		++sp::steps;
		if (i > d.n) return bad("lookbehind finds too many places", s, n);
		if (m.begin() - p != d.at[i]) return bad("lookbehind matches elsewhere", s, n);
		bool f = d.cp[i - 1] == 0xFFFD;
		if (bool(m.get<1>()) != f || bool(m.get<2>()) == f) return bad("lookbehind sees another character", s, n);
		auto b = f ? m.get<1>().begin() : m.get<2>().begin(), e = f ? m.get<1>().end() : m.get<2>().end();
		if (b - p != d.at[i - 1] || e - p != d.at[i]) return bad("lookbehind sees a character elsewhere", s, n);
		++i;
	}
	if (n && i != d.n + 1) return bad("lookbehind finds too few places", s, n);
}
// the sequence followed by the proper form of a code point: equal exactly when it decodes to it
inline void equals(const unsigned char * s, int n) {
	decoded d; decode(s, n, d);
	uint32_t v = d.cp[0];
	for (uint32_t w: {v, v ^ 1, v ^ 0x40, v ^ 0x800, v ^ 0x10000, uint32_t(0xFFFD)}) {
		if (w > 0x10FFFF || (w >= 0xD800 && w < 0xE000)) continue;
		unsigned char b[16]; memcpy(b, s, size_t(n)); int m = n + encode(w, b + n);
		decoded e; decode(b, m, e);
		++sp::states; ++sp::execs; ++sp::steps;
		auto p = reinterpret_cast<const char8_t *>(b);
		bool want = e.n == 2 && e.cp[0] == e.cp[1];
		if (bool(ctre::match<pat_twice>(std::u8string_view(p, size_t(m)))) != want) bad("(.)\\1", b, m);
	}
}
template <class F> void everything(unsigned part, unsigned parts, int full, int reps, F && f) {
	if (!part) f(reinterpret_cast<const unsigned char *>(""), 0);
	for (int n = 1; n <= full; ++n) { std::vector<std::vector<unsigned char>> pl(size_t(n), every()); pl[0] = every(part, parts); sequences(pl, f); }
	for (int n = full + 1; n <= reps; ++n) { std::vector<std::vector<unsigned char>> pl(size_t(n), edge); pl[0] = n == 4 ? every(part, parts) : std::vector<unsigned char>(); if (pl[0].empty()) for (size_t i = part; i < edge.size(); i += parts) pl[0].push_back(edge[i]); if (n == 4) pl[1] = every(); if (!pl[0].empty()) sequences(pl, f); }
	for (uint32_t v = part; v < 0x110000; v += parts) if (v < 0xD800 || v > 0xDFFF) { unsigned char b[4]; int n = encode(v, b); f(b, n); }
}
