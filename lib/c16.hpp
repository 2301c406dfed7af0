// The text of a pattern: every unit sequence of the stated shapes through ctll::fixed_string.
#include <ctre.hpp>
#include "special.hpp"
#include <array>
#include <cstdlib>
enum verdict { good, flagged, unclaimed };
struct text { char32_t cp[16]; size_t n = 0; verdict v = good; };
// UTF-8: well-formed text decodes, a misplaced, missing or wrong continuation is flagged; longer leads, overlong forms and
// surrogates are not claimed
inline text utf8(const unsigned char * s, size_t n) {
	text t;
	for (size_t i = 0; i < n;) {
		uint32_t l = s[i++];
		if (l < 0x80) { t.cp[t.n++] = l; continue; }
		if (l < 0xC0) { t.v = flagged; return t; }
		if (l >= 0xF8) { t.v = unclaimed; return t; }
		int k = l < 0xE0 ? 1 : l < 0xF0 ? 2 : 3; uint32_t v = k == 1 ? l & 31 : k == 2 ? l & 15 : l & 7;
		for (int j = 0; j < k; ++j) { if (i == n || (s[i] & 0xC0) != 0x80) { t.v = flagged; return t; } v = v * 64 + (s[i++] - 0x80u); }
		if (v < (k == 1 ? 0x80u : k == 2 ? 0x800u : 0x10000u) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) t.v = unclaimed;
		t.cp[t.n++] = v;
	}
	return t;
}
inline text utf16(const char16_t * s, size_t n) {
	text t;
	for (size_t i = 0; i < n;) {
		uint32_t h = s[i++];
		if (h < 0xD800 || h > 0xDFFF) { t.cp[t.n++] = h; continue; }
		if (h >= 0xDC00 || i == n || s[i] < 0xDC00 || s[i] > 0xDFFF) { t.v = flagged; return t; }
		t.cp[t.n++] = 0x10000 + ((h - 0xD800) << 10) + (s[i++] - 0xDC00u);
	}
	return t;
}
template <class C> text plain(const C * s, size_t n) { text t; for (size_t i = 0; i < n; ++i) t.cp[t.n++] = char32_t(std::make_unsigned_t<C>(s[i])); return t; }
template <class C> text meaning(const C * s, size_t n) {
	if constexpr (std::is_same_v<C, char16_t>) return utf16(s, n);
	else if constexpr (std::is_same_v<C, char>)
#ifdef CTRE_STRING_IS_UTF8
		return utf8(reinterpret_cast<const unsigned char *>(s), n);
#else
		return plain(s, n);
#endif
#ifdef __cpp_char8_t
	else if constexpr (std::is_same_v<C, char8_t>) return utf8(reinterpret_cast<const unsigned char *>(s), n);
#endif
	else if constexpr (sizeof(C) == 4) { text t; for (size_t i = 0; i < n; ++i) t.cp[t.n++] = char32_t(s[i]); return t; }
}
template <class C> std::string units(const C * s, size_t n) { std::string r = sizeof(C) == 1 ? std::is_same_v<C, char> ? "char" : "char8_t" : sizeof(C) == 2 ? "char16_t" : std::is_same_v<C, wchar_t> ? "wchar_t" : "char32_t"; char b[16]; for (size_t i = 0; i < n; ++i) { snprintf(b, 16, " %X", unsigned(std::make_unsigned_t<C>(s[i]))); r += b; } return r; }
inline std::string show(const text & t) { std::string r = t.v == flagged ? "flagged" : "code points"; char b[16]; if (t.v == good) for (size_t i = 0; i < t.n; ++i) { snprintf(b, 16, " U+%04X", unsigned(t.cp[i])); r += b; } return r; }
template <class F> bool holds(const F & f, const text & t) {
	if (t.v == unclaimed) return true;
	if (t.v == flagged) return !f.correct();
	if (!f.correct() || f.size() != t.n || f.end() != f.begin() + t.n) return false;
	for (size_t i = 0; i < t.n; ++i) if (f[i] != t.cp[i] || f.begin()[i] != t.cp[i]) return false;
	return std::basic_string_view<char32_t>(f) == std::basic_string_view<char32_t>(t.cp, t.n);
}
// one sequence of N units
template <size_t N, class C> void one(const C * s, bool deep) {
	C a[N + 1]; for (size_t i = 0; i < N; ++i) a[i] = s[i]; a[N] = C(0);
	const C (&lit)[N + 1] = a;
	const text t = meaning(s, N);
	++sp::states; ++sp::execs; ++sp::steps;
	auto bad = [&](const char * how) { sp::dev(std::string(how) + std::to_string(sizeof(C)), units(s, N) + " as " + how + ": expected " + show(t)); };
	const ctll::fixed_string f(lit);
	if (!holds(f, t)) bad("pattern text");
	if (!deep) return;
	static_assert(std::is_same_v<decltype(f), const ctll::fixed_string<N>>);
	auto copy = f; if (!holds(copy, t)) bad("copy");
	std::array<C, N> arr; for (size_t i = 0; i < N; ++i) arr[i] = s[i];
	if (!holds(ctll::fixed_string(arr), t)) bad("array");
#if !CTRE_CNTTP_COMPILER_CHECK
	if (!holds(ctre::pattern(lit), t)) bad("ctre::pattern");
	if (!holds(ctre::fixed_string(lit), t)) bad("ctre::fixed_string");
#endif
	if (t.v != good) return;
	if (!f.is_same_as(copy)) bad("comparison with a copy");
	// against every text that differs in one code point or in the length
	for (size_t i = 0; i < t.n; ++i) for (uint32_t x: {1u, 0x80u, 0x100u, 0x10000u}) { char32_t b[N + 2] = {}; for (size_t j = 0; j < t.n; ++j) b[j] = t.cp[j]; b[i] ^= x; if (t.n == N) { ctll::fixed_string<N> g(*reinterpret_cast<const char32_t (*)[N + 1]>(b)); if (f.is_same_as(g) || g.is_same_as(f)) bad("comparison with another text"); } }
	{ char32_t b[N + 2] = {}; for (size_t j = 0; j < t.n; ++j) b[j] = t.cp[j]; const char32_t (&lb)[N + 2] = b; ctll::fixed_string longer(lb); if (longer.size() == N + 1 && (f.is_same_as(longer) || longer.is_same_as(f)) ) bad("comparison with a longer text");
	  if (t.n == N) { const char32_t (&lc)[N + 1] = *reinterpret_cast<const char32_t (*)[N + 1]>(b); ctll::fixed_string same(lc); if (!same.is_same_as(f) || !f.is_same_as(same)) bad("comparison with the same text in UTF-32"); }
	  if constexpr (N > 1) if (t.n == N) { char32_t d[N] = {}; for (size_t j = 0; j + 1 < N; ++j) d[j] = t.cp[j]; ctll::fixed_string<N - 1> shorter(*reinterpret_cast<const char32_t (*)[N]>(d)); if (f.is_same_as(shorter) || shorter.is_same_as(f)) bad("comparison with a shorter text"); } }
}
template <class C> void any(const C * s, size_t n, bool deep = true) {
	switch (n) { case 1: one<1>(s, deep); break; case 2: one<2>(s, deep); break; case 3: one<3>(s, deep); break; case 4: one<4>(s, deep); break; case 5: one<5>(s, deep); break; case 6: one<6>(s, deep); break; case 7: one<7>(s, deep); break; case 8: one<8>(s, deep); break; }
}
// all sequences of n units of the alphabet
template <class C> void all(const std::vector<C> & alphabet, size_t n, bool deep, unsigned part = 0, unsigned parts = 1) {
	std::vector<size_t> idx(n, 0); idx[0] = part; if (part >= alphabet.size()) return;
	C s[8];
	while (true) {
		for (size_t i = 0; i < n; ++i) s[i] = alphabet[idx[i]];
		any(s, n, deep);
		size_t j = n - 1;
		while (true) { idx[j] += j ? 1 : parts; if (idx[j] < alphabet.size()) break; if (!j) return; idx[j] = 0; --j; }
	}
}
template <class C> std::vector<C> bytes() { std::vector<C> v; for (unsigned i = 0; i < 256; ++i) v.push_back(C(i)); return v; }
template <class C> void utf8_texts(unsigned part, unsigned parts, bool thorough) {
	const unsigned char e[] = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC2, 0xC3, 0xDF, 0xE0, 0xE2, 0xED, 0xEF, 0xF0, 0xF4};
	std::vector<C> edge; for (auto x: e) edge.push_back(C(x));
	std::vector<C> few{C(0x41), C(0x80), C(0xA0), C(0xC3), C(0xE2), C(0xF0), C(0)};
	all(bytes<C>(), 1, true, part, parts); all(bytes<C>(), 2, true, part, parts); all(bytes<C>(), 3, false, part, parts);
	all(edge, 4, true, part, parts); all(edge, 5, false, part, parts); all(few, 6, true, part, parts); all(few, 7, false, part, parts);
	if (thorough) { all(edge, 6, false, part, parts); all(few, 8, true, part, parts); }
	for (uint32_t v = part; v < 0x110000; v += parts) { // one code point, alone and between others
		if (v >= 0xD800 && v < 0xE000) continue;
		C b[8]; size_t n = 0; b[n++] = C('x');
		if (v < 0x80) b[n++] = C(v); else { if (v < 0x800) b[n++] = C(0xC0 | v >> 6); else { if (v < 0x10000) b[n++] = C(0xE0 | v >> 12); else { b[n++] = C(0xF0 | v >> 18); b[n++] = C(0x80 | (v >> 12 & 63)); } b[n++] = C(0x80 | (v >> 6 & 63)); } b[n++] = C(0x80 | (v & 63)); }
		b[n] = C(0xC3); b[n + 1] = C(0xA9);
		any(b + 1, n - 1, v % 16 == part); any(b, n + 2, false);
	}
}
inline void utf16_texts(unsigned part, unsigned parts, bool thorough) {
	const std::vector<char16_t> edge{0, 0x41, 0x7FF, 0xD7FF, 0xD800, 0xD801, 0xD83D, 0xDBFF, 0xDC00, 0xDC01, 0xDE00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF};
	std::vector<char16_t> every; for (unsigned i = 0; i < 0x10000; ++i) every.push_back(char16_t(i));
	all(every, 1, true, part, parts);
	for (size_t i = part; i < 0x10000; i += parts) for (char16_t x: edge) { char16_t a[2] = {char16_t(i), x}, b[2] = {x, char16_t(i)}; any(a, 2); any(b, 2, false); }
	for (uint32_t v = 0x10000 + part; v < 0x110000; v += parts) { char16_t a[4] = {char16_t(0xD800 + ((v - 0x10000) >> 10)), char16_t(0xDC00 + (v & 0x3FF)), 'x', 0}; any(a, 2, v % 16 == part); any(a, 3, false); }
	all(edge, 3, true, part, parts); all(edge, 4, true, part, parts); if (thorough) all(edge, 5, false, part, parts);
}
template <class C> void utf32_texts(unsigned part, unsigned parts) {
	const std::vector<C> edge{C(0), C(0x41), C(0x80), C(0xFF), C(0x100), C(0xD800), C(0xDFFF), C(0xFFFD), C(0x10000), C(0x10FFFF), C(0x110000), C(0x7FFFFFFF), C(0x80000000u), C(0xFFFFFFFFu)};
	for (uint32_t v = part; v < 0x110000; v += parts) { C a[3] = {C(v), C('x'), C(0)}; any(a, 1, v % 16 == part); any(a, 2, false); }
	for (size_t n = 1; n <= 4; ++n) all(edge, n, true, part, parts);
}
template <class C> void plain_texts(unsigned part, unsigned parts) {
	std::vector<C> edge{C(0), C('a'), C('\\'), C(0x7F), C(0x80), C(0xC3), C(0xE2), C(0xFF)};
	all(bytes<C>(), 1, true, part, parts); all(bytes<C>(), 2, true, part, parts); all(bytes<C>(), 3, false, part, parts);
	for (size_t n = 4; n <= 6; ++n) all(edge, n, n < 6, part, parts);
}
inline void empties() {
	++sp::states; ++sp::execs;
	constexpr ctll::fixed_string a(""), b(L""), c(u""), d(U"");
	static_assert(std::is_same_v<decltype(a), const ctll::fixed_string<0>>);
	for (bool x: {a.correct() && a.size() == 0 && a.begin() == a.end(), b.correct() && b.size() == 0, c.correct() && c.size() == 0, d.correct() && d.size() == 0 && std::basic_string_view<char32_t>(d).empty()}) if (!x) sp::dev("empty", "the empty pattern text");
	ctll::fixed_string<1> e("x"); const auto f = a; if (e.is_same_as(f) || f.size() != 0) sp::dev("empty", "comparison with the empty pattern text");
}
