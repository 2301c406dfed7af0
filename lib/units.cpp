// Every code unit value of every character type against every listed one-unit pattern.
// The table (generated) gives the real matcher for char, char16_t, char32_t, wchar_t and char8_t subjects.
#include "units.hpp"
#include "ref.hpp"
#include <cstring>
static std::string hex(const urow & r) { std::string s; char b[16]; for (size_t i = 0; i < r.n; ++i) { if (r.text[i] >= 32 && r.text[i] < 127) s += char(r.text[i]); else { snprintf(b, 16, "<%x>", unsigned(r.text[i])); s += b; } } return s; }
static unsigned long long evals = 0, members = 0, dev = 0;
static size_t both = 0;
int main(int argc, char ** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	for (size_t i = 0; i < utable_n; ++i) {
		const urow & r = utable[i];
		std::vector<uint32_t> cps(r.text, r.text + r.n);
		ref::regex re; size_t err;
		if (!ref::parse(cps, {bool(r.flags & 1), bool(r.flags & 2)}, re, &err)) { printf("ORACLE\tcannot parse %s at %zu\n", hex(r).c_str(), err); return 2; }
		auto want = [&](uint32_t v) { ref::matcher m(re, &v, 1); return m.match().ok; };
		unsigned bad = 0; unsigned long long in = 0, total = 0;
		auto report = [&](const char * type, uint32_t v, bool w, bool g) { ++dev; if (bad++ < 2) printf("DEV\t%zu\t%s\t%u\t%s\t0x%x\t%s\t%s\n", i, hex(r).c_str(), r.flags, type, v, w ? "match" : "no match", g ? "match" : "no match"); };
		auto one = [&](uint32_t v) {
			bool w = want(v); in += w; ++total;
			if (v < 0x100 && r.f8) { char c = char(v); bool g = r.f8({&c, 1}); ++evals; if (g != w) report("char", v, w, g); }
			if (v < 0x10000 && r.f16) { char16_t c = char16_t(v); bool g = r.f16({&c, 1}); ++evals; if (g != w) report("char16_t", v, w, g); }
			if (r.f32) { char32_t c = v; bool g = r.f32({&c, 1}); ++evals; if (g != w) report("char32_t", v, w, g); }
			if (r.fw) { wchar_t c = wchar_t(v); bool g = r.fw({&c, 1}); ++evals; if (g != w) report("wchar_t", v, w, g); }
			if (r.fu8 && v < 0x110000 && (v < 0xD800 || v > 0xDFFF)) {
				char8_t b[4]; size_t n = 0;
				if (v < 0x80) b[n++] = char8_t(v);
				else if (v < 0x800) { b[n++] = char8_t(0xC0 | v >> 6); b[n++] = char8_t(0x80 | (v & 63)); }
				else if (v < 0x10000) { b[n++] = char8_t(0xE0 | v >> 12); b[n++] = char8_t(0x80 | (v >> 6 & 63)); b[n++] = char8_t(0x80 | (v & 63)); }
				else { b[n++] = char8_t(0xF0 | v >> 18); b[n++] = char8_t(0x80 | (v >> 12 & 63)); b[n++] = char8_t(0x80 | (v >> 6 & 63)); b[n++] = char8_t(0x80 | (v & 63)); }
				bool g = r.fu8({b, n}); ++evals; if (g != w) report("char8_t", v, w, g);
			}
		};
		for (uint32_t v = 0; v < 0x110000; ++v) one(v);
		for (uint32_t v = 0x110000; v < 0x110200; ++v) one(v);
		for (uint32_t hi: {0x00200000u, 0x01000000u, 0x7FFFFF00u, 0x80000000u, 0x80FFFF00u, 0xFF000000u, 0xFFFF0000u, 0xFFFFFF00u}) for (uint32_t lo = 0; lo < 0x100; ++lo) one(hi + lo);
		members += in; if (in && in != total) ++both;
	}
	printf("SUMMARY\tpatterns=%zu\tboth=%zu\tevals=%llu\tmembers=%llu\tdev=%llu\n", utable_n, both, evals, members, dev);
	(void)argc; (void)argv;
}
