// Reference-side analysis of candidate patterns (never touches the library):
//  * does the reference parser accept the pattern,
//  * is the known limitation (loop bodies are never re-entered) observable on the given domain,
//  * does the reference matcher agree with PCRE2 on every subject of the domain,
//  * how much work the pattern is.
// stdin lines: flags \t alphabet(hex) \t maxlen \t pattern(hex) \t limit
#define PCRE2_CODE_UNIT_WIDTH 32
#include <pcre2.h>
#include "ref.hpp"
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
static std::string unhex(const std::string & h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(char(std::stoi(h.substr(i, 2), nullptr, 16))); return r; }
static bool eq(const ref::result & a, const ref::result & b, unsigned g) {
	if (a.ok != b.ok) return false;
	if (a.ok) for (unsigned i = 0; i <= g; ++i) if (a.cap[i][0] != b.cap[i][0] || a.cap[i][1] != b.cap[i][1]) return false;
	return true;
}
int main() {
	std::string line;
	while (std::getline(std::cin, line)) {
		std::stringstream ss(line); std::string f, al, ml, ph, lim;
		std::getline(ss, f, '\t'); std::getline(ss, al, '\t'); std::getline(ss, ml, '\t'); std::getline(ss, ph, '\t'); std::getline(ss, lim, '\t');
		unsigned flags = unsigned(std::stoul(f)); std::string alphabet = unhex(al), pat = unhex(ph); unsigned maxlen = unsigned(std::stoul(ml));
		std::vector<uint32_t> cps; for (unsigned char c: pat) cps.push_back(c);
		ref::regex re; size_t err = 0;
		if (!ref::parse(cps, {bool(flags & 1), bool(flags & 2)}, re, &err)) { printf("reject %zu\n", err); continue; }
		if (re.groups >= ref::MAXG) { printf("groups\n"); continue; }
		pcre2_code * pc = nullptr; pcre2_match_data * md = nullptr;
		bool zline = pat.find("\\Z") != std::string::npos && !(flags & 2);
		if (!re.nullable_loop && !re.has_mode && !zline) {
			int ec; PCRE2_SIZE eo; uint32_t fl = PCRE2_NEVER_UTF | PCRE2_ALLOW_EMPTY_CLASS;
			if (flags & 1) fl |= PCRE2_CASELESS;
			if (flags & 2) fl |= PCRE2_MULTILINE | PCRE2_ALT_CIRCUMFLEX; else fl |= PCRE2_DOTALL | PCRE2_DOLLAR_ENDONLY;
			pc = pcre2_compile(cps.data(), cps.size(), fl, &ec, &eo, nullptr);
			if (pc) md = pcre2_match_data_create(16, nullptr);
		}
		unsigned long long div = 0, bad = 0, cmp = 0, matched = 0, steps = 0, worst = 0; bool heavy = false; std::string ex, exb;
		uint64_t limit = lim.empty() ? 200000 : std::stoull(lim);
		std::vector<unsigned> idx;
		for (unsigned len = 0; len <= maxlen && !heavy; ++len) {
			idx.assign(len, 0);
			while (!heavy) {
				std::vector<uint32_t> u(len);
				for (unsigned j = 0; j < len; ++j) u[j] = static_cast<unsigned char>(alphabet[idx[j]]);
				ref::matcher full(re, u.data(), int(len)), ai(re, u.data(), int(len), true);
				full.limit = ai.limit = limit;
				for (int op = 0; op < 3 && !heavy; ++op) {
					try {
						ref::result a = op == 0 ? full.match() : op == 1 ? full.search() : full.starts_with();
						ref::result b = op == 0 ? ai.match() : op == 1 ? ai.search() : ai.starts_with();
						if (a.ok) ++matched;
						if (!eq(a, b, re.groups)) { if (!div++) { for (auto c: u) ex += char(c); } }
						if (pc) {
							uint32_t mo = op == 0 ? PCRE2_ANCHORED | PCRE2_ENDANCHORED : op == 2 ? PCRE2_ANCHORED : 0;
							int rc = pcre2_match(pc, u.data(), len, 0, mo, md, nullptr);
							if (rc == PCRE2_ERROR_NOMATCH || rc > 0) {
								++cmp;
								PCRE2_SIZE * ov = pcre2_get_ovector_pointer(md);
								ref::result p; p.ok = rc > 0;
								for (int g = 0; g < rc; ++g) if (ov[2 * g] != PCRE2_UNSET) p.cap[g][0] = int(ov[2 * g]), p.cap[g][1] = int(ov[2 * g + 1]);
								if (!eq(a, p, re.groups)) { if (!bad++) { exb = std::to_string(op) + ":"; for (auto c: u) exb += char(c); } }
							}
						}
					} catch (ref::too_long) { heavy = true; }
				}
				steps += full.steps; if (full.steps > worst) worst = full.steps;
				int j = int(len) - 1;
				while (j >= 0 && ++idx[size_t(j)] == alphabet.size()) idx[size_t(j--)] = 0;
				if (j < 0) break;
			}
		}
		if (md) pcre2_match_data_free(md);
		if (pc) pcre2_code_free(pc);
		if (heavy) { printf("heavy\n"); continue; }
		auto hex = [](const std::string & s) { std::string r; char b[4]; for (unsigned char c: s) { snprintf(b, 4, "%02x", c); r += b; } return r; };
		printf("ok div=%llu bad=%llu cmp=%llu matched=%llu steps=%llu worst=%llu groups=%u nullable_loop=%d ex=%s exb=%s\n", div, bad, cmp, matched, steps, worst, re.groups, int(re.nullable_loop), hex(ex).c_str(), hex(exb).c_str());
	}
}
