// Exhaustive driver: every pattern of the table x every operation x every subject of its domain,
// real library against the reference model (the model itself is compared with PCRE2 by refcheck.cpp).
#include "harness.hpp"
#include "ref.hpp"
#include <csignal>
#include <cstring>
#include <set>
#include <string>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/time.h>

extern const entry table[]; extern const size_t table_n; extern const domain domains[];

static char cur[4096]; static int cur_n = 0;
static const char * opname[] = {"match", "search", "starts_with", "search_all", "split", "tokenize"};
static std::string show(const std::string & s) {
	std::string r; char b[8];
	for (unsigned char c: s) if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	return r;
}
static void note(size_t i, const entry & e, int op, const std::string & subj) {
	cur_n = snprintf(cur, sizeof cur, "%zu\t%s\t%u\t%s\t%s", i, show(std::string(e.pattern, e.length)).c_str(), e.flags, opname[op], show(subj).c_str());
}
static void on_signal(int sig) {
	const char * w = sig == SIGALRM || sig == SIGVTALRM ? "HANG\t" : "CRASH\t";
	(void)!write(1, "\n", 1); (void)!write(1, w, strlen(w)); (void)!write(1, cur, size_t(cur_n)); (void)!write(1, "\n", 1);
	_exit(7);
}
static std::string str(const ref::result & r, int groups) {
	if (!r.ok) return "no match";
	std::string s = "match"; char b[40];
	for (int i = 0; i <= groups && i < int(HMAXG); ++i) { if (r.cap[i][0] < 0) snprintf(b, sizeof b, " %d:unset", i); else snprintf(b, sizeof b, " %d:[%d,%d)", i, r.cap[i][0], r.cap[i][1]); s += b; }
	return s;
}
static ref::result conv(const outcome & o) { ref::result r; r.ok = o.ok; for (unsigned i = 0; i < HMAXG; ++i) r.cap[i][0] = o.cap[i][0], r.cap[i][1] = o.cap[i][1]; return r; }
using rlist = std::vector<ref::result>;
static std::string str(const rlist & l, int groups) { std::string s; for (auto & r: l) s += (s.empty() ? "" : "; ") + str(r, groups); return l.empty() ? "(nothing)" : s; }
static bool same(const trace & t, const rlist & r, int groups) {
	if (t.broken || t.overlong || t.items.size() != r.size()) return false;
	for (size_t i = 0; i < r.size(); ++i) {
		if (t.items[i].ok != r[i].ok) return false;
		if (r[i].ok) for (int g = 0; g <= groups; ++g) if (t.items[i].cap[g][0] != r[i].cap[g][0] || t.items[i].cap[g][1] != r[i].cap[g][1]) return false;
	}
	return true;
}
// code points of a UTF-8 subject and the unit each begins at
static void decode(const std::string & s, std::vector<uint32_t> & u, std::vector<int> & at) {
	for (size_t i = 0; i < s.size();) {
		auto b = [&](size_t k) { return uint32_t(static_cast<unsigned char>(s[k])); };
		at.push_back(int(i));
		uint32_t lead = b(i); unsigned need = lead >= 0xF8 ? 0 : lead >= 0xF0 ? 3 : lead >= 0xE0 ? 2 : lead >= 0xC0 ? 1 : 0, got = 0;
		uint32_t v = need == 3 ? lead & 7 : need == 2 ? lead & 15 : lead & 31;
		++i;
		while (got < need && i < s.size() && b(i) >= 0x80 && b(i) < 0xC0) v = v << 6 | (b(i++) & 63), ++got;
		if (lead < 0x80) v = lead;
		else if (need == 0 || got < need || v < (need == 1 ? 0x80u : need == 2 ? 0x800u : 0x10000u) || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) v = 0xFFFD;
		u.push_back(v);
	}
	at.push_back(int(s.size()));
}
static rlist run(ref::matcher & m, int op) {
	rlist l;
	switch (op) {
	case op_match: l.push_back(m.match()); break;
	case op_search: l.push_back(m.search()); break;
	case op_starts: l.push_back(m.starts_with()); break;
	case op_search_all: case op_split: {
		int from = 0, prev = 0; bool first = true;
		while (true) {
			if (!first && prev == m.n) break;
			ref::result r = m.search(from);
			if (!r.ok) break;
			first = false;
			int b = r.cap[0][0], e = r.cap[0][1];
			if (op == op_split) { r.cap[0][0] = prev; r.cap[0][1] = b; }
			l.push_back(r);
			prev = e; from = e + (b == e ? 1 : 0);
		}
		if (op == op_split) { ref::result r; r.ok = true; r.cap[0][0] = prev; r.cap[0][1] = m.n; l.push_back(r); }
		break;
	}
	case op_tokenize: {
		int at = 0; bool first = true;
		while (first || at != m.n) {
			ref::result r; if (!m.at(at, false, r)) break;
			first = false;
			l.push_back(r);
			if (r.cap[0][0] == r.cap[0][1]) break;
			at = r.cap[0][1];
		}
		break;
	}
	}
	return l;
}

int main(int argc, char ** argv) {
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	static char alt[1 << 16];
	stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
	long only = -1; unsigned hang_s = 20; bool guard = false;
	for (int i = 1; i < argc; ++i) {
		if (!strcmp(argv[i], "hang")) hang_s = unsigned(atoi(argv[++i]));
		else if (!strcmp(argv[i], "guard")) guard = true;
		else if (!strcmp(argv[i], "only")) only = atol(argv[++i]);
	}
	// with "guard": the subject ends right before (then: begins right behind) a page that cannot be touched
	char * low = nullptr, * page = nullptr;
	if (guard) {
		size_t pg = size_t(sysconf(_SC_PAGESIZE));
		char * m = static_cast<char *>(mmap(nullptr, 3 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (m == MAP_FAILED || mprotect(m, pg, PROT_NONE) || mprotect(m + 2 * pg, pg, PROT_NONE)) { printf("ORACLE\tmmap\n"); return 2; }
		low = m + pg; page = m + 2 * pg;
	}
	unsigned long long evals = 0, dev_other = 0, dev_ai = 0, steps = 0, matched = 0, pairs = 0, hist = 0, items = 0; size_t active = 0;
	for (size_t i = 0; i < table_n; ++i) {
		if (only >= 0 && size_t(only) != i) continue;
		const entry & e = table[i];
		std::string pat(e.pattern, e.length);
		std::vector<uint32_t> cps; for (unsigned char c: pat) cps.push_back(c);
		ref::regex re; size_t err;
		if (!ref::parse(cps, {bool(e.flags & 1), bool(e.flags & 2)}, re, &err)) { printf("ORACLE\tcannot parse %s at %zu\n", show(pat).c_str(), err); return 2; }
		ref::regex like;
		if (e.like) {
			std::vector<uint32_t> l; for (const char * c = e.like; *c; ++c) l.push_back(static_cast<unsigned char>(*c));
			if (!ref::parse(l, {bool(e.flags & 1), bool(e.flags & 2)}, like, &err)) { printf("ORACLE\tcannot parse %s at %zu\n", e.like, err); return 2; }
		}
		const domain & d = domains[e.domain];
		unsigned long long pat_ai = 0, pat_other = 0; bool distinct[2] = {false, false};
		std::vector<unsigned> idx;
		std::vector<size_t> first(d.size + 1, 0); if (d.chunk) for (size_t j = 0; j < d.size; ++j) first[j + 1] = first[j] + d.chunk[j];
		// enumerate subjects by length, then lexicographically
		for (unsigned len = 0; len <= d.maxlen; ++len) {
			idx.assign(len, 0);
			while (true) {
				std::string subj;
				for (unsigned j = 0; j < len; ++j) if (d.chunk) subj.append(d.alphabet + first[idx[j]], d.chunk[idx[j]]); else subj += d.alphabet[idx[j]];
				std::vector<uint32_t> u; std::vector<int> unit_of;
				const std::string seen = e.zero ? std::string(subj.c_str()) : subj;
				if (e.utf8) decode(seen, u, unit_of); else for (unsigned char c: seen) u.push_back(c);
				ref::matcher full(re, u.data(), int(u.size())), ai(e.like ? like : re, u.data(), int(u.size()), !e.like);
				++pairs;
				for (int op = 0; op < op_count; ++op) {
					exec_fn fn = e.fn[op];
					if (!fn) continue;
					note(i, e, op, subj);
					rlist want;
					try { want = run(full, op); } catch (ref::too_long) { printf("ORACLE\tstep limit %s\n", cur); return 2; }
					if (e.utf8) for (auto & r: want) for (auto & c: r.cap) for (int & x: c) if (x >= 0) x = unit_of[size_t(x)];
					for (int side = 0; side < (guard ? 2 : 1); ++side) {
					trace got;
					sv real(subj.data(), subj.size());
					if (guard) {
						size_t n = subj.size() + (e.zero ? 1 : 0); char * at = side ? low : page - n;
						memcpy(at, subj.c_str(), n); real = sv(at, subj.size());
						if (side) memset(at + n, 'a', 8); else memset(at - 8, 'a', 8);
					}
					itimerval tv{}; // a CPU-time watchdog around the real calls
					if (evals % 64 == 0) { tv.it_value.tv_sec = hang_s; setitimer(ITIMER_VIRTUAL, &tv, nullptr); }
					fn(real, got);
					++evals; hist += got.histories; items += want.size();
					if (!want.empty() && want[0].ok) { ++matched; distinct[1] = true; } else distinct[0] = true;
					const char * bad_groups = nullptr;
					for (auto & o: got.items) if (o.groups != int(re.groups)) bad_groups = "wrong number of groups";
					if (e.known == 2 ? got.overlong || got.broken : bad_groups || !same(got, want, int(re.groups))) {
						rlist alt_want;
						bool is_ai = false;
						if (!bad_groups && e.known == 1) { try { alt_want = run(ai, op); is_ai = same(got, alt_want, int(re.groups)); } catch (ref::too_long) { } }
						if ((is_ai ? pat_ai : pat_other)++ < 2) {
							rlist g; for (auto & o: got.items) g.push_back(conv(o));
							printf("%s\t%s\t%s\t%s%s%s\n", is_ai ? "AI" : "DEV", cur, str(want, int(re.groups)).c_str(), bad_groups ? bad_groups : got.broken ? got.broken : got.overlong ? "does not end: " : "", bad_groups || got.broken ? ": " : "", str(g, int(re.groups)).c_str());
						}
					}
					}
				}
				steps += full.steps;
				int j = int(len) - 1;
				while (j >= 0 && ++idx[size_t(j)] == d.size) idx[size_t(j--)] = 0;
				if (j < 0) break;
			}
		}
		if (distinct[0] && distinct[1]) ++active;
		dev_ai += pat_ai; dev_other += pat_other;
		if (pat_ai) printf("KNOWN\t%zu\t%s\t%u\t%llu\n", i, show(pat).c_str(), e.flags, pat_ai);
	}
	printf("SUMMARY\tpatterns=%zu\tboth_outcomes=%zu\tpairs=%llu\tevals=%llu\tmatched=%llu\titems=%llu\thistories=%llu\tsteps=%llu\tdev=%llu\tai=%llu\n", only >= 0 ? size_t(1) : table_n, active, pairs, evals, matched, items, hist, steps, dev_other, dev_ai);
	return 0;
}
