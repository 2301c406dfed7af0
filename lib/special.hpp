// Common part of the hand-written exhaustive drivers: reporting, crash and hang reports, enumeration of subjects.
#pragma once
#include "ref.hpp"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <unistd.h>
#include <sys/time.h>

namespace sp {
inline char now[4096]; inline int now_n = 0;
inline void at(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline void at(const char * f, ...) { va_list a; va_start(a, f); now_n = vsnprintf(now, sizeof now, f, a); va_end(a); if (now_n > int(sizeof now) - 1) now_n = int(sizeof now) - 1; }
inline void on_signal(int sig) {
	const char * w = sig == SIGVTALRM ? "HANG\t" : "CRASH\t";
	(void)!write(1, "\n", 1); (void)!write(1, w, strlen(w)); (void)!write(1, now, size_t(now_n)); (void)!write(1, "\n", 1);
	_exit(7);
}
inline void hang(unsigned s) { itimerval tv{}; tv.it_value.tv_sec = s; setitimer(ITIMER_VIRTUAL, &tv, nullptr); }
inline void start() {
	setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
	static char alt[1 << 16];
	stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	for (int s: {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
}
inline unsigned long long states = 0, execs = 0, steps = 0, devs = 0;
inline std::map<std::string, unsigned long long> extra;
inline std::string show(std::string_view s) {
	std::string r; char b[8];
	for (unsigned char c: s) if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += char(c); else { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
	return r;
}
// at most three reports for one key
inline void dev(const std::string & key, const std::string & what) {
	static std::map<std::string, int> n;
	++devs;
	if (n[key]++ < 3) { std::string w = what; for (char & c: w) if (c == '\n' || c == '\t') c = ' '; printf("DEV\t%s\t%s\n", key.c_str(), w.c_str()); }
}
inline std::map<std::string, unsigned long long> knowns;
inline void known(const std::string & key) { ++knowns[key]; }
inline int done() {
	for (auto & [k, v]: knowns) printf("KNOWN\t%s\t%llu\n", k.c_str(), v);
	printf("SUMMARY\tstates=%llu\texecs=%llu\tsteps=%llu\tdevs=%llu", states, execs, steps, devs);
	for (auto & [k, v]: extra) printf("\t%s=%llu", k.c_str(), v);
	printf("\n");
	return 0;
}
// every string over the alphabet up to a length
template <class S, class F> void strings(const S & alphabet, unsigned maxlen, F && f) {
	std::vector<unsigned> idx; S s;
	for (unsigned len = 0; len <= maxlen; ++len) {
		idx.assign(len, 0);
		while (true) {
			s.resize(len);
			for (unsigned j = 0; j < len; ++j) s[j] = alphabet[idx[j]];
			f(static_cast<const S &>(s));
			int j = int(len) - 1;
			while (j >= 0 && ++idx[size_t(j)] == alphabet.size()) idx[size_t(j--)] = 0;
			if (j < 0) break;
		}
	}
}
// reference matchers for a pattern
struct model {
	ref::regex re; std::vector<uint32_t> cps;
	explicit model(std::string_view p, unsigned flags = 0) {
		for (unsigned char c: p) cps.push_back(c);
		size_t err;
		if (!ref::parse(cps, {bool(flags & 1), bool(flags & 2)}, re, &err)) { printf("ORACLE\tcannot parse %s\n", show(p).c_str()); exit(2); }
	}
	enum op { match, search, starts_with, search_all, split, tokenize };
	template <class V> std::vector<ref::result> run(int op, const V & subj) const {
		std::vector<uint32_t> u; for (auto c: subj) u.push_back(uint32_t(std::make_unsigned_t<decltype(c)>(c)));
		return run_cps(op, u);
	}
	std::vector<ref::result> run_cps(int op, const std::vector<uint32_t> & u) const {
		ref::matcher m(re, u.data(), int(u.size()));
		std::vector<ref::result> l;
		if (op == match) l.push_back(m.match()); else if (op == search) l.push_back(m.search()); else if (op == starts_with) l.push_back(m.starts_with());
		else if (op == tokenize) {
			int p = 0; bool first = true;
			while (first || p != m.n) { ref::result r; if (!m.at(p, false, r)) break; first = false; l.push_back(r); if (r.cap[0][0] == r.cap[0][1]) break; p = r.cap[0][1]; }
		} else {
			int from = 0, prev = 0; bool first = true;
			while (true) {
				if (!first && prev == m.n) break;
				ref::result r = m.search(from);
				if (!r.ok) break;
				first = false;
				int b = r.cap[0][0], e = r.cap[0][1];
				if (op == split) { r.cap[0][0] = prev; r.cap[0][1] = b; }
				l.push_back(r);
				prev = e; from = e + (b == e ? 1 : 0);
			}
			if (op == split) { ref::result r; r.ok = true; r.cap[0][0] = prev; r.cap[0][1] = m.n; l.push_back(r); }
		}
		steps += m.steps;
		return l;
	}
};
inline const char * opname[] = {"match", "search", "starts_with", "search_all", "split", "tokenize"};
inline std::string str(const ref::result & r, int groups) {
	if (!r.ok) return "no match";
	std::string s = "match"; char b[40];
	for (int i = 0; i <= groups; ++i) { if (r.cap[i][0] < 0) snprintf(b, sizeof b, " %d:unset", i); else snprintf(b, sizeof b, " %d:[%d,%d)", i, r.cap[i][0], r.cap[i][1]); s += b; }
	return s;
}
inline std::string str(const std::vector<ref::result> & l, int groups) { std::string s; for (auto & r: l) s += (s.empty() ? "" : "; ") + str(r, groups); return l.empty() ? "(nothing)" : s; }
inline bool same(const ref::result & a, const ref::result & b) {
	if (a.ok != b.ok) return false;
	if (a.ok) for (unsigned i = 0; i < ref::MAXG; ++i) if (a.cap[i][0] != b.cap[i][0] || a.cap[i][1] != b.cap[i][1]) return false;
	return true;
}
inline bool same(const std::vector<ref::result> & a, const std::vector<ref::result> & b) {
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false;
	return true;
}
// positions as distances from the beginning, counted by stepping (works for every iterator category)
template <class B, class I> int dist(B b, I i) { int n = 0; while (!(b == i)) { ++b; if (++n > 1000) return -999; } return n; }
template <class R, class B, size_t... I> ref::result take(const R & r, B b, std::index_sequence<I...>) {
	ref::result o; o.ok = bool(r);
	if (o.ok) ((r.template get<I>() ? (void)(o.cap[I][0] = dist(b, r.template get<I>().begin()), o.cap[I][1] = dist(b, r.template get<I>().end())) : void()), ...);
	return o;
}
template <class R, class B> ref::result take(const R & r, B b) { return take(r, b, std::make_index_sequence<R::count()>{}); }
}
