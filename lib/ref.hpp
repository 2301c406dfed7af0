// Reference model of the documented regular-expression semantics.
// Deliberately boring: an AST built by a recursive-descent parser and a continuation-passing
// backtracking matcher over an array of code values. Shares no code with the library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <memory>
#include <string>
#include <utility>
#include <vector>

namespace ref {

struct flags { bool icase = false; bool multiline = false; };

enum class cls { digit, word, space, hspace, vspace, alnum, alpha, ascii, blank, cntrl, graph, lower, print, punct, upper, xdigit };

inline bool in_cls(cls c, uint32_t v) {
	auto dig = [&] { return v >= '0' && v <= '9'; };
	auto up = [&] { return v >= 'A' && v <= 'Z'; };
	auto lo = [&] { return v >= 'a' && v <= 'z'; };
	switch (c) {
	case cls::digit: return dig();
	case cls::word: return dig() || up() || lo() || v == '_';
	case cls::space: return v == ' ' || (v >= 9 && v <= 13);
	case cls::hspace: return v == 9 || v == 0x20 || v == 0xA0 || v == 0x1680 || v == 0x180E || (v >= 0x2000 && v <= 0x200A) || v == 0x202F || v == 0x205F || v == 0x3000;
	case cls::vspace: return (v >= 10 && v <= 13) || v == 0x85 || v == 0x2028 || v == 0x2029;
	case cls::alnum: return dig() || up() || lo();
	case cls::alpha: return up() || lo();
	case cls::ascii: return v < 128;
	case cls::blank: return v == ' ' || v == 9;
	case cls::cntrl: return v < 32 || v == 127;
	case cls::graph: return v > 32 && v < 127;
	case cls::lower: return lo();
	case cls::print: return v >= 32 && v < 127;
	case cls::punct: return v > 32 && v < 127 && !dig() && !up() && !lo();
	case cls::upper: return up();
	case cls::xdigit: return dig() || (v >= 'a' && v <= 'f') || (v >= 'A' && v <= 'F');
	}
	return false;
}

// property hook: name (text between the braces) -> predicate; set by checks that use \p{..}
inline std::function<bool(const std::string &, uint32_t)> property_hook;

struct item { // one member of a character class
	enum { range, klass, prop } kind = range;
	uint32_t lo = 0, hi = 0;
	cls c = cls::digit;
	bool neg = false;
	std::string name;
	bool plain(uint32_t v) const {
		if (kind == range) return v >= lo && v <= hi;
		if (kind == klass) return in_cls(c, v);
		return property_hook ? property_hook(name, v) : false;
	}
	bool has(uint32_t v, bool icase) const {
		bool r = plain(v);
		if (!r && icase && kind != prop && in_cls(cls::alpha, v)) r = plain(v ^ 0x20);
		return r != neg;
	}
};

enum class kind { empty, chars, any, seq, alt, rep, cap, backref, look, atomic, bol, eol, sbegin, send, sendline, wordb, nwordb };
enum class greed { greedy, lazy, possessive };

struct node;
using np = std::unique_ptr<node>;
struct node {
	kind k;
	std::vector<item> items; bool neg = false; // chars
	std::vector<np> sub;
	unsigned min = 0, max = 0; bool inf = false; greed g = greedy_default(); // rep
	static greed greedy_default() { return greed::greedy; }
	unsigned id = 0; std::string name; // cap / backref
	bool behind = false; // look
	bool icase = false, multiline = false; // flags in force at this node
	explicit node(kind kk): k(kk) {}
};

struct syntax_error { size_t pos; };

struct regex {
	np root;
	unsigned groups = 0;
	std::vector<std::pair<std::string, unsigned>> names;
	bool nullable_loop = false;   // some loop body can match the empty string
	bool has_backref = false, has_look = false, has_behind = false, has_atomic = false, has_mode = false;
};

struct parser {
	const std::vector<uint32_t> & s; size_t p = 0; regex & out; flags f;
	parser(const std::vector<uint32_t> & str, regex & o, flags fl): s(str), out(o), f(fl) {}
	bool end() const { return p >= s.size(); }
	uint32_t peek(size_t o = 0) const { return p + o < s.size() ? s[p + o] : 0xFFFFFFFFu; }
	bool eat(uint32_t c) { if (!end() && s[p] == c) { ++p; return true; } return false; }
	[[noreturn]] void fail() const { throw syntax_error{p}; }
	void need(uint32_t c) { if (!eat(c)) fail(); }
	np mk(kind k) { np n = std::make_unique<node>(k); n->icase = f.icase; n->multiline = f.multiline; return n; }

	np alternation() {
		std::vector<np> alts;
		alts.push_back(sequence());
		while (eat('|')) alts.push_back(sequence());
		if (alts.size() == 1) return std::move(alts[0]);
		np n = mk(kind::alt);
		n->sub = std::move(alts);
		return n;
	}
	np sequence() {
		np n = mk(kind::seq);
		while (!end() && peek() != '|' && peek() != ')') {
			np a = atom();
			if (!a) continue; // mode switch
			a = quantified(std::move(a));
			n->sub.push_back(std::move(a));
		}
		return n;
	}
	unsigned number() {
		if (peek() < '0' || peek() > '9') fail();
		unsigned v = 0;
		while (peek() >= '0' && peek() <= '9') v = v * 10 + (s[p++] - '0');
		return v;
	}
	np quantified(np a) {
		unsigned mn, mx; bool inf = false; bool mod = true;
		if (eat('*')) mn = 0, mx = 0, inf = true;
		else if (eat('+')) mn = 1, mx = 0, inf = true;
		else if (eat('?')) mn = 0, mx = 1;
		else if (eat('{')) {
			mn = number();
			if (eat('}')) { mx = mn; mod = false; goto done; }
			need(',');
			if (eat('}')) { mx = 0; inf = true; }
			else { mx = number(); need('}'); }
		} else return a;
	done:
		np r = mk(kind::rep);
		r->min = mn; r->max = mx; r->inf = inf;
		if (mod) { if (eat('?')) r->g = greed::lazy; else if (eat('+')) r->g = greed::possessive; }
		if ((inf || mx > mn) && nullable(*a)) out.nullable_loop = true;
		if (nullable(*a) && mx > 1) out.nullable_loop = true;
		r->sub.push_back(std::move(a));
		return r;
	}
	np lit(uint32_t c) { np n = mk(kind::chars); item i; i.lo = i.hi = c; n->items.push_back(i); return n; }
	static bool hexd(uint32_t c, uint32_t & v) {
		if (c >= '0' && c <= '9') v = c - '0'; else if (c >= 'a' && c <= 'f') v = c - 'a' + 10; else if (c >= 'A' && c <= 'F') v = c - 'A' + 10; else return false;
		return true;
	}
	uint32_t hex_fixed(int n) { uint32_t r = 0; while (n--) { uint32_t d; if (!hexd(peek(), d)) fail(); ++p; r = r * 16 + d; } return r; }
	uint32_t hex_var() { uint32_t r = 0, d; if (!hexd(peek(), d)) fail(); while (hexd(peek(), d)) { ++p; r = r * 16 + d; } need('}'); return r; }
	// single-character escape; true if handled
	bool char_escape(uint32_t & v) {
		uint32_t c = peek();
		switch (c) {
		case 'n': v = 10; break; case 't': v = 9; break; case 'r': v = 13; break; case '0': v = 0; break;
		case 'a': v = 7; break; case 'e': v = 27; break; case 'f': v = 12; break;
		case 'u': ++p; if (eat('{')) v = hex_var(); else v = hex_fixed(4); return true;
		case 'x': ++p; if (eat('{')) v = hex_var(); else v = hex_fixed(2); return true;
		case '.': case '[': case ']': case '{': case '}': case '(': case ')': case '\\': case '*': case '+': case '?': case '|': case '^': case '$': case '-': case '/': case '"': case '<': case '>':
			v = c; break;
		default: return false;
		}
		++p;
		return true;
	}
	bool class_escape(item & i) {
		i.kind = item::klass;
		switch (peek()) {
		case 'd': i.c = cls::digit; break; case 'D': i.c = cls::digit; i.neg = true; break;
		case 'w': i.c = cls::word; break; case 'W': i.c = cls::word; i.neg = true; break;
		case 's': i.c = cls::space; break; case 'S': i.c = cls::space; i.neg = true; break;
		case 'v': i.c = cls::vspace; break; case 'V': i.c = cls::vspace; i.neg = true; break;
		case 'h': i.c = cls::hspace; break; case 'H': i.c = cls::hspace; i.neg = true; break;
		case 'N': i.kind = item::range; i.lo = i.hi = 10; i.neg = true; break;
		case 'p': case 'P': {
			i.kind = item::prop; i.neg = peek() == 'P'; ++p; need('{');
			while (!end() && peek() != '}') i.name.push_back(char(s[p++]));
			need('}');
			if (i.name.empty()) fail();
			return true;
		}
		default: return false;
		}
		++p;
		return true;
	}
	std::string group_name() {
		std::string n;
		auto al = [&](uint32_t c) { return in_cls(cls::alpha, c) || c == '_'; };
		if (!al(peek())) fail();
		while (in_cls(cls::word, peek())) n.push_back(char(s[p++]));
		return n;
	}
	np backref_to(unsigned id) { if (id == 0 || id > out.groups) fail(); np n = mk(kind::backref); n->id = id; out.has_backref = true; return n; }
	np atom() {
		uint32_t c = peek();
		if (c == '(') return group();
		if (c == '[') return char_class();
		if (eat('^')) return mk(kind::bol);
		if (eat('$')) return mk(kind::eol);
		if (eat('.')) return mk(kind::any);
		if (c == '*' || c == '+' || c == '?' || c == '{' || c == '}') fail();
		if (eat('\\')) {
			uint32_t v;
			if (char_escape(v)) return lit(v);
			item i;
			if (class_escape(i)) { np n = mk(kind::chars); n->items.push_back(i); return n; }
			switch (peek()) {
			case 'A': ++p; return mk(kind::sbegin);
			case 'z': ++p; return mk(kind::send);
			case 'Z': ++p; return mk(kind::sendline);
			case 'b': ++p; return mk(kind::wordb);
			case 'B': ++p; return mk(kind::nwordb);
			case 'g': {
				++p; need('{');
				if (eat('-')) { unsigned n = number(); need('}'); if (n == 0 || n > out.groups) fail(); return backref_to(out.groups + 1 - n); }
				if (peek() >= '0' && peek() <= '9') { unsigned n = number(); need('}'); return backref_to(n); }
				std::string nm = group_name(); need('}');
				for (auto & [n, id]: out.names) if (n == nm) return backref_to(id);
				fail();
			}
			default: break;
			}
			if (peek() >= '1' && peek() <= '9') { unsigned n = s[p++] - '0'; return backref_to(n); }
			fail();
		}
		++p;
		return lit(c);
	}
	np group() {
		need('(');
		flags saved = f;
		np n;
		if (eat('?')) {
			if (eat(':')) { n = alternation(); need(')'); f = saved; return n; }
			if (eat('>')) { n = mk(kind::atomic); n->sub.push_back(alternation()); out.has_atomic = true; }
			else if (eat('=')) { n = mk(kind::look); n->sub.push_back(alternation()); out.has_look = true; }
			else if (eat('!')) { n = mk(kind::look); n->neg = true; n->sub.push_back(alternation()); out.has_look = true; }
			else if (eat('<')) {
				if (peek() == '=' || peek() == '!') { n = mk(kind::look); n->neg = s[p++] == '!'; n->behind = true; n->sub.push_back(alternation()); out.has_look = out.has_behind = true; }
				else {
					n = mk(kind::cap); n->name = group_name(); need('>');
					n->id = ++out.groups;
					out.names.emplace_back(n->name, n->id);
					n->sub.push_back(alternation());
				}
			} else {
				bool any = false;
				while (!end() && peek() != ')') {
					any = true; out.has_mode = true;
					if (eat('i')) f.icase = true; else if (eat('c')) f.icase = false; else if (eat('s')) f.multiline = false; else if (eat('m')) f.multiline = true; else fail();
				}
				if (!any) fail();
				need(')');
				return nullptr;
			}
		} else {
			n = mk(kind::cap); n->id = ++out.groups; n->sub.push_back(alternation());
		}
		need(')');
		f = saved;
		return n;
	}
	bool named(item & i) {
		static const std::pair<const char *, cls> names[] = {{"alnum", cls::alnum}, {"alpha", cls::alpha}, {"ascii", cls::ascii}, {"blank", cls::blank}, {"cntrl", cls::cntrl}, {"digit", cls::digit}, {"graph", cls::graph}, {"lower", cls::lower}, {"print", cls::print}, {"punct", cls::punct}, {"space", cls::space}, {"upper", cls::upper}, {"word", cls::word}, {"xdigit", cls::xdigit}};
		if (!(peek() == '[' && peek(1) == ':')) return false;
		p += 2;
		i.kind = item::klass;
		if (eat('^')) i.neg = true;
		std::string n;
		while (in_cls(cls::alpha, peek())) n.push_back(char(s[p++]));
		need(':'); need(']');
		for (auto & [nm, c]: names) if (n == nm) { i.c = c; return true; }
		fail();
	}
	// a single character usable as a range end; false if it is something else
	bool class_char(uint32_t & v, bool & is_char, item & i) {
		is_char = true;
		if (eat('\\')) { if (char_escape(v)) return true; is_char = false; return class_escape(i); }
		if (named(i)) { is_char = false; return true; }
		if (end() || peek() == ']') return false;
		v = s[p++];
		return true;
	}
	np char_class() {
		need('[');
		np n = mk(kind::chars);
		if (eat('^')) n->neg = true;
		bool first = true;
		while (true) {
			if (end()) fail();
			if (peek() == ']') { if (first && !n->neg) fail(); ++p; break; }
			uint32_t v; bool ch; item i;
			if (!class_char(v, ch, i)) fail();
			if (!ch) { n->items.push_back(i); first = false; continue; }
			i = item{}; i.lo = i.hi = v;
			if (peek() == '-' && peek(1) != ']') {
				++p; uint32_t w; bool ch2; item j;
				if (!class_char(w, ch2, j) || !ch2) fail();
				i.hi = w;
			}
			n->items.push_back(i);
			first = false;
		}
		return n;
	}
	static bool nullable(const node & n) {
		switch (n.k) {
		case kind::chars: case kind::any: return false;
		case kind::seq: for (auto & x: n.sub) if (!nullable(*x)) return false; return true;
		case kind::alt: for (auto & x: n.sub) if (nullable(*x)) return true; return false;
		case kind::rep: return n.min == 0 || nullable(*n.sub[0]);
		case kind::cap: case kind::atomic: return nullable(*n.sub[0]);
		default: return true;
		}
	}
};

inline std::vector<uint32_t> from_utf8(const std::string & s) {
	std::vector<uint32_t> r;
	for (size_t i = 0; i < s.size();) {
		unsigned char c = static_cast<unsigned char>(s[i]);
		int n = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
		uint32_t v = n == 0 ? c : c & (0x3F >> n);
		++i;
		while (n-- && i < s.size()) v = v << 6 | (static_cast<unsigned char>(s[i++]) & 0x3F);
		r.push_back(v);
	}
	return r;
}

// returns false on a syntax error (err = position)
inline bool parse(const std::vector<uint32_t> & pattern, flags f, regex & out, size_t * err = nullptr) {
	parser p(pattern, out, f);
	try {
		out.root = p.alternation();
		if (!p.end()) p.fail();
		return true;
	} catch (const syntax_error & e) { if (err) *err = e.pos; return false; }
}

constexpr unsigned MAXG = 16;
struct result {
	bool ok = false;
	int cap[MAXG][2];
	result() { for (auto & c: cap) c[0] = c[1] = -1; }
};

struct too_long {};

template <class F> class fref; // minimal function_ref
template <class R, class... A> class fref<R(A...)> {
	void * o; R (*f)(void *, A...);
public:
	template <class F> fref(F && x): o((void *)&x), f([](void * q, A... a) -> R { return (*static_cast<std::remove_reference_t<F> *>(q))(a...); }) {}
	R operator()(A... a) const { return f(o, a...); }
};
using cont = fref<bool(int)>;

struct matcher {
	const regex & re; const uint32_t * s; int n;
	bool atomic_iterations; // emulate the known finding (loop bodies are never re-entered)
	uint64_t steps = 0, limit = 20000000;
	int cap[MAXG][2];
	matcher(const regex & r, const uint32_t * str, int len, bool ai = false): re(r), s(str), n(len), atomic_iterations(ai) { reset(); }
	void reset() { for (auto & c: cap) c[0] = c[1] = -1; }
	struct saved { int c[MAXG][2]; };
	saved save() const { saved x; for (unsigned i = 0; i < MAXG; ++i) x.c[i][0] = cap[i][0], x.c[i][1] = cap[i][1]; return x; }
	void load(const saved & x) { for (unsigned i = 0; i < MAXG; ++i) cap[i][0] = x.c[i][0], cap[i][1] = x.c[i][1]; }
	bool word(int i) const { return i >= 0 && i < n && in_cls(cls::word, s[i]); }
	static uint32_t fold(uint32_t v) { return v >= 'A' && v <= 'Z' ? v | 0x20 : v; }

	bool seq(const node & nd, size_t i, int pos, bool back, cont k) {
		if (i == nd.sub.size()) return k(pos);
		const node & x = *nd.sub[back ? nd.sub.size() - 1 - i : i];
		return m(x, pos, back, [&](int p) { return seq(nd, i + 1, p, back, k); });
	}
	bool once(const node & nd, int pos, bool back, int & endp) { return m(nd, pos, back, [&](int p) { endp = p; return true; }); }
	bool body(const node & nd, int pos, bool back, bool progress, cont k) {
		if (!atomic_iterations) return m(nd, pos, back, [&](int p) { return !(progress && p == pos) && k(p); });
		saved sv = save(); int e;
		if (m(nd, pos, back, [&](int p) { if (progress && p == pos) return false; e = p; return true; })) { if (k(e)) return true; }
		load(sv);
		return false;
	}
	bool loop(const node & nd, unsigned count, int pos, bool back, cont k) {
		const node & b = *nd.sub[0];
		if (count < nd.min) return body(b, pos, back, false, [&](int p) { return loop(nd, count + 1, p, back, k); });
		bool more = nd.inf || count < nd.max;
		auto next = [&] { return more && body(b, pos, back, true, [&](int p) { return loop(nd, count + 1, p, back, k); }); };
		if (nd.g == greed::lazy) return k(pos) || next();
		return next() || k(pos);
	}
	bool m(const node & nd, int pos, bool back, cont k) {
		if (++steps > limit) throw too_long{};
		switch (nd.k) {
		case kind::empty: return k(pos);
		case kind::chars: case kind::any: {
			int i = back ? pos - 1 : pos;
			if (i < 0 || i >= n) return false;
			if (nd.k == kind::any) { if (nd.multiline && s[i] == '\n') return false; }
			else {
				bool in = false;
				for (auto & it: nd.items) if (it.has(s[i], nd.icase)) { in = true; break; }
				if (in == nd.neg) return false;
			}
			return k(back ? pos - 1 : pos + 1);
		}
		case kind::seq: return seq(nd, 0, pos, back, k);
		case kind::alt: for (auto & x: nd.sub) if (m(*x, pos, back, k)) return true; return false;
		case kind::rep:
			if (!nd.inf && nd.min > nd.max) return false;
			if (nd.g == greed::possessive) {
				saved sv = save(); int e;
				if (loop(nd, 0, pos, back, [&](int p) { e = p; return true; }) && k(e)) return true;
				load(sv);
				return false;
			}
			return loop(nd, 0, pos, back, k);
		case kind::cap:
			return m(*nd.sub[0], pos, back, [&](int p) {
				int o0 = cap[nd.id][0], o1 = cap[nd.id][1];
				cap[nd.id][0] = back ? p : pos; cap[nd.id][1] = back ? pos : p;
				if (k(p)) return true;
				cap[nd.id][0] = o0; cap[nd.id][1] = o1;
				return false;
			});
		case kind::backref: {
			if (cap[nd.id][0] < 0) return false;
			int len = cap[nd.id][1] - cap[nd.id][0], b = back ? pos - len : pos;
			if (b < 0 || b + len > n) return false;
			for (int i = 0; i < len; ++i) {
				uint32_t x = s[b + i], y = s[cap[nd.id][0] + i];
				if (nd.icase ? fold(x) != fold(y) : x != y) return false;
			}
			return k(back ? b : b + len);
		}
		case kind::look: {
			saved sv = save(); int e;
			bool r = once(*nd.sub[0], pos, nd.behind, e);
			if (nd.neg) { load(sv); return !r && k(pos); }
			if (r && k(pos)) return true;
			load(sv);
			return false;
		}
		case kind::atomic: {
			saved sv = save(); int e;
			if (once(*nd.sub[0], pos, back, e) && k(e)) return true;
			load(sv);
			return false;
		}
		case kind::bol: return (pos == 0 || (nd.multiline && s[pos - 1] == '\n')) && k(pos);
		case kind::eol: return (pos == n || (nd.multiline && s[pos] == '\n')) && k(pos);
		case kind::sbegin: return pos == 0 && k(pos);
		case kind::send: return pos == n && k(pos);
		case kind::sendline: return (pos == n || (nd.multiline && pos == n - 1 && s[pos] == '\n')) && k(pos);
		case kind::wordb: return word(pos - 1) != word(pos) && k(pos);
		case kind::nwordb: return word(pos - 1) == word(pos) && k(pos);
		}
		return false;
	}
	// run at one start position; whole => must end at n
	bool at(int start, bool whole, result & r) {
		reset();
		int e = 0;
		if (!m(*re.root, start, false, [&](int p) { if (whole && p != n) return false; e = p; return true; })) return false;
		r.ok = true;
		r.cap[0][0] = start; r.cap[0][1] = e;
		for (unsigned i = 1; i < MAXG; ++i) r.cap[i][0] = cap[i][0], r.cap[i][1] = cap[i][1];
		return true;
	}
	result match() { result r; at(0, true, r); return r; }
	result starts_with() { result r; at(0, false, r); return r; }
	result search(int from = 0) { result r; for (int i = from; i <= n; ++i) if (at(i, false, r)) break; return r; }
};

}
