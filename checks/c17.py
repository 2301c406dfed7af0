"""Syntax. The documented grammar (lib/syntax.gram, this framework's own copy) is run as a nondeterministic pushdown
machine. (1) The library's LL(1) table is read out of the compiled code and the product of the two machines is explored
from the start to every state reachable with at most D open brackets: in each state every one of the 129 character
classes must continue one exactly when it continues the other, and the input may end in one exactly when it may end in
the other. (2) Every transition of the product is replayed on the real parser: acceptance and position. (3) Every viable
transition is completed to a shortest valid pattern which is run against the reference: what was accepted means what the
syntax says. (4) All short strings of tokens that the table accepts but whose meaning depends on the groups seen so far."""
import os, re, collections, itertools
from vlib import *
OTHER = 128

def parse_gram(path):
    sets, rules = {}, collections.OrderedDict()
    def split(s, sep):
        parts, cur, quote, i = [], [], False, 0
        while i < len(s):
            c = s[i]
            if c == '\\': cur.append(s[i:i + 2]); i += 2; continue
            if c == '"': quote = not quote
            if c == sep and not quote: parts.append(''.join(cur)); cur = []
            else: cur.append(c)
            i += 1
        return parts + [''.join(cur)]
    for line in open(path):
        line = line.rstrip('\n')
        if not line.strip() or line.startswith('#'): continue
        m = re.match(r'(\w+)=\{(.*)\}$', line)
        if m and '->' not in line: sets[m.group(1)] = frozenset(ord(x[-1]) for x in split(m.group(2), ',')); continue
        lhs, rhs = line.split('->', 1)
        for alt in split(rhs, '|'):
            seq = []
            for tok in split(alt.strip(), ','):
                tok = tok.strip()
                if tok in ('epsilon', '') or tok.startswith('['): continue
                if tok.startswith('<'): seq.append(('n', tok[1:-1]))
                elif tok == 'other': seq.append(('o',))
                elif tok.startswith('"'): seq += [('t', frozenset([ord(c)])) for c in tok[1:-1]]
                elif tok in sets: seq.append(('t', sets[tok]))
                else: seq.append(('t', frozenset([ord(tok[-1])])))
            rules.setdefault(lhs.strip(), []).append(tuple(seq))
    used = set(c for alts in rules.values() for s in alts for x in s if x[0] == 't' for c in x[1])
    other = frozenset(c for c in range(OTHER + 1) if c not in used)
    return {k: [tuple(('t', other) if x == ('o',) else x for x in s) for s in v] for k, v in rules.items()}

class Spec:
    "nondeterministic pushdown machine of the documented grammar; a configuration is the set of its possible stacks"
    def __init__(self, path):
        self.rules = parse_gram(path); self.memo = {}; self.start = frozenset([(('n', 'S'),)])
    def tops(self, stack):
        if not stack or stack[0][0] == 't': return frozenset([stack])
        r = self.memo.get(stack)
        if r is None:
            out = set()
            for alt in self.rules[stack[0][1]]: out |= self.tops(alt + stack[1:])
            r = self.memo[stack] = frozenset(out)
        return r
    def expand(self, conf): return set().union(*(self.tops(s) for s in conf))
    def step(self, conf, c): return frozenset(s[1:] for s in self.expand(conf) if s and c in s[0][1])
    def accepts(self, conf): return () in self.expand(conf)
    def depth(self, conf): return max(sum(x == ('t', frozenset([41])) for x in s) for s in conf)
    def signature(self, c): return tuple(c in x[1] for v in self.rules.values() for a in v for x in a if x[0] == 't')
    def check(self, text):
        "(accepted, position of the first character that cannot continue a valid pattern, or the length)"
        conf = self.start
        for i, ch in enumerate(text):
            n = self.step(conf, min(ord(ch), OTHER))
            if not n: return False, i
            conf = n
        return self.accepts(conf), len(text)

class Table:
    "the library's LL(1) machine"
    def __init__(self, lines):
        self.t, self.actions, self.start = {}, set(), None
        for l in lines:
            f = l.rstrip('\n').split('\x1e')
            if f[0] == 'START': self.start = tuple(f[1].split('\x1f')[1:]); continue
            if len(f) != 3: continue
            c = int(f[1])
            if c == -2: self.actions.add(f[0]); continue
            self.t.setdefault(f[0], {})[c] = tuple(f[2].split('\x1f')[1:]) if f[2].startswith('push') else f[2]
    def strip(self, st): return tuple(x for x in st if x not in self.actions)
    def step(self, st, c):
        "None: rejected; True: accepted; otherwise the next stack. Also the cells of the table that were used"
        cells = []
        for _ in range(400):
            st = st or ('ctll::empty_stack_symbol',)
            r = self.t[st[0]][c]; cells.append((st[0], c))
            if r == 'reject': return None, cells
            if r == 'accept': return True, cells
            if r == 'pop': return st[1:], cells
            st = st[1:] if r == 'epsilon' else self.strip(r) + st[1:]
        return 'loop', cells

def dump(ck):
    "reads the table out of the library; None if the internals it names no longer exist"
    exe = os.path.join(ck.dir, 'table')
    e = ck.compile(os.path.join(LIB, 'c17table.cpp'), exe, opt='-O0', link=True)
    if e: ck.notes.append('the LL(1) table cannot be read: %s' % e.split('\n')[0][:200]); return None
    r = ck.run([exe])
    if r.returncode: raise CheckError('table dump failed')
    return Table(r.stdout.split('\n'))

def product(ck, spec, tab, D):
    col = collections.defaultdict(list); syms = sorted(tab.t) if tab else []
    for c in range(OTHER + 1): col[tuple(tab.t[s].get(c) for s in syms) + spec.signature(c)].append(c)
    classes = [(35 if 35 in k else 97 if 97 in k else max(k), k) for k in col.values()]
    seen = {}; q = collections.deque(); edges = []; tr = 0; devs = []
    k0 = (tab.start if tab else None, spec.start); seen[k0] = ''; q.append(k0)
    while q:
        k = q.popleft(); st, conf = k; text = seen[k]
        if tab:
            r, _ = tab.step(st, -1); tr += 1
            if (r is True) != spec.accepts(conf): devs.append((text, len(text), spec.accepts(conf)))
        for c, members in classes:
            tr += 1
            n, cells = tab.step(st, c) if tab else (None, ())
            sn = spec.step(conf, c)
            if tab and (n is not None) != bool(sn): devs.append((text + chr(c), len(text) + bool(sn), None)); continue
            if not sn: edges.append((k, c, None, ())); continue
            deep = spec.depth(sn) > D
            edges.append((k, c, None if deep else (n, sn), cells) if not deep else (k, c, 'deep', cells))
            if not deep and (n, sn) not in seen: seen[(n, sn)] = text + chr(c); q.append((n, sn))
    return classes, seen, edges, tr, devs

def completions(spec, seen, edges):
    dist = {k: '' for k in seen if spec.accepts(k[1])}
    succ = collections.defaultdict(list)
    for k, c, n, _ in edges:
        if n and n != 'deep': succ[n].append((k, c))
    q = collections.deque(dist)
    while q: # backwards breadth first search
        n = q.popleft()
        for k, c in succ[n]:
            if k not in dist: dist[k] = chr(c) + dist[n]; q.append(k)
    return dist

def meaningful(t):
    "False for a pattern whose back references have no group, or whose meaning is not claimed"
    names, groups, i, incls = set(), 0, 0, False
    while i < len(t):
        c = t[i]
        if c == '\\':
            m = re.compile(r'\\(?:([1-9])|g\{(-?)(\d+)\}|g\{([A-Za-z_]\w*)\})').match(t, i)
            if m and not incls:
                if m.group(1) and int(m.group(1)) > groups: return False
                if m.group(3) and not 0 < int(m.group(3)) <= groups: return False
                if m.group(4) and m.group(4) not in names: return False
                i = m.end(); continue
            i += 2; continue
        if incls:
            if t.startswith('[:', i): i = t.index(':]', i) + 2; continue
            if c == ']': incls = False
        elif c == '[':
            incls = True
            if t.startswith('[^', i): i += 1
        elif c == '(':
            m = re.compile(r'\(\?<([A-Za-z_]\w*)>').match(t, i)
            if m:
                if m.group(1) in names: return False # two groups of one name: not claimed
                groups += 1; names.add(m.group(1))
            elif not t.startswith('(?', i): groups += 1
        i += 1
    return True
UNCLAIMED = re.compile(r'\{\d+,0+\}|\\[pP]|:\]-|\\g\{-?0+\}|\(\?[icsm]|(?<!\\)\(\|?\)[*+?{]|\\[ux]\{(?!0*(10|[0-9a-fA-F])?[0-9a-fA-F]{0,4}\})')

def conformance(ck, items, full=False, tag='conf'):
    """items: (text as python string, accept, position). Runs the real parser on each"""
    def lit(s):
        if all(ord(c) < 128 for c in s): return cstr(s)
        return 'U"' + ''.join('\\U%08x' % ord(c) if ord(c) > 126 else '\\"' if c == '"' else '\\\\' if c == '\\' else c for c in s) + '"'
    def src(ch):
        o = ['#include "pch.hpp"\nstruct row { bool ok; size_t pos; bool wok; size_t wpos; };\ntemplate <ctll::fixed_string S> using plain = typename ctll::parser<ctre::pcre, S>::template output<ctll::empty_subject>;\ntemplate <ctll::fixed_string S> using full = typename ctll::parser<ctre::pcre, S, ctre::pcre_actions>::template output<ctre::pcre_context<>>;\nstatic const row rows[] = {\n']
        for t, a, p in ch:
            k = 'full' if full or not re.search(r'\\[1-9gpPxu]|:\]-', t) else 'plain'
            o.append('{%s<%s>::is_correct, %s<%s>::position, %s, size_t(%d)},\n' % (k, lit(t), k, lit(t), 'true' if a else 'false', -1 if p is None else p))
        o.append('};\nint main() { int i = 0; for (auto & r: rows) { if (r.ok != r.wok || (r.wpos != ~size_t(0) && r.pos != r.wpos)) std::printf("DEV\\t%d\\t%d\\t%d\\n", i, int(r.ok), int(r.pos)); ++i; } std::printf("DONE\\t%d\\n", i); }\n')
        return ''.join(o)
    size = max(40, min(150, len(items) // (NPROC * 4) or 40)); d = ck.pch(dict(opt='-O0'), ('ctre.hpp', 'cstdio'))
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    def build(ch, name):
        f = os.path.join(ck.dir, name); open(f + '.cpp', 'w').write(src(ch))
        return f, ck.compile(f + '.cpp', f, opt='-O0', link=True, extra=('-I' + d,))
    def dev(t, a, p, what):
        call = '// replay: g++ -std=c++20 -I/repo/include replay.cpp\n#include <ctre.hpp>\nstatic constexpr auto pattern = ctll::fixed_string{%s};\nusing result = ctll::parser<ctre::pcre, pattern, ctre::pcre_actions>::output<ctre::pcre_context<>>;\nstatic_assert(result::is_correct == %s%s);\nint main() { }\n' % (lit(t), 'true' if a else 'false', '' if p is None else ' && result::position == %d' % p)
        if len(ck.violations) < 20: ck.violation('syntax: %r must be %s position %s: %s' % (t, 'accepted, reading to' if a else 'rejected at', p, what), dict(kind='syntax', pattern=t, accepted=a, position=p), call)
    def one(ic):
        i, ch = ic
        if len(ck.violations) >= 20: return
        f, e = build(ch, '%s%s' % (tag, i))
        if e:
            if len(ch) > 1:
                h = len(ch) // 2; one(('%s_0' % i, ch[:h])); one(('%s_1' % i, ch[h:])); return
            dev(*ch[0], 'the parser does not compile: ' + e.split('\n')[0][:200]); return
        r = ck.run([f]); done = False
        for l in r.stdout.split('\n'):
            x = l.split('\t')
            if x[0] == 'DEV': dev(*ch[int(x[1])], 'the parser %s position %s' % ('accepts, at' if x[2] == '1' else 'rejects at', x[3]))
            elif x[0] == 'DONE': done = True
        if not done: raise CheckError('conformance driver ended with %d' % r.returncode)
        ck.count(0, 0, len(ch))
        for g in (f, f + '.cpp'): os.unlink(g)
    pool_map(one, list(enumerate(chunks)))

def tokens(spec, toks, n):
    "all strings of at most n tokens that the grammar derives"
    out = []
    def rec(conf, text, left):
        if spec.accepts(conf): out.append(text)
        if not left: return
        for t in toks:
            c = conf
            for ch in t:
                c = spec.step(c, min(ord(ch), OTHER))
                if not c: break
            if c: rec(c, text + t, left - 1)
    rec(spec.start, '', n)
    return out

def unbuildable(ck, pats):
    "patterns that must not compile; the position in the error is compared when there is one"
    d = ck.pch(dict(opt='-O0'), ('ctre.hpp', 'cstdio'))
    def one(ip):
        i, (t, pos, spelled) = ip
        f = os.path.join(ck.dir, 'rej%d' % i)
        open(f + '.cpp', 'w').write('#include "pch.hpp"\n%sint main() { return !!ctre::%s(std::string_view("a")); }\n' % spelled)
        r = ck.run(['/usr/bin/g++', '-std=c++20', '-fsyntax-only', '-w', '-I' + REPO + '/include', '-I' + d, f + '.cpp'])
        got = [int(x) for x in re.findall(r'problem_at_position<(\d+)>', r.stderr)]
        if r.returncode == 0: ck.violation('%r must be rejected, but it compiles as %s' % (t, spelled[1]), dict(kind='rejected', pattern=t), '#include <ctre.hpp>\n%sint main() { return !!ctre::%s(std::string_view("a")); } // must not compile\n' % spelled)
        elif pos is not None and got and pos not in got: ck.violation('%r: the error names position %d, the first character that cannot continue a pattern is at %d' % (t, got[0], pos), dict(kind='rejected', pattern=t, position=pos))
        ck.count(0, 0, 1)
    pool_map(one, list(enumerate(pats)))

def check(ck):
    q = ck.quick
    spec = Spec(os.path.join(LIB, 'syntax.gram'))
    ex = ThreadPoolExecutor(1); dumping = ex.submit(dump, ck) # compiles while the rest runs
    # (2) transitions on the real parser
    classes, seen, edges, tr, devs = product(ck, spec, None, 1 if q else 2)
    items = {}
    for k, c, n, _ in edges:
        t = seen[k] + (chr(c) if c < OTHER else '\u0100')
        if not q or n or spec.depth(k[1]) == 0: items[t] = spec.check(t)
    for k, text in seen.items():
        for c in ('\u00e9' if q else '\x7f\x80\u00e9\uffff\U0010ffff'): items[text + c] = spec.check(text + c)
    if not q:
        for c in range(1, 128):
            for e in range(1, 128): items[chr(c) + chr(e)] = spec.check(chr(c) + chr(e))
        for k, text in seen.items():
            if spec.depth(k[1]) == 0:
                for c in range(1, 128): items[text + chr(c)] = spec.check(text + chr(c))
    ck.cov['parser_strings'] = len(items)
    conformance(ck, [(t, *r) for t, r in items.items()])
    ck.count(len(seen), len(items))
    # (3) meaning of what is accepted
    classes, seen, edges, tr, devs = product(ck, spec, None, 0 if q else 1)
    dist = completions(spec, seen, edges); pats = {}
    for k, c, n, _ in edges:
        if n and n != 'deep' and n in dist:
            t = seen[k] + (chr(c) if c < 127 else '~') + dist[n]
            pats[t] = 1; pats[t + 'a'] = 1 if spec.check(t + 'a')[0] else 0
    pats = {t: 1 for t in pats if pats[t]}
    run = [t for t in pats if not UNCLAIMED.search(t) and meaningful(t)]
    # (4) what depends on the groups seen so far
    toks = ['(', ')', '(?<a>', '(?:', '(?=', '\\1', '\\2', '\\g{1}', '\\g{-1}', '\\g{-2}', '\\g{a}', 'a', '|']
    refs = [t for t in tokens(spec, toks, 4 if q else 5) if '\\' in t and '\\g{a}' not in t]
    conf = [(t, True, len(t)) if meaningful(t) else (t, False, None) for t in refs]
    ck.cov['accepted_patterns'] = len(pats); ck.cov['accepted_patterns_run'] = len(run); ck.cov['reference_strings'] = len(refs)
    doms, fam = [], collections.defaultdict(list)
    for t in run:
        letters = ''.join(dict.fromkeys(c for c in (t + 'ab\n') if c not in '\\?(){}' or len(t) < 3))[:7]
        fam[letters].append(t)
    conformance(ck, conf, True, 'refs')
    P = []
    for letters, ts in fam.items():
        doms.append((letters, 2 if q else 3)); P += [Pat(t, 0, len(doms) - 1, ('s' if t[:-1] in pats else 'm') if q else 'ms') for t in ts]
    ck.add('one pattern per transition', P, doms)
    ck.add('references', [Pat(t, 0, 0, 'ms') for t, a, p in conf if a and not UNCLAIMED.search(t)], [('ab', 3)])
    # numbers of more than one digit
    N = [0, 1, 2, 3, 9, 10, 11, 12, 19, 20, 21] + ([] if q else [29, 30, 99, 100, 101, 110])
    num = ['a{%d}' % n for n in N] + ['a{%d,}b' % n for n in N] + ['a{%d,%d}' % (m, n) for m in N for n in N if n >= m and n and (not q or (m + n) % 3 != 1)] + ['(a)' * 11 + r'\g{%d}' % n for n in (1, 10, 11)] + [''.join('(%s)' % c for c in 'aababbabab') + r'\g{-10}\g{10}', 'a{010}', 'a{00,3}', 'a{2,003}']
    ck.add('numbers', [Pat(t, 0, 0, 'ms') for t in num if '(' not in t], [('a', 24 if q else 112), ('ab', 1)])
    ck.add('group numbers', [Pat(t, 0, 0, 'ms') for t in num if '(' in t], [('a', 14)])
    names = [r'(?<a>b)(?<aa>a)\g{a}\g{aa}', r'(?<aa>b)(?<a>a)\g{aa}', r'(?<x>a)(?<m>\g{x}b)', r'(?<m>a|\g{m}b)', r'(?<x>a)(?<m>\g{x})', r'(?<x>a)(?<y>\g{x}+)\g{y}', r'(?<x>a)(?<y>(?<z>\g{x}b))', r'(?<x>a)(?<y>(\g{x}))', r'(?<x>a)(?<y>|\g{x})', r'(?<x>a)(?<y>(?:\g{x}))', r'(?<x>a)(?<y>(?=\g{x})a)', r'(?<x>a)(?<y>\g{x}\g{x})', r'(?<x>b)(?<y>a\g{x})\g{y}', r'(?<x1_>b)\g{x1_}', r'(?<x>a)(?<y>\1)', r'(?<x>a)(?<y>\g{-2})', r'(?<x>a)(?<y>\g{1}{2})']
    ck.add('names', [Pat(t, 0, 0, 'ms') for t in names], [('ab', 5)])
    ck.go()
    bad = [(t, spec.check(t)[1]) for t in ('a**', '(a', 'a)', '[a', '[]', 'a{', 'a{1', '\\', '*a', '(?<1>a)', '(?P<n>a)', 'a{1}?', '[[:foo:]]', '[a-]', '\\x{}', '\\u12')] + [(t, None) for t in (r'\1', r'\1(a)', r'(a)\2', r'\g{-1}', r'(a)\g{-2}', r'\g{n}', r'(?<n>a)\g{m}', '[[:alpha:]-z]')]
    ways = [('', 'match<%s>'), ('', 'search<%s>'), ('', 'split<%s>'), ('', 'multiline_match<%s, ctre::case_insensitive>'), ('static constexpr auto p = ctll::fixed_string{%s}; ', 'starts_with<p>')]
    un = []
    for i, (t, pos) in enumerate(bad):
        for d, c in (ways[:1] + [ways[1 + i % 4]] if q else ways): un.append((t, pos, (d % cstr(t) if d else '', c % cstr(t) if '%s' in c else c)))
    unbuildable(ck, un)
    # (1) product
    D = 12 if q else 40
    tab = dumping.result()
    if tab:
        if not tab.start: raise CheckError('no start symbol')
        classes, seen, edges, tr, devs = product(ck, spec, tab, D)
        ck.count(len(seen), tr)
        ck.cov['product'] = dict(open_brackets=D, states=len(seen), transitions=tr, character_classes=len(classes), table_symbols=len(tab.t), longest_string=max(map(len, seen.values())))
        if devs:
            ck.notes.append('product: %d disagreements' % len(devs))
            conformance(ck, [(t, *spec.check(t)) for t in sorted(set(t for t, p, a in devs), key=len)[:40]])
            if not ck.violations: raise CheckError('the table read out of the library disagrees with the grammar on %r but the parser does not' % (devs[0],))
    ck.assumptions += ['lib/syntax.gram is the documented grammar (include/ctre/pcre.gram of the pinned commit, with the change of rule \\g{name} described in DESIGN.md)', 'references to a group that the grammar cannot see, class ranges from a named class and unknown properties are semantic errors: only the rejection is compared, not the position']
