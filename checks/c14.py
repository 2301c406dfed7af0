"""UTF-8 subjects"""
import vlib, fam, re
from vlib import Pat, CI, ML, cstr, CLANG
# stand-ins: letters a, b, c of the families, as pattern text and as units of the subject
CHUNKS = ['a', '\xc3\xa9', '\xe6\x97\xa5', '\xf0\x9f\x98\x80', '\xef\xbf\xbd', '\x80', '\xc3', '\xe2\x82', '\xf0\x9f\x98', '\xed\xa0\x80', '\xc0\xaf', '\xf8', '\n', '_', '\0', '\xe2\x80\xa8', '\xc4\xb0', 'K']
SETS = [ # what a, b, c become; members of the subjects
    (('\\x{e9}', 'b', '\\x{1f600}'), ['\xc3\xa9', 'b', '\xf0\x9f\x98\x80', '\x98', '\xf0\x9f']),
    (('\\x{fffd}', '\\x{65e5}', 'c'), ['\x80', '\xe6\x97\xa5', 'c', '\xe6\x97', '\xc3', '\xef\xbf\xbd']),
]
def swap(t, to):
    out, i = [], 0
    while i < len(t):
        if t[i] == '\\' : out.append(t[i:i + 2]); i += 2
        elif t.startswith('(?<n>', i): out.append('(?<n>'); i += 5
        else: out.append(to['abc'.index(t[i])] if t[i] in 'abc' else t[i]); i += 1
    return ''.join(out)
FAM = ['a', 'ab', 'a*', 'a+b', 'a?b', 'a*?b', 'a+?', 'a*+b', 'a++', 'a?+a', 'a{2}', 'a{1,2}b?', 'a{2,}', '(a)', '(a)(b)?', '(a|b)*', '(a*)(b*)', '(a|ab)(b?)', '(?:a|b)+c', '(?:(a)|b)+', '[ab]+', '[^a]', '[^ab]*', '[a-c]', '.', '.*', '.*?b', '.+b', '(.)\\1', '(a)\\1', '(.)(.)\\2\\1', '(.*)\\1', 'a(?=b)', 'a(?!b)', '(?=(.))', '(?=a|b).', '(?<=a)b', '(?<!a)b', '(?<=ab)', '(?<=a.)', '(?<=(a)|(b))', '(?<=(.))(.)', '(?<=(..))', '(?<=[^a])', '(?<!.a)', '(?<=b|^)a', '(?<=a*)b', '(?<=(a+))b', '(?<=\\Ba)', '(?<=^a)', '(?<=\\ba)', '(?>a*)b', '(?>a|ab)c', '\\b', '\\B', '\\ba', 'b\\b', '\\w+', '\\W', '\\W+', '\\s', '\\d|\\D', '^a', 'a$', '^$', '$', '\\A.', '.\\z', '.\\Z', '^.', '.$', '', 'a|', '(?:a|)b', '(?<n>a)b?', '(?:ab)+', '(?:a.)*', 'abc', 'aab', 'a|b|c', '[^]', '\\N', '[\\W\\n]', '[^\\w]', '(a?)*b', '(?:a?b?)+', '.?a', '..', '...', '.{2}', '.{2,3}', '(.{2})', '.*(.)', '(.)*', '(?:(.)b)*', 'a.*a']
def families(ck):
    q = ck.quick; out = []
    ops = 'mstapk'
    P = [Pat(t, 0, 0, ops) for t in FAM] + [Pat(t, ML, 1, ops) for t in FAM if re.search(r'[$^.]|\\[ZzAN]', t)]
    A = fam.Ast(['a', 'b', '.'], ['*', '?', '+', '*?', '??', '*+'] if q else ['*', '?', '+', '*?', '+?', '??', '{2}', '*+', '++'], ['(%s)', '(?=%s)', '(?<=%s)', '(?!%s)'] if q else ['(%s)', '(?=%s)', '(?<=%s)', '(?!%s)', '(?<!%s)', '(?>%s)'])
    P += [Pat(x, 0, 0, 'ms' if q else ops) for x in A.upto(2)] + ([] if q else [Pat(x, 0, 0, 'ms') for x in A.size(3) and A.upto(3)])
    P = ck.refcheck(P, [('abc', 5), ('abc\n', 4)])
    for k, (to, members) in enumerate(SETS):
        n = 3 if q else 4
        for p in P:
            # the extended pattern families only with the first stand-ins in the quick tier
            if q and k and p.ops != ops: continue
            o = p.ops if not q or p.flags == 0 and k == 0 else 'sa' if p.flags else p.ops.replace('t', '')
            out.append(Pat(swap(p.text, to), p.flags, 2 * k + (1 if p.flags else 0), o, utf8=True, pre='u8' if len(out) % 3 == 0 else 'U' if len(out) % 3 == 1 else ''))
    dom = []
    for to, members in SETS: dom += [(members, n + 1 if not q else n), (members + ['\n'], n)]
    # any character of the pool in front, in the middle, behind; case folding stays within ASCII
    for t in ('.', '.*', '(.)(.)', '(.)\\1', '[^]', '[\\x{80}-\\x{10ffff}]', '[^\\x{80}-\\x{10ffff}]', '\\x{fffd}', '[^\\x{fffd}]', '\\x{0}', '\\w', '\\W', '\\s', '\\h', '\\v', '\\N', '\\b', '\\B', '(?<=(.))', '(?<=\\x{fffd})', '(?<!\\x{fffd})', '\\x{2028}', '[[:alpha:]]', '[[:^ascii:]]', '\\x{130}', '(?<=\\b)', '.\\B.', '.\\b.', '(?<=[\\x{80}-\\x{ffff}])a'): out.append(Pat(t, 0, 4, ops, utf8=True))
    for t in ('k', '[i-k]', '\\x{212a}', '\\x{131}', '[^k]', '(.)\\1', '\\x{e9}', '[\\x{c0}-\\x{ff}]'): out.append(Pat(t, CI, 5, 'msa', utf8=True))
    for t in ('^', '$', '^.', '.$', '\\Z', '.', '[^]', '^$', '\\s'): out.append(Pat(t, ML, 4, 'msak', utf8=True))
    dom += [(CHUNKS, 2 if q else 3), (['k', 'K', '\xe2\x84\xaa', '\xc4\xb0', '\xc4\xb1', '\xc3\xa9', '\xc3\x89', 'i', '\x80'], 2 if q else 3)]
    return out, dom
def check(ck):
    q = ck.quick
    parts = 8
    src = lambda what, internal, full, reps: ('#define INTERNAL\n' if internal else '') + '#include "c14.hpp"\nint main(int, char ** a) { sp::start(); everything(unsigned(atoi(a[1])), unsigned(atoi(a[2])), %d, %d, [](const unsigned char * s, int n) { %s }); return sp::done(); }\n' % (full, reps, what)
    runs = [[i, parts] for i in range(parts)]
    jobs = [dict(name='iterator', src=src('iterate(s, n);', True, 3, 4 if q else 6), runs=runs, opt='-O2', optional=True),
        dict(name='iterator17', std='c++17', extra=('-fchar8_t',), src=src('iterate(s, n);', True, 2 if q else 3, 4), runs=runs, opt='-O2', optional=True),
        dict(name='operations', src=src('observe(s, n);', False, 2 if q else 3, 4 if q else 5), runs=runs, opt='-O2'),
        dict(name='equality', src=src('if (n) equals(s, n);', False, 2 if q else 3, 4), runs=runs, opt='-O2')]
    for i, t in enumerate(('(.)(b)?', '(?<=(.))[^a]', '', '.*?\\b', '(\\x{fffd})|(\\x{e9}+)', '(.)\\1')): jobs.append(dict(name='spellings%d' % i, opt='-O0' if q else '-O1', src='#include "c14.hpp"\n#define PATTERN %s\n#include "c14spell.hpp"\nint main() { sp::start(); spell(%d); return sp::done(); }\n' % (cstr(t), 2 if q else 3)))
    if not q: jobs += [dict(name='clang', cxx=CLANG, src=src('observe(s, n);', False, 3, 4), runs=runs, opt='-O2'), dict(name='operations17', std='c++17', extra=('-fchar8_t',), src=src('observe(s, n);', False, 3, 4), runs=runs, opt='-O2')]
    ck.drivers(jobs)
    P, dom = families(ck)
    ck.add('utf8', P, dom, filtered=True)
    F = [p for i, p in enumerate(P) if (i % 9 == 0 if q else i % 3 == 0) and p.text]
    ck.add('utf8', [Pat(p.text, p.flags, p.dom, p.ops, utf8=True) for p in F], dom, filtered=True, std='c++17', extra=('-fchar8_t',))
    ck.add('utf8', [Pat(p.text, p.flags, p.dom, p.ops, utf8=True, pre=p.pre) for p in F[::2]], dom, filtered=True, cxx=CLANG)
    ck.go()
