"""no unit outside of the subject: pages that cannot be touched, iterators that check every step, and constant evaluation"""
import vlib, re
from vlib import Pat, CI, ML, cstr, CLANG
from c14 import CHUNKS, FAM as F14
FAM = F14 + ['abcd', 'ab|abc', '(?:abc)*', 'a{3}', '[ab]{2}', 'a*b*', 'a*+b*+', '(?:a+)+b', 'a*a', 'a+ab', '.*+a', '.*ab', '[^a]*a', '(?:ab|b)+', 'a?b?c?', '(?>.*)a', '(?=.*b)a', '(?!.*b)a', '(?=$)', '(?!$)a', '(?<=.{2})', '(?<!^.)b', '(?<=\\A.)', '(?<=$)', '(?<=\\b.)', '(?<=.\\b)', '(?<=(?=a).)', '(?=(?<=a)b)', '(?<=(?!a).)', '(?<!a|b)', '(?<=a{2})', '(?<=a+b)', '(?<=a*?b)', '(?<=(?>a*)b)', '(?<=ab|b)a', '(a*)\\1', '(a+)\\1b', '(a|b)\\1', '(ab?)(?<=\\1)', '(?:(a)|b)\\1', '\\b$', '\\b^', '\\B.', '^\\b', '\\Ba\\B', '(?:\\b.)*', '$a', 'a^', 'a\\A', '\\za', '(?:^|a)b', '(?:$|a)b', '[[:word:]]+', '(?i)A', '\\x61+', 'a.c', 'ab.', '.ab']
FWD = [t for t in FAM if not re.search(r'\\[bB]|\(\?<[=!]', t)]
def swap8(t): # a -> a two-unit, b -> a three-unit character
    to = {'a': '\\x{e9}', 'b': '\\x{65e5}'}
    out, i = [], 0
    while i < len(t):
        if t[i] == '\\': out.append(t[i:i + 2]); i += 2
        elif t.startswith('(?<n>', i) or t.startswith('(?i)', i) or t.startswith('[[:', i): k = 5 if t[i:i + 5] == '(?<n>' else 4 if t[i] == '(' else t.index(']', i) + 2 - i; out.append(t[i:i + k]); i += k
        else: out.append(to.get(t[i], t[i])); i += 1
    return ''.join(out)
def families(ck):
    q = ck.quick
    P = [Pat(t, 0, 0, 'mstapk') for t in FAM] + [Pat(t, ML, 1, 'mstapk') for t in FAM if re.search(r'[$^.]|\\[ZzAN]', t)] + [Pat(t, CI, 2, 'ms') for t in ('a', 'ab', '(a)\\1', '[a-b]+', '(?<=A)b')]
    base = ck.refcheck(P, [('abc', 4), ('ab\n', 4), ('aAb', 3)])
    DOM = [('abc', 4 if q else 6), ('ab\n', 4 if q else 6), ('aAb', 3 if q else 5), (CHUNKS[:12] + ['\n'], 2 if q else 3), (['\xc3\xa9', '\xe6\x97\xa5', '\xc3', '\xe6\x97', '\xa9'], 3 if q else 4), ('ab\0', 4 if q else 6)]
    out, n = [], 0
    R = ['ms', 'ta', 'pk', 'sk', 'mp', 'ta']
    def ops(p):
        nonlocal n; n += 1
        return ''.join(o for o in R[n % 6] if o in p.ops) or p.ops[0]
    for p in base:
        out.append(Pat(p.text, p.flags, p.dom, p.ops if not q or n % 4 == 0 else ''.join(o for o in R[n % 3] + 'sk' if o in p.ops)))
        lookback = re.search(r'\\[bB]|\(\?<[=!]', p.text) or p.flags & ML and '^' in p.text
        for kind in ('B_', 'R_', 'F_', 'Z_'):
            if kind == 'F_' and lookback: continue
            if q and kind == 'R_' and n % 2: n += 1; continue
            out.append(Pat(p.text, p.flags, 5 if kind == 'Z_' and p.dom == 0 else p.dom, p.ops if not q else ops(p), kind=kind))
        if p.dom != 2:
            o = p.ops if not q else ops(p)
            out.append(Pat(swap8(p.text), p.flags, 4, o, utf8=True))
    for t in ('.', '(.)(.)', '[^a]', '(?<=(.))', '\\b', '\\x{fffd}', '.*?\\W', '(.)\\1', '(?<=(..))', '.\\Z'): out.append(Pat(t, 0, 3, 'mstapk', utf8=True)); out.append(Pat(t, ML, 3, 'sa', utf8=True))
    uniq = {}
    for p in out: p.ops = ''.join(dict.fromkeys(p.ops))
    for p in out: uniq.setdefault((p.text, p.flags, p.dom, p.kind), p)
    return list(uniq.values()), DOM
CE = ['a', '[^a]', '(.)', '.*b', 'ab', '(a|b)*b', '(?<=[^b])', '(?<=a)b', '(?<!a)', '\\b', '\\B', 'a$', '^', '^b', '(?=.b)', 'a*+', '[^a]+?b', '(a*)\\1', '\\Z', 'a{2}', '(?<=(..))', '(?!b)', '(.)\\1', '', '\\z', '(?<=^a)', '[ab]{2,}', '(?>a*)b', '\\w+', '.?b', '(?:a?b)+', 'a.b']
OPN = ['match', 'search', 'starts_with', 'search_all', 'split', 'tokenize']
def constexpr_source(t, fl, kind, alphabet, n):
    ml = 'multiline_' if fl & ML else ''
    o = ['#include "c15.hpp"\n']; C = {'u8': 'char8_t', '': 'char', 'u': 'char16_t', 'U': 'char32_t', 'L': 'wchar_t', 'Z': 'char', 'P': 'char', 'LZ': 'wchar_t', 'u8Z': 'char8_t'}[kind]
    pre = {'Z': '', 'P': '', 'LZ': 'L', 'u8Z': 'u8'}.get(kind, kind)
    arg = 'p' if kind.endswith('Z') else 'p, p + n' if kind == 'P' else 'std::basic_string_view<%s>(p, n)' % C
    for k, op in enumerate(OPN):
        call = 'ctre::%s%s<%s>(%s)' % (ml, op, cstr(t), arg)
        o.append('constexpr tally t%d = every(std::basic_string_view<%s>(%s%s, %d), %d, %s, [](const %s * p, size_t n, tally & t) { (void)n; %s(%s, p, t); });\n' % (k, C, pre, cstr(alphabet), len(alphabet), n, 'true' if kind.endswith('Z') else 'false', C, 'note' if k < 3 else 'notes', call))
    o.append('int main() { ' + ''.join('sp::states += t%d.subjects; sp::execs += t%d.subjects; sp::steps += t%d.found;' % (k, k, k) for k in range(6)) + ' return sp::done(); }\n')
    return ''.join(o)
def check(ck):
    q = ck.quick
    P, dom = families(ck)
    ck.add('guarded subjects', P, dom, filtered=True)
    ck.go(guard=True)
    jobs = []
    extra = ('-fconstexpr-steps=2000000000', '-fconstexpr-depth=4096')
    KINDS = ['', 'u8', 'Z', 'P', 'U', 'u8Z', 'LZ', 'u']
    for i, t in enumerate(CE):
        for j, kind in enumerate(KINDS):
            if q and not (j == 1 or (i + j) % 8 == 0 and kind != 'u8'): continue
            al = 'a\xc3\xa9\xe6\x97\xf0' if kind.startswith('u8') else 'ab\n' if kind in ('U', 'u', 'LZ') else 'ab\n' 
            n = (2 if len(al) > 4 else 3) + (0 if q else 1)
            tt = t.replace('b', '\\x{e9}') if kind == 'u8' and '\\b' not in t and i % 2 else t
            jobs.append(dict(name='constant_%d_%s' % (i, kind or 'char'), cxx=CLANG, extra=extra, opt='-O0', src=constexpr_source(tt, ML if i % 4 == 3 else 0, kind, al, n)))
    ck.drivers(jobs)
    for p in P[::max(1, len(P) // 8)][:8]: ck.sample('%r flags=%d as %s' % (p.text, p.flags, p.kind or 'guarded units'))
