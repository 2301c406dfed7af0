"""backreferences: every spelling x placement of group and reference, all subjects"""
from vlib import Pat, CI
import fam
DOM = [('ab', 7), ('aAbB', 4), ('abc', 5), ('ab', 9), ('aA@`{[kK', 3)]
G = ['(a)', '(b)', '(ab)', '(a|b)', '(a|ab)', '(a?)', '(a*)', '(a+)', '(a+?)', '(.)', '(..)', '(.*)', '(.*?)', '(a|)', '()', '(a{1,2})', '((a)b?)', '(?=(a))', '(?=(a+))', '(?>(a+))', '(?:(a)|b)', '(a)?', '(a)*', '(a|b)+', '(?:(a)|(b))', '([ab])', '(a*?)b', '(?!(a))', '(?<=(a))', 'b(a)', '(^a)', '(a$)?', '(b|ab)*', '(a)??', '(a)?+', '(.)*+', '(.){2}']
F = ['G\\1', 'G\\1b', 'G.\\1', 'G\\1+', 'G\\1*', 'G\\1?b', 'G\\1??b', 'G\\1*?b', 'G\\1++', 'G\\1{2}', 'G\\1{1,2}b', 'G(?:\\1|b)', 'G(?:b|\\1)a', 'G(?=\\1).', 'G(?!\\1).', 'G.(?<=\\1)', 'G.(?<!\\1)', 'G(\\1)', 'G(?:\\1b)*', 'G(?>\\1)b', 'G\\1\\1', 'G.*\\1', 'G.*?\\1$', '(?:G\\1)+', '(?:G|\\1b)+', '(?:G\\1|a)*b', 'G\\1|b', '(?:G)?\\1', 'G^\\1', 'G\\b\\1', 'Gb*\\1']
SP = ['\\g{1}', '\\g{-1}', '(?<n>', '\\1']
def spell(t):
    "the same pattern with every other spelling of its first group and of the references to it"
    import re
    out = []
    n = len(re.findall(r'\((?!\?)', t))
    out.append(t.replace('\\1', '\\g{1}'))
    i = re.search(r'\((?!\?)', t).start()
    named = t[:i] + '(?<nm>' + t[i + 1:]
    out.append(named.replace('\\1', '\\g{nm}')); out.append(named)
    if n == 1: out.append(t.replace('\\1', '\\g{-1}'))
    return out
def families(q):
    import re
    P, C = [], []
    k = 0
    for f in F:
        for g in G:
            k += 1
            t = f.replace('G', g)
            if t.count('(') > 12: continue
            base = Pat(t, 0, 0, 's' if q else 'msa')
            if not q or f in F[:3] or k % 2: P.append(base)
            for j, s in enumerate(spell(t)):
                if not q or k % 12 == 3 * j: P.append(Pat(s, 0, 0, 's'))
            if not q or k % 5 == 0: C.append(Pat(t, CI, 1, 's'))
    # several groups; references in every order and by every spelling
    for x in ('(a|b)', '(a*)', '(.)', '(ab?)', '(a)?', '(?<x>a+)') if q else ('(a|b)', '(a*)', '(.)', '(ab?)', '(a)?', '(?<x>a+)', '(b)*', '(a|)', '(?:(a)|b)'):
        for y in ('(b)', '(a|b)', '(b*)', '(.)?', '(?<y>.)') if q else ('(b)', '(a|b)', '(b*)', '(.)?', '(?<y>.)', '(ba?)', '(a)??', '((a)b|b)'):
            for r in ('\\1\\2', '\\2\\1', '\\g{2}', '\\g{-1}', '\\g{-2}', '\\g{-1}\\g{-2}', '(?:\\1|\\2)b', '\\2?\\1$', '(\\g{-1})\\3', '(?=\\2)\\1', '(\\2)\\g{-1}\\g{3}'):
                m = ''.join(re.findall(r'\(\?<(\w)>', x + y))
                P.append(Pat(x + y + r, 0, 2, 's'))
                if m and not q:
                    for c in m: P.append(Pat(x + y + '\\g{%s}' % c, 0, 2, 's'))
    for t in ('(a)(b)(c)\\3\\2\\1', '(a)(b)(c)\\g{-3}\\g{-1}', '(.)(.)(.)\\1', '(.)(.)\\2\\1', '((a)|(b))+\\2', '((a)|(b))*\\3', '((.)\\2)\\1', '(a(b)\\2)\\1', '(?:(.)\\1)+', '(?:(.)(.)\\2\\1)+', '(?:(a)|b\\1)+', '(?:(a)\\1|b)+', '(?:b\\g{n}|(?<n>a))*' if 0 else '(?:(?<n>a)|b\\g{n})*', '(a+)b\\1', '(a*)b\\1', '(.+)\\1', '(.+?)\\1', '(.*)\\1$', '^(.+)\\1+$', '^(aa+?)\\1+$', '(a)(?:\\1(b))?\\2', '(?:(a)(b)?\\2?)+', '(a)|\\1b', '(a)?\\1b', '(a)*\\1', '(?=(a+))\\1b', '(?=(a+))a*b\\1', '(?!(a)b)\\1', '(?>(a|ab))\\1', '(a|b)(?=.*\\1)', '(a|b)(?!.*\\1)', '(?:(a)|(b)|(c))\\1\\2', '(ab)\\1c', '(a\\1)', '(a|b\\1)+', '(a(?:\\1)?)', '((a)\\1)', '(?<p>a|b)\\g{p}\\1', '(?<p>a)(?<q>b)\\g{q}\\g{p}', '(?<p>a)(?<pp>b)\\g{pp}\\g{p}', '(a|b)c(?<=\\1c)', '(a|b)c*(?<=\\1c)', '(a|b).*(?<=\\1)', '(?<=(a|b)\\1)c' if 0 else '(?<=(a|b))c\\1', '(a)(b)(a)(b)(a)(b)(a)(b)(a)\\9', '(a)(b)(a)(b)(a)(b)(a)(b)(a)(b)\\g{10}', '(a)(b)(a)(b)(a)(b)(a)(b)(a)(b)(c)\\g{11}\\g{-2}', '(a)\\g{01}', '(a)(b)\\g{-01}'):
        ops = 'ms' if t.count('(') < 9 else 's'
        if t.count('(') >= 9: P.append(Pat('^' + t, 0, 5, 'ms'))
        else:
            P.append(Pat(t, 0, 2, ops)); P.append(Pat(t, 0, 0, ops)); C.append(Pat(t, CI, 1, 's'))
    for t in ('(.)\\1', '(.)\\g{1}', '(?<n>.)\\g{n}', '(..?)\\1', '(?i)(.)\\1', '(?i)(?<n>.)\\g{n}', '(?c)(.)\\1', '(?i)a(?c)(.)\\1', '(.)(?i)\\1', '(?i)(.)(?c)\\1', '(.)(?c)\\1', '(.)(?=\\1)', '.(?<=(.))\\1', '(.)(?!\\1).', '(.).(?<=\\1)', '(.).(?<!\\1)'):
        for fl in (0, CI): C.append(Pat(t, fl, 4, 'msa'))
    return P, C
DOM.append(('ab', 11)); DOM[5] = ('ab', 13)
def check(ck):
    P, C = families(ck.quick)
    ck.add('references', P, DOM); ck.add('case', C, DOM)
    ck.go()
