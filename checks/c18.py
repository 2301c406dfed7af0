"""group numbering and naming: every nesting of up to four groups of every kind, all access paths"""
import itertools
from vlib import Pat, CI
DOM = [('a', 10), ('ab', 5)]
NAMES = ['n', 'nn', 'N1', '_x']
def forests(n):
    "all ordered forests with n nodes, as nested tuples"
    if n == 0: return [()]
    out = []
    for k in range(n):
        for kids in forests(k):
            for rest in forests(n - 1 - k): out.append((kids,) + rest)
    return out
KIND = {'c': '(%s)', 'n': '(?<%s>%s)', 'g': '(?:%s)', 'l': '(?=%s)', 'a': '(?>%s)', 'o': '(%s)?', 'x': '(?!%s)', 'b': '(?<=%s)', 'r': '(?:%s){2}', 'z': '(%s)??'}
def render(f, kinds, sep='', pos=None, closer='a'):
    pos = pos if pos is not None else [0, 0]
    parts = []
    for kids in f:
        k = kinds[pos[0]]; pos[0] += 1
        name = None
        if k == 'n': name = NAMES[pos[1] % len(NAMES)]; pos[1] += 1
        inner = 'a' + render(kids, kinds, '', pos)
        if k in 'xb': inner = inner.replace('a', 'b' if k == 'x' else 'a', 1)
        parts.append(KIND[k] % ((name, inner) if k == 'n' else inner))
    return sep.join(parts)
def families(q):
    P = []
    i = 0
    for n, kinds in ((1, 'cnglaoxbrz'), (2, 'cnglaoxbrz'), (3, 'cnglao' if not q else 'cnla'), (4, 'cng' if q else 'cngo')):
        for f in forests(n):
            for ks in itertools.product(kinds, repeat=n):
                if not set(ks) & set('cnoz'): continue
                i += 1
                if q and n == 4 and i % 5: continue
                t = render(f, ks)
                P.append(Pat(t, 0, 0, 'm' if q else 'mst', access=True))
                if n > 1 and (not q or n == 2) and len(f) > 1: P.append(Pat(render(f, ks, '|'), 0, 0, 's', access=True))
    # more than nine groups, names that are prefixes of each other, every character a name may have
    for k in (10, 12) if q else (9, 10, 11, 12, 15):
        P.append(Pat('(a)' * (k - 1) + '(b)', 0, 1, 's', access=True)); P.append(Pat('^' + '(' * k + 'a' + ')' * k + 'b', 0, 1, 'ms', access=True))
        P.append(Pat('(?:' + '|'.join('(%s)' % ('ab'[i % 2] * (k - i)) for i in range(k)) + ')', 0, 1, 'ms', access=True))
        P.append(Pat(''.join('(?<g%d>a?)' % i for i in range(k)), 0, 0, 'm', access=True))
        P.append(Pat(''.join(('(?<x%s>a?)' % ('x' * i)) if i % 3 else '(b?)' for i in range(k)), 0, 1, 'm', access=True))
    for nm in ('a', 'Z', '_', 'a1', 'abcdefghijklmnopqrstuvwxyz', 'ABCDEFGHIJKLMNOPQRSTUVWXYZ', '_0123456789', 'a_b', 'x' * 60): P.append(Pat('(b)|(?<%s>a)' % nm, 0, 1, 'mst', access=True)); P.append(Pat('(b)?(?<%s>a)\\g{%s}' % (nm, nm), 0, 1, 'ms', access=True))
    for t in ('(?<year>a)(b)(?<yea>a)', '(?<a>a)(?<b>b)(?<c>a)', '(?<ab>(?<a>a)(?<b>b))', '(?<n>a)|(?<m>b)', '(?<n>a)?(?<m>b)?', '(?:(?<n>a)|(?<m>b))+', '((?<n>a)|b)+', '(?<n>(?<m>a)|b)+', '(?=(?<n>a))(?<m>.)', '(?!(?<n>b))(?<m>.)', '(?<=(?<n>a))(?<m>.)', '(?<=(a)(b))(.)', '(?<=(?<p>a)(?<q>b))(?<r>.)', '(?>(?<n>a+))(?<m>b)', '(?<n>)', '(?<n>a*)', '(?<n>)(?<m>)', '()', '()()', '(())', '(()())', '(a)[(](b)?', '\\((a)', '(a)\\)', '[(](a)', '[)](a)', '(a)(?:b)(a)', '(a(?:b(a)))', '(?:(a)(b))', '(?:a)(?:b)(a)', '(?:(?:(a)))', '(a)|b|(a)(b)|(?:a)(b)', '(?i)(a)(b)', '(?<n>a)(?:b)\\g{n}', '(a)(?<n>b)\\g{1}\\g{n}', '(?<n>a)(b)\\2\\1', '(a){2}(b)', '(a)*(b)', '(?<n>a)*(?<m>b)?', '(?<n>a){0}(?<m>b)?', '(?<n>a){0,1}(b)', '(?<n>a)+?(b)', '(?<n>a)*+(b)', '(?:(a){2}|(b))'):
        P.append(Pat(t, 0, 1, 'mst', access=True)); P.append(Pat(t, CI, 1, 's', access=True))
    return P
def check(ck):
    P = families(ck.quick)
    ck.add('nestings', P, DOM)
    ck.add('nestings', P[::40 if ck.quick else 4] + P[-120:], DOM, std='c++17')
    ck.go()
