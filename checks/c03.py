"""quantifiers: every kind and small bound over representative operands and continuations, all subjects longer than the bounds"""
from vlib import Pat
import fam
DOM = [('ab', 7), ('a', 14), ('a', 130), ('abc', 5)]
X = ['a', '(?:ab)', '(a)', '[ab]', '(?:a|b)', '.', '(?:ab|ba)', '(?:a?)', '(ab?)', '(?:aa|b)', '(a|bb)', '[^b]', '(?:a*)']
def quants():
    q = []
    for n in range(0, 5): q.append('{%d}' % n)
    b = ['{%d,}' % n for n in range(0, 4)] + ['{%d,%d}' % (n, m) for m in range(1, 4) for n in range(0, m + 1)] + ['*', '+', '?']
    for x in b: q += [x, x + '?', x + '+']
    return q + ['{2,1}', '{3,1}?', '{2,1}+', '{02}', '{1,02}']
def families(quick):
    P = []
    sufs = ['', 'a', 'b'] if quick else ['', 'a', 'b', '$', 'ab', '(?:a|b)', '(.)', 'a?', 'a*']
    for i, x in enumerate(X):
        for q in quants():
            # {0} and lazy optional around an optional operand: see DESIGN.md (not claimed)
            if x == '(?:a?)' and q in ('??',): continue
            for s in sufs:
                if quick and s == 'a' and i % 2: continue
                P.append(Pat(x + q + s, 0, 0, 's' if quick and s else 'ms' if quick else 'mst'))
    # repeats of repeats
    inner = ['*', '+', '?', '{2}', '{1,2}', '{2,}', '*?', '+?', '{1,2}?', '++', '{1,2}+']
    outer = ['*', '+', '?', '{2}', '{1,2}', '{0,2}?', '+?', '?+', '{2}', '{1,3}+']
    for i in inner:
        for o in outer:
            for body in ('(?:a%s)%s', '(?:a%sb)%s', '(?:(?:ab)%s)%s') if not quick else ('(?:a%sb)%s', '(?:a%s)%s'):
                for s in ('', 'b') if not quick else ('',):
                    if i == '??' and o[0] == '?': continue
                    P.append(Pat(body % (i, o) + s, 0, 0, 's' if quick else 'ms'))
    # adjacent repeats
    for x in ('a', '[ab]', '(?:ab)'):
        for q in ('*', '+', '?', '{2}', '{1,2}', '{2,}'):
            for r in ('*', '+', '?', '{2}', '{1,2}', '{2,}'):
                for m in ('', '?', '+') if not quick else ('',):
                    if m and ('{2}' in (q, r)): continue
                    P.append(Pat(x + q + m + x + r + m, 0, 0, 'ms'))
    # multi-digit bounds
    for t in ('a{10}', 'a{12,}', 'a{9,11}', 'a{0,12}', 'a{10,12}?', 'a{11,}+', '(?:aa){5,6}', '(a){10}', 'a{7}a{6}', 'a{010}'): P.append(Pat(t, 0, 1, 'mst'))
    for t in ('a{100}', 'a{99,101}', 'a{120,}', '(?:aa){55}', 'a{100,120}?', 'a{0,125}+'): P.append(Pat(t, 0, 2, 'mst'))
    return P
def check(ck):
    ck.add('quantifiers', families(ck.quick), DOM)
    ck.go()
