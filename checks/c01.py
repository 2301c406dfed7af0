"""match, search and starts_with against the reference: all small expressions, all subjects."""
import itertools
from vlib import Pat
import fam

DOM = [('ab', 6), ('abc', 4), ('ab', 7)]

def families(quick):
    P = []
    A = fam.Ast(['a', 'b', '.'], ['*', '+?', '?', '{2}'], ['(%s)'])
    P += [Pat(x, 0, 0) for x in A.upto(3)]
    B = fam.Ast(['a', 'b'], ['*', '?', '+?'] if quick else ['*', '+', '?', '*?', '??', '++'], ['(%s)'] if not quick else [])
    P += [Pat(x, 0, 0, 'mst' if not quick else 'ms') for x in B.upto(4)]
    if not quick:
        P += [Pat(x, 0, 0, 'ms') for x in A.upto(4)]
    # ordered choice between words, then a suffix that may need another alternative
    words = ['a', 'b', 'ab', 'ba', 'aa', 'aab', '']
    for k in (2, 3) if not quick else (2,):
        for al in fam.alts(words, k):
            for suf in ('', 'b', 'a', 'ab', '$') if not quick else ('', 'b', '$'):
                t = '(?:%s)%s' % (al, suf) if suf else al
                if fam.canon(t): P.append(Pat(t, 0, 0, 'ms' if quick else 'mst'))
    return P

def check(ck):
    P = [p for p in families(ck.quick) if ok(p.text)]
    ck.add('expressions', P + fam.known(ck), DOM)
    ck.go()
def ok(t):
    return '||' not in t
