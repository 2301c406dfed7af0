"""termination: nested repetitions of operands that can match nothing, every operation, all subjects; a watchdog, a stack bound and
the bound on the number of elements decide"""
import itertools
from vlib import Pat, CI, ML
import fam
DOM = [('ab', 5), ('ab', 4), ('a\n', 4), ('a', 60), ('a', 300)]
Q = ['*', '+', '*?', '+?', '*+', '++', '?', '??', '?+', '{2}', '{0,2}', '{2,}', '{2,}?', '{1,3}+', '{0}', '{1,}']
N = ['(?:)', '()', 'a?', 'a*', '(?:a|)', '(?:|a)', '(a*)', '(a?)', '(?=a)', '(?!a)', '(?<=a)', '(?<!a)', '^', '$', '\\b', '\\B', '\\A', '\\z', '\\Z', '(?>a*)', 'a*?', 'a??', 'a*+', '(?:a*b*)', '(?:a?b?)', '(?:a|b*)', '(?:(a)|)', '(?:a*|^)', '(?=)', '(?>)', '(?:$|a)', '(?:\\b|a)', '(?:(?=a)|b)', '(?:a*){2}', '(?:a{0})', '(a)?', '(?:a?\\b)', '(?=(a*))', '(?<=(a)|)', '(?:(?:)|(?:))', '(b*)(a*)', '(?:^a|)', '(?:a$|)']
def families(q):
    P = []
    k = 0
    for n in N:
        for x in Q:
            if x[0] == '?' and n.endswith('??'): continue
            p = ('(?:%s)' % n if len(n) > 1 and not n.startswith('\\') and (not n.startswith('(') or not n.endswith(')') or n == '(b*)(a*)') else n) + x
            k += 1
            P.append(Pat(p, 0, 0, 'mstapk' if not q or k % 4 == 0 else 'a' if k % 4 == 1 else 's' if k % 4 == 2 else 'pk'))
            if k % (5 if q else 1) == 0: P.append(Pat(p + 'b', 0, 0, 'sa')); P.append(Pat('b?' + p, ML, 2, 'a'))
            if not q: P.append(Pat(p, ML, 2, 'sapk'))
            for y in Q:
                k += 1
                if q and (x not in ('*', '+?', '{0,2}', '?+') or y not in ('*', '+', '*?', '{2,}')): continue
                if y[0] == '?' and x == '??' or y[0] == '?' and x == '?' and n.endswith('?'): continue
                P.append(Pat('(?:%s)%s' % (p, y), 0, 1, 'sa' if not q else 'a'))
                if not q: P.append(Pat('(%s)%sb' % (p, y), 0, 1, 's'))
    for t in ('(?:(?:a*)*)*', '(?:(?:a?)+)+?', '(?:(?:(?:a*)*)*)*b', '((a*)*)*', '((a?)*?)*', '(?:(?:a*)+b?)*', '(?:(?:|a)*|b)*', '(?:a*?)*?b', '(?:a*b?)*c', '(?:(?:a|b)*)*', '(?:(?=(a*))b?)*', '(?:(?:a*)*b*)*', '(a*)*\\1', '(?:\\b)*a', '(?:^)*', '(?:^|$)*', '(?:(?!a)|b)*', '(?:()|a)*', '(?:()a?)+', '(?:(?<=a)|a)*', '(a?)\\1*', '(a*)(?:\\1)*', '(?:(a?)\\1)*', '(?:(a*)|\\1)*', '()\\1*', '()\\1+a', '(?:(?:)*)*', '(?:(?:)+)+', '(?:(?>a*)*)*', '(?:(?=a*)*)*', '((?:)*)*', '(?:a*+)*', '(?:a*+)++', '(?:a++)*', '(?:a{0,3})*', '(?:a{0,3}){2,}', '(?:a{0,2}?){2,}?', '(?:(a)|(b)|)*', '(?:(a)|(b)|){3,}', '(?:a?){10}', '(?:a?){0,10}', '(?:a*){3}', '(?:){5}', '(?:){3,}', '(?:){2,}?', '(?:){2,}+', '(?:a?){2,}+b'):
        P.append(Pat(t, 0, 0, 'mstapk')); P.append(Pat(t, ML, 2, 'sapk'))
    for t in ('a*', '(a*)*' if 0 else '(?:a)*', 'a*?', 'a?', '(?:a?)+' , '(?:)*', 'a{0,5}', '(a)?', '\\b', '$', '(?=a)', '(?<=aa)', 'a+', '.*?', '(?:a|)', '(?:|a)*?', '(?:a*?)*'):
        P.append(Pat(t, 0, 3, 'mstapk'))
    return P
def check(ck):
    ck.add('nullable', families(ck.quick), DOM, keep_divergent=True)
    ck.go(hang=15)
