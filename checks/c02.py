"""captures: every placement of groups in alternations, repetitions, nesting, lookaheads and atomic groups, all subjects"""
from vlib import Pat
import fam
DOM = [('ab', 6), ('abc', 4)]
X = ['(a)', '(b)', '(ab)', '(a?)', '(a*)', '(a|b)', '((a)b)', '(a(b)?)', '(?<n>a)', '(a+?)', '()', '(.)']
F2 = ['%s%s', '%s|%s', '(?:%s|%s)*', '(?:%s|%s)+?', '(?:%s%s)*', '(?:%s?%s)*', '%s*%s', '%s??%s', '%s?%s', '(?=%s)%s', '(?!%s)%s', '(?>%s|%s)b', '%s{2}%s',
      '(?:%s|%s){2,3}', '(%s|%s)*', '%s*+%s', '(?:%s%s|a)b', '(?:%s%s)?a', '(%s%s)+', '%s(?=%s)', '(?:%s|%s)*?b', '(%s)|(?:a%s)', '(?>%s*)%s', '%s{0}%s', '(?:%s(?!%s))+', '%s++%s', '(?=%s*)%s']
def families(quick):
    P = []
    A = fam.Ast(['a', 'b'], ['*', '?', '+?', '{2}'] if quick else ['*', '?', '+?', '{2}', '+', '??', '?+'], ['(%s)'])
    P += [Pat(x, 0, 0, 'ms') for x in A.upto(4) if '(' in x.replace('(?:', '') and ('(?:' not in x or not quick)]
    xs = X[:9] if quick else X
    for f in F2:
        for x in xs:
            for y in xs:
                t = f % (x, y)
                if t.count('?<n>') > 1: t = t.replace('?<n>', '?<m>', 1)
                if fam.canon(t): P.append(Pat(t, 0, 0, 's' if quick else 'mst'))
    if not quick:
        for f in ('%s%s%s', '%s|%s|%s', '(?:%s|%s|%s)*', '(?:%s%s?%s)+', '(%s|%s)*%s', '(?:%s(?:%s|%s))*', '(?=%s)%s|%s', '(%s(%s)?)*%s'):
            for x in X[:7]:
                for y in X[:7]:
                    for z in X[:7]:
                        if fam.canon(f % (x, y, z)): P.append(Pat(f % (x, y, z), 0, 0, 's'))
    return P
def check(ck):
    ck.add('captures', families(ck.quick), DOM)
    ck.go()
