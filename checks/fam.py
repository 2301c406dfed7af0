"""Exhaustive generators of pattern families (plain strings)."""
import itertools
from functools import lru_cache

QS = ['*', '+', '?']
QL = ['*?', '+?', '??']
QP = ['*+', '++', '?+']
QN = ['{2}', '{1,2}', '{0,2}', '{2,}', '{1,}', '{2,3}', '{0,1}', '{0,}', '{3}', '{1}']

def canon(p, letters='ab'):
    "True for the representative of a pattern under renaming of letters (subjects range over all of them anyway)"
    seen = []
    esc = False
    for c in p:
        if esc: esc = False; continue
        if c == '\\': esc = True; continue
        if c in letters and c not in seen: seen.append(c)
    return seen == sorted(seen) and list(letters[:len(seen)]) == seen

class Ast:
    """all regular expressions up to a size: leaves cost 1, quantifiers and groups 1, concatenation and alternation 0"""
    def __init__(self, leaves, quants, groups=('(%s)',), alt=True, empty=False):
        self.leaves, self.quants, self.groups, self.alt = leaves, quants, groups, alt
        self.memo = {}
    def size(self, n):
        if n in self.memo: return self.memo[n]
        out = []
        if n == 1: out += [(l, 'atom') for l in self.leaves]
        else:
            for x, k in self.size(n - 1):
                op = x if k == 'atom' else '(?:%s)' % x
                for q in self.quants:
                    # an optional directly around a lazy optional is documented-ambiguous (PCRE2 and ECMAScript differ): not claimed
                    if not (k == 'quant' and q[0] == '?' and x.endswith('??')): out.append((op + q, 'quant'))
                for g in self.groups: out.append((g % x, 'atom'))
            for i in range(1, n):
                for x, k in self.size(i):
                    for y, l in self.size(n - i):
                        if k != 'cat':
                            out.append((('(?:%s)' % x if k == 'alt' else x) + ('(?:%s)' % y if l == 'alt' else y), 'cat'))
                        if self.alt and k != 'alt': out.append((x + '|' + y, 'alt'))
        seen = set(); r = []
        for o in out:
            if o not in seen: seen.add(o); r.append(o)
        self.memo[n] = r
        return r
    def upto(self, n, letters='ab'):
        r = []
        for i in range(1, n + 1): r += [x for x, k in self.size(i) if canon(x, letters)]
        return list(dict.fromkeys(r))

def alts(words, k):
    return ['|'.join(c) for c in itertools.product(words, repeat=k)]

def uniq(l): return list(dict.fromkeys(l))

def known(ck, dom=0, ops='mst'):
    from vlib import Pat
    return [Pat(k['pattern'], k['flags'], dom, ops, known=True, like=k.get('like')) for k in ck.known]
