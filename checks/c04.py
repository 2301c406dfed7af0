"""optimisations are invisible: all pairs of repeated operand and continuation, build switches"""
from vlib import Pat, CI, ML
import fam
AL = 'abcABz0_-.[ \n\x80`{'
DOM = [(AL, 2), ('abAc', 4), ('aAbB-', 3), ('ab', 7), ('ab1', 4)]
C = ['a', 'b', 'c', 'A', '.', '[ab]', '[a-c]', '[b-z]', '[^a]', '[^b]', '[^a-c]', '[^ba]', '[^\\-]', '\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\N', '[\\w\\-]', '[^\\w]', '[^\\d]', '[\\W]', '[\\Da]', '[^\\D]', '[^\\Da]', '[c-z]', '[A-B]', '[[:alpha:]]', '[[:^alpha:]]', '[^[:alpha:]]', '\\x{80}', '\\h', '\\v', '[a-a]', '[^b-z]', '[_-b]', '[^\\x00-`]', '[c-a]', '[^]', '[^A-Zc]', '\\-', '[^a\\s]']
# continuations of every syntactic kind: the analysis has a case for each of them
Y = ['b?a', '(a)', '(?<n>a)', '(?:a|c)', '(?:c|a)b', 'c?', 'c??a', 'c*a', 'c*?a', 'c*+a', 'c+', 'c+?a', 'c++', 'c{2}', 'c{0,2}a', 'c{0,2}?a', 'c{0,2}+a', 'c{1,2}', '(?=a)a', '(?!b)a', '(?<=a)a', '(?<!b)a', '$', '^', '\\b', '\\B', '\\A', '\\z', '\\Z', '(?>a)', '(?>c?)a', '(?>ab)', '(?:)a', '(?:|c)a', '(?:c|)a', '()a', '((?:a))', 'ac', 'ca', '(?:a)+', '(?:ca)?a', '(?:(c)|a)', '(?:c?c*)a', '(c)?a', '(?:(?=a))a', '(c?)a', '(c*)$', '(?:c(?:c|b))?a', '[c]?[a]', '(?:^a|c)', '(?:a$|c)', '(?:$|c)', '(?:c|(?:c|a))', '(?:cc|ca)?a', 'a{0}a', 'c{0}a']
XS = ['a', '[ab]', '[^b]', '.', '(?:ab)', '(?:a|b)', '(a)', '(?:ab?)', 'A', '\\w', '(?>ab|a)', '(?:a(?=b|$))', '(?:(?<=a)b|a)', '(?:ba?)', '(?:\\ba)', '(a|(b))']
R = ['*', '+', '?', '{1,2}', '{2,}']
def pairs(quick):
    P = []
    for x in C:
        for y in C:
            P.append(Pat('%s*%s' % (x, y), 0, 0, 'm'))
    return P
import itertools
# all sets over four adjacent characters without another case (in both orders), negated, with ranges: every gap the analysis can get wrong
SUB = [''.join(s) for n in (1, 2, 3, 4) for s in itertools.combinations('1234', n)]
NEG = ['[^%s]' % s for s in SUB] + ['[^%s]' % s[::-1] for s in SUB if len(s) in (2, 3)] + ['[^1-24]', '[^13-4]', '[^3-41]', '[^1-24-5]', '[^2-3]', '[^1-13]', '[^1-32]', '[^113]', '[^1[:alpha:]3]', '[^\\s1]', '[^31-1]', '[^\\x311]', '[^/1]', '[^a1]', '[^1a]']
POS = ['[%s]' % s for s in SUB if len(s) > 1] + ['[1-24]', '[13-4]', '[3-41-1]']
def gaps(quick):
    P = []
    for x in NEG:
        for y in '1234': P.append(Pat('%s*%s' % (x, y), 0, 6, 'm')); P.append(Pat('%s*%s' % (y, x), 0, 6, 'm'))
        for y in (POS + NEG if not quick else POS[::4] + NEG[2::7]): P.append(Pat('%s+%s' % (x, y), 0, 6, 'm'))
    for x in POS:
        for y in (POS + NEG + list('1234')) if not quick else list('1234') + NEG[1::6]: P.append(Pat('%s*%s' % (x, y), 0, 6, 'm'))
    return P
def ci_pairs(quick):
    P = []
    for x in C[:26] + C[29:32] if quick else C:
        for y in C[:12] + C[27:30] if quick else C:
            P.append(Pat('%s*%s' % (x, y), CI, 2, 'm'))
    return P
def conts(quick):
    P = []
    for x in XS:
        for y in Y:
            for r in (R[:1] if quick else R):
                t = x + r + y
                P.append(Pat(t, 0, 1, 's' if quick else 'ms'))
                if not quick: P.append(Pat(t + 'b', CI, 1, 's')); P.append(Pat(t, ML, 1, 's'))
    # the repeat and its backreference, the empty content, the continuation being inside of an enclosing construct
    for t in ('(a)*\\1', '(a)b*\\1', '(?<n>a)c*\\g{n}', '(b)c*\\g{1}a', '(?:a*)a', '(?:a*b?)*a', '(?:a*)*b', '(a*)a', '(?:a*|b)a', '(?:b|a*)a', '(?=a*a)aa', '(?!a*b)aa', '(?>a*)b|aa', '(?:a*){2}a', '(?:ba*)+a', '(?:ba*)*a', '(?:a*b)*a', '(?:a*(?:))a', 'a*(?:b*a)', 'a*(?:b*(?:c*a))', '(?:a|ab*)b', '((a*)b*)a', 'a*b*a', 'a*b*c*a', 'a?b?a', 'a*(?:b|c)*a', '(?:(a)|b)*a', 'a*(?:b?|c)a', '(?:a*)?a', '(?:a+)?a', '(?:a+){1}a', '(?:a+)b|a+a'):
        P.append(Pat(t, 0, 1, 'ms'))
    # adjacent repeats and literals (fusion)
    for x in ('a', '[ab]'):
        for q in ('', '*', '+', '?', '{2}', '{1,2}'):
            for r in ('', '*', '+', '?', '{2}', '{2,3}'):
                for s in ('', '*', '?', '{1,2}') if quick else ('', '*', '+', '?', '{1,2}', '{2}'):
                    for m in ('',) if quick else ('', '?', '+'):
                        qq = [z + m if z and z != '{2}' else z for z in (q, r, s)]
                        P.append(Pat(''.join(x + z for z in qq), 0, 3, 'm'))
    for m in ('?', '+'):
        for q in ('*', '+', '{1,2}', '{0,2}'):
            for r in ('*', '+', '{1,2}', '{0,2}', '{2,3}'):
                P.append(Pat('a' + q + m + 'a' + r + m, 0, 3, 's')); P.append(Pat('a' + q + m + 'a' + r + m + 'b', 0, 3, 's'))
                P.append(Pat('(a' + q + m + 'a' + r + m + ')(a*)', 0, 3, 'm'))
    for t in ('ab', 'abc', 'a(?:b)c', '(?:ab)(?:ca)', 'a(?:bc)', '(?:ab)c', 'ab(?:c|a)', 'abc?', 'ab*c', 'ab(?:)c', 'a\\x62c', 'a[b]c', '(?:ab)c*', 'a(?:b(?:c(?:a)))', '(?:a)(?:b)', 'a|bc', 'ab|c', '(ab)c', 'a(bc)', 'abca', '(?:a(?:b))c', '(?:(?:a)b)c', 'a(?:b|c)a', 'ab^c', 'ab$', '^ab', '(?:ab)+c', 'ab+c', 'ab{2}c'):
        P.append(Pat(t, 0, 1, 'ms')); P.append(Pat(t, CI, 1, 'ms'))
    # anchored searches
    for a in ('^', '\\A', '\\b', '$', '\\B', '(?:)', '(?=a)', '(?<=a)', '(?!b)'):
        for f in ('%sa', '(?:%sa)?b', '(?:%sa|b)', '(?:%sa|^b)', '(?:%sa|%sb)', '(%sa)b', '(?<n>%sa)', '(?:%sa)*b', '(?:%sa)*?b', '(?:%sa)*+b', '(?:%sa)+b', '%s?a', '(?:%s|b)a', '(?:%sa)??b', '(?>%sa)', 'a?%sb', '(?:%sa)?^b', '(?:%sa){0,1}b', '(?:%sa){1,2}b', '(?=%s)a', '%s%sa', 'a*%s', '(?:(?:%sa)?|b)b', '(?:%sa){0}b', '(?:%s)*a'):
            t = f.replace('%s', a)
            for fl in (0, ML):
                P.append(Pat(t, fl, 1 if not fl else 5, 's'))
    return P
DOM.append(('ab\n', 4)); DOM.append(('12345a', 3))
def check(ck):
    q = ck.quick
    P, S = pairs(q), conts(q)
    ck.add('pairs', P, DOM)
    ck.add('gaps', gaps(q), DOM)
    ck.add('ci_pairs', ci_pairs(q), DOM)
    ck.add('continuations', S, DOM)
    for d in ('CTRE_DISABLE_GREEDY_OPT', 'CTRE_MSVC_GREEDY_WORKAROUND'):
        ck.add('switch', S[::8 if q else 2] + P[::25 if q else 5], DOM, defs=(d,))
    ck.go()
