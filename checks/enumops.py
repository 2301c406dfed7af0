"""patterns shared by the checks of search_all (C09), split (C10) and tokenize (C11)"""
from vlib import Pat, CI, ML
import fam
DOM = [('ab', 7), ('abc', 5), ('ab\n', 5), ('aAb', 4), ('a', 40), ('a,', 9), ('ab-_ ', 4)]
def families(op, q):
    P = []
    A = fam.Ast(['a', 'b', '.'] if q else ['a', 'b', '.', '[ab]', '(?:)'], ['*', '?', '+', '*?', '??'] if q else ['*', '?', '+', '*?', '+?', '??', '{2}', '*+'], ['(%s)'])
    P += [Pat(x, 0, 0, op) for x in A.upto(3)]
    T = ['^', '$', '\\A', '\\z', '\\Z', '\\b', '\\B', '(?=a)', '(?=b|$)', '(?!a)', '(?<=a)', '(?<!a)', '(?<=^a)', '(?<=ab)', '(?<!ab)', '(?<=a|^)', '(?<=\\Ba)', '(?<!^)', '(?<=(?!b).)', '(?=(a*))', '(?<=(a))', '(?!$)']
    for t in T:
        for f in ('%s', '%sa', 'a%s', '%s.', '.%s', '%sa*', 'a*%s', '(?:%s|b)', '(?:%sa)?', '%s(a|b)', '%s|a', 'a|%s', '(%s)') if q else ('%s', '%sa', 'a%s', '%s.', '.%s', '%sa*', 'a*%s', '(?:%s|b)', '(?:%sa)?', '%s(a|b)', '%s|a', 'a|%s', '(%s)', '(?:%sa)*', '.?%s', '%s.?', '(?:%s.)*b?', 'b?(%s)a', '(?:%s)?b', '%s(?<n>.)?'):
            P.append(Pat(f % t, 0, 0, op))
            if t in T[:7] or not q: P.append(Pat(f % t, ML, 2, op))
    for t in ('(a)|(b)', '(a)?b', '(a)?(b)?', '(a+)(b*)', '(?<x>a)|(?<y>b)', '(a*)', '(a*?)', '(a|b)(b)?', '(?:(a)|b)+', '(a)*', '(a)*b', '((a)b?)', '(.)\\1', '(.)(?=\\1)', '(a|ab)(b?)', '(?:a|(b))(?:(a)|b)', '(?=(.))', '(?=(.)).', '(a)|$', '(a)|b*', 'a*|b', 'a*?|b', 'ab|a|', '|a', 'a|', '(|a)', '()', '(?:)', '(b*)(a*)', '(?>a*)', 'a++', 'a*+', 'a{2}', 'a{2,3}', 'a{0,2}', '(?:ab){1,2}', '(?:ab)*', '(?:a|b){2}', 'ab|ba', 'aba', 'aa', 'aab', 'a.b', 'a[^b]', '[^a]', '[^a]+', 'a+b', 'a+?b', '.*', '.+', '.*?', '.+?', '.*b', '.*?b', '[^]', '\\w', '\\w*', '\\W', 'a(?=b)', 'a(?!b)', '(?<=a)b', '(?<!a)b', 'b(?<=ab)', '(?<=b)a*', '(?<!b)a*', 'a*(?<=aa)', '^a', '^', '$', '^$', '^a*', 'a*$', '\\Aa', 'a\\z', '^a|b', '(?:^|b)a', 'a(?:b|$)', '(?:^a)?', '(?:^a)?b', '(?:^a|b)?', '\\A\\z', '(a(b)?)+', '(?:(a)(b)?)+'):
        for d in (0, 1):
            P.append(Pat(t, 0, d, op))
        P.append(Pat(t, ML, 2, op))
        if not q: P.append(Pat(t, CI, 3, op)); P.append(Pat('(?i)' + t, 0, 3, op)); P.append(Pat('(?m)' + t, 0, 2, op))
    for t in ('a', '(a)', 'a*', 'a?', 'a{3}', 'aa', '(a)?', '$', 'a{5,7}', '(?<=aa)', 'a+', '(?:)', 'b'): P.append(Pat(t, 0, 4, op))
    for t in (',', ',,', ',+', ',*', '(,)', '(,)|a', '(?<c>,),?', ',?', '(?<=a),', ',(?=a)', ',|$', '^,|,$', '(a)?,', ',(a)?', 'a(,)a'): P.append(Pat(t, 0, 5, op))
    for t in ('\\b', '\\B', '\\w+', '\\W+', '\\b\\w', '\\w\\b', '[_\\-]', ' ', ' +', '(\\w)(\\W)?', '(?<![a-b])_', '\\b_?', '\\s|(-)'): P.append(Pat(t, 0, 6, op))
    for t in ('a', 'A', '[a-b]', '(a)', '(.)\\1', '[^a]', '(?c)a', 'aB|Ab'): P.append(Pat(t, CI, 3, op))
    return P
def check(ck, op, name):
    ck.add(name, families(op, ck.quick), DOM)
    ck.go()
