"""lookaround and atomic groups: all contents x placements, all subjects"""
from vlib import Pat, CI, ML
import fam
DOM = [('ab', 6), ('abc', 5), ('ab\n', 4), ('aAb', 4)]
AHEAD = ['a', 'ab', 'ba', 'a|b', '[ab]', '.', 'a?', 'a*', 'a+b', 'a*?b', '(a)', '(a)|(b)', '(a|b)b', 'a(?=b)', 'a(?!b)', '(?!a)', '(?=a).', '(?<=a)b', '(?<!a)b', 'a$', '$', '^', '\\b', '(?:)', '(?>a|ab)b', '(?>a*)b', 'a{2}', '(a)\\1', '(?:ab)*b', '(a*)b', 'a++', '..', 'aa|ab', '(?:a|ab)(?:b|$)']
BEHIND = ['a', 'ab', 'ba', 'aba', 'a|b', 'ab|b', 'a|ab', 'aa|b', '(?:a|b)b', 'a(?:a|b)', '(?:a|bb)a', '(?:ab|b)(?:a|ba)', '[ab]', '.', '..', 'a.', '.b', '...', '[^a]', '[^a]b', '^', '^a', '$', '\\b', '\\ba', 'a\\b', '\\Aa', 'a$', '(?:)', 'a(?=b)', '(?!b)a', '(?<=a)b', '(?<!a)b', '(?<=b)', 'a(?<=a)', '(?<=(?<=a)b)a', '(?:)a', '(?:^|b)a', '(?:a|^)', 'a|^b', '\\w\\W', '^.', '.{2}', 'a{2}', '(?:ab){2}', 'a+', 'a*b', 'ba*', '(?:a|b)+b', 'a?b', 'a*?b', 'a++b', '^a*', '^.*b', '(?>ab|b)', '(?>a|b)b', '(a)', '(a|b)b', '(a)|(b)', '(?<n>a*)', '(a+)(b*)', 'b{1,2}a?', '(?:ab?)*', '(?=b)a*', 'a(?!b)b*', '(?<=a+)b', '(a)(?<=(b)a)', '(a+?)', '(a*?)', '(a??)b?', '(a{1,2}?)', '(a{1,2})', '(a?)', '(a++)', '(a*+)', '(b*?)(a*)', '(b*)(a*?)', '(?:(a)|(b))+', '(?:(a)|(b))+?', '(?:(a)|b)*', '(a|ba)(b?)', '(?<n>b+?)(?=a)', '(?>(a*))', '(?>(a|ba))', '((a)|b)+?', '(.(.))', '(.*?)b', '(a)?b', '(a)??b']
FA = ['(?%sX)', '(?%sX)a', '(?%sX).', '.(?%sX)', 'a*(?%sX)', 'a*?(?%sX)b', '.*(?%sX).', '(?:(?%sX)a|b)', '(?:(?%sX).)*', '(?:(?%sX)a)?b', '((?%sX)a)', '(?%sX)*a', '(?%sX){2}a', '(?:a|(?%sX)b)', '(?%sX)(a|b)', '(?:(?%sX)|a)b']
FB = ['(?%sX)', '(?%sX)a', '(?%sX).', '.(?%sX)', 'a*(?%sX)', '.*?(?%sX)b', '.*(?%sX)', '(?:.(?%sX))*', '(?:(?%sX)a|b)', '(?:(?%sX)a)?b', '((?%sX).)', 'b?(?%sX)$', '(?:.(?%sX)|ab)', '.(?%sX)(a|b)', '(?:(?%sX)|a)b']
AT = ['a|ab', 'ab|a', 'a*', 'a+', 'a?', 'a*?', 'a??', '(a|ab)', '(a)|(ab)', '(a*)', 'a*b', 'a*b*', '(?:a|b)*', '(?>a|ab)', '(?>a*)b|aa', 'a{1,2}', 'a{1,2}?', 'a|b|ab', '(?=a).|ab', '(?:ab?)*', 'a+?b?', '(a+)|b', '(?:a|(b))*', '(?!a)b|a', '.*', '.*?b', '[ab]{2}|a', '']
FC = ['(?>X)', '(?>X)b', '(?>X)a', '(?>X)(b?)', 'a?(?>X)b', '(?:(?>X)b)*', '(?:(?>X)|b)a', '(?>X)*', '(?>X)+b', '(?>X)?b', '(?>X){2}', '((?>X))b', '(?=(?>X)b).', '(?!(?>X)b).', '(?>b(?>X))b', '(?:(?>X)b|a*)', '(a)?(?>X)', '(?>X|b)b', '(?>(?>X)b|a)b', '(?>X)$', 'a*(?>X)b']
def families(q):
    A, B, C = [], [], []
    i = 0
    for fs, xs, out, signs in ((FA, AHEAD, A, ('=', '!')), (FB, BEHIND, B, ('<=', '<!'))):
        for f in fs:
            for x in xs:
                for s in signs:
                    i += 1
                    if q and f not in fs[1:5] and i % 3: continue
                    out.append(Pat(f.replace('X', x).replace('%s', s), 0, 1 if 'c' in x else 0, 's' if q else 'msa'))
    for f in FC:
        for x in AT:
            i += 1
            if q and f not in FC[1:5] and i % 2: continue
            C.append(Pat(f.replace('X', x), 0, 0, 's' if q else 'msa'))
    # several assertions at one position, assertions of both directions, nesting up to depth 3
    xs = ['a', 'b', 'ab', '.', 'a|b', '(a)', 'a$']; ys = ['a', 'b', 'ab', '.', 'a|bb', '^', '^a']
    for x in xs:
        for y in xs:
            for f in ('(?=X)(?=Y).', '(?=X)(?!Y).', '(?!X)(?!Y).', '(?=(?=X)Y)', '(?=(?!X)Y).', '(?!(?!X)Y).', '(?!(?=X)Y).', '(?=X(?=Y))', '(?!X(?=Y)).', '(?=X|(?=Y)b).', '(?:(?=X)a|(?=Y)b)*', '(?=X)(Y)') if not q else ('(?=X)(?!Y).', '(?!(?!X)Y).', '(?!X(?=Y)).'):
                A.append(Pat(f.replace('X', x).replace('Y', y), 0, 0, 's'))
        for y in ys:
            for f in ('(?<=Y)(?=X)', '(?<!Y)(?=X)', '(?<=Y)(?!X).', '(?<!Y)(?!X).', '(?=(?<=Y)X)', '(?!(?<=Y)X).', '(?!(?<!Y)X).', '.(?=X(?<=Y))', '.(?!X(?<=Y)).') if not q else ('(?<!Y)(?=X)', '(?!(?<=Y)X).'):
                B.append(Pat(f.replace('X', x).replace('Y', y), 0, 0, 's'))
    for x in ys:
        for y in ys:
            for f in ('(?<=X)(?<=Y).', '(?<=X)(?<!Y).', '(?<!X)(?<!Y).', '(?<=(?<=X)Y)', '(?<=(?<!X)Y).', '(?<!(?<=X)Y).', '(?<!(?<!X)Y).', '(?<=X|Y).', '(?<=(?:X|Y)b)') if not q else ('(?<!(?<=X)Y).', '(?<=(?<!X)Y).', '(?<=X|Y)'):
                B.append(Pat(f.replace('X', x).replace('Y', y), 0, 0, 's'))
    # inside of lookarounds the flags stay in force
    for f in ('(?=X).', '(?!X).', '.(?<=X)', '.(?<!X)', '(?>X|aa)b', '(?=.X)a'):
        for x in ('a', 'ab', 'A', 'a|b', '[a-b]', '^a', 'a$', '.'):
            A.append(Pat(f.replace('X', x), CI, 3, 's')); A.append(Pat(f.replace('X', x), ML, 2, 's'))
    return A, B, C
def check(ck):
    A, B, C = families(ck.quick)
    ck.add('lookahead', A, DOM); ck.add('lookbehind', B, DOM); ck.add('atomic', C, DOM)
    ck.go()
