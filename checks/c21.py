"""case-insensitive matching: letters, ranges, sets, words, switches; all units / all words over both cases and the neighbours of the letters"""
import itertools, fam
from vlib import Pat, CI, ML
DOM = [(''.join(map(chr, range(256))), 1), ('aAbB', 5), ('aAzZ@[`{\xe0\xc0', 3), ('aAkKsS1_', 4), ('aA\n', 5), (''.join(map(chr, range(256))), 2)]
E = '@AGMZ[`agmz{\x7f\x1f'
def families(q):
    A, W = [], []
    for c in range(128):
        t = '\\x%02x' % c
        A.append(Pat(t, CI, 0, 'm'))
        if chr(c).isalpha():
            for f in (['%s', '[%s]', '[^%s]', '(?i)%s'] if not q else ['%s', '[^%s]']): A.append(Pat(f % chr(c), 0 if 'i' in f[:4] else CI, 0, 'm'))
    for c in (0xaa, 0xb5, 0xc0, 0xd7, 0xdf, 0xe0, 0xf7, 0xff): A.append(Pat('\\x%02x' % c, CI, 0, 'm')); A.append(Pat('[\\x%02x]' % c, CI, 0, 'm'))
    k = 0
    for a in E:
        for b in E:
            r = '%s-%s' % tuple('\\x%02x' % ord(x) for x in (a, b))
            k += 1
            A.append(Pat('[%s]' % r, CI, 0, 'm'))
            if not q or k % 3 == 0: A.append(Pat('[^%s]' % r, CI, 0, 'm')); A.append(Pat('(?i)[%s_]' % r, 0, 0, 'm')); A.append(Pat('[%s]' % r, 0, 0, 'm'))
    for x in ('\\d', '\\w', '\\W', '\\s', '\\D', '\\S', '\\h', '\\H', '\\v', '\\N', '.') + tuple('[[:%s%s:]]' % (n, c) for n in ('', '^') for c in ('alnum', 'alpha', 'ascii', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'word', 'xdigit')) + ('[[:lower:]_]', '[^[:upper:]]', '[^[:lower:]1]', '[a[:digit:]]', '[A-Fx]', '[^A-Fx]', '[aB-D]', '[\\da-c]', '[^\\WA]', '[^\\W]', '[\\Da]', '[A-z]', '[a-Z]', '[Z-a]', '[z-A]', '[a-za-z]', '[aA]', '[^aA]', '[^]', '[k]', '[s]', '[i]'):
        if x in ('[a-Z]', '[z-A]'): continue
        for fl in (0, CI): A.append(Pat(x, fl, 0, 'm'))
        A.append(Pat('(?i)' + x, 0, 0, 'm'))
    for f in (0, CI):
        for t in ('a', 'A', 'ab', 'aB', 'AB', 'Ab|b', '(aB)', '(?<n>Ab)', 'a*B', 'a*?B', 'a*+b', 'A+b', '(?:aB)*', 'a?B', '(?=Ab).', '(?!aB).', '(?<=A)b', '(?<!a)B', '(?<=aB).', '(?>aB|A)b?', '^A', 'A$', '\\bA', 'a{2}', 'A{1,2}b', '[a-b]B', '[^A]b', '(.)\\1', '(A)\\1', '(a|B)\\1', '(?:A|b)\\z', 'Aba', 'abab', 'A.b', 'b*A', '[ab]*B', '[^b]*b', 'A*a', 'A*b?a', 'a*[A-B]', '(?:(A)|b)+', '.*A', '.*?A.'):
            W.append(Pat(t, f, 1, 'msa' if not q else 'ms'))
            if t == 'Ab|b': continue # a leading switch reaches only the first alternative: known finding
            for p in ('(?i)', '(?c)', '(?i)(?c)', '(?c)(?i)', '(?ic)', '(?ci)', '(?im)') if not q else ('(?i)', '(?c)'):
                W.append(Pat(p + t, f, 1, 's'))
    # switches in the middle of a top-level sequence are in force until the end
    for t in ('a(?i)b', 'a(?i)b(?c)a', '(?i)a(?c)b', '(?i)ab(?c)ab', 'A(?i)(?:b|a)', '(?i)(a)(?c)b\\1', '(?i)a*(?c)b', 'a(?c)b', 'a*(?i)b', '(a)(?i)\\1', '[a](?i)[a]', '(?i)[a-b](?c)[a-b]', '(?=a)(?i).b', 'a(?i)(?=b).', 'a(?i)(?!b).', '(?i)a(?m)b', '(?i)a(?s)b', '(?i)', 'a(?i)', '(?i)a(?c)', 'ab(?i)ab', '(?i)ab(?c)ba(?i)ab'):
        for f in (0, CI): W.append(Pat(t, f, 1, 'ms'))
    for t in ('az', 'Z@', 'z\\{', '[A-Z]`', '[a-z]+', '[^a-z]+', '[@-Z]+', '[[-z]', '\\xe0', '\\xc0.', '[\\xc0]', '[\\xc0-\\xe0]', '\\xe0\\xc0'):
        if t == '[[-z]': t = '[\\[-z]'
        for f in (0, CI): W.append(Pat(t, f, 2, 'ms'))
    for t in ('kas', 'K[s]', '[a-k]S', 'a1_K', '\\wk', 'S*k', 's\\b', '_A'):
        for f in (0, CI): W.append(Pat(t, f, 3, 's'))
    for t in ('(.)\\1', '(.)(?i)\\1', '(?i)(.)(?c)\\1', '(.)(?!\\1).', '..'):
        for f in (0, CI): A.append(Pat(t, f, 5, 'm'))
    for t in ('^a', 'A$', '(?i)^a', '(?m)^A', '(?i)(?m)a$', '(?im)a$', '(?mi)^A', '(?s)(?i)a.'):
        for f in (0, CI, ML, CI | ML): W.append(Pat(t, f, 4, 'ms'))
    return A, W
def check(ck):
    A, W = families(ck.quick)
    ck.add('units', A, DOM); ck.add('words', W + fam.known(ck, 1, 'ms'), DOM)
    ck.go()
