"""anchors, line modes, word boundaries: every assertion in every kind of surrounding, both line modes, all subjects"""
from vlib import Pat, CI, ML
import fam
DOM = [('a-\n_', 4), (''.join(map(chr, range(256))), 2), ('a\n', 7), ('a\r\n\x0b\x85', 3), ('a-', 6)]
T = ['^', '$', '\\A', '\\z', '\\Z', '\\b', '\\B']
FORMS = ['%s', '%sa', 'a%s', 'a%s-', '-%sa', 'a%sa', '(?:%s|a)-', '(?:%sa)?-', '(?:%sa|-)', '(%s)a', '(?<n>a%s)', 'a*%s', 'a*%sa?', '.*%s', '.*?%s.', '.%s.', '%s.*', '[^a]%s', '%s[^a]', '\\n%s', '%s\\n', '\\n%s\\n', '\\n?%s\\n',
         '(?:a%s)*-?', '(?:%s.)*', '(?:%s.)+', '(?:.%s)+', '(?:%s.)*?-', '(?=%s)a', '(?!%s)a', '(?!%s).', 'a(?=%s)', 'a(?!%s)', '.(?=.%s)', '(?<=%s)a', '(?<!%s)a', '.(?<=%s)', '.(?<!%s)', '(?<=%sa).', '(?<!%sa).', '(?>%s)a', '(?>a%s)', '(a|%s)+', '(?:%s)?a', '(?:%s){1}a', '(?:%s){2}a', '(?:%s)*a', 'a++%s', 'a+?%s', '(?:a%s|-%s)', '(?:(?:%s)a|-)', '%s|-', 'a|%s', '(?:a|%s|-)-', '(?:-|a)%s', '%s(?:-|a)', 'a{2}%s', '%sa{1,2}%s', '(a%s)-', '(a)%s(-)?', '(?:a?%s)-', '\\w%s', '\\W%s', '%s\\w', '%s\\W', '\\s%s', '.{2}%s', '%s.{2}', '(?:%s(a))?(.)']
def families(q):
    P = []
    for t in T:
        for fl in (0, ML):
            for i, f in enumerate(FORMS):
                P.append(Pat(f.replace('%s', t), fl, 0, 's' if i % 4 and q else 'ms' if q else 'mstak'))
            for f in ('%s', '%sa', 'a%s', '.%s', '%s.', '%s.%s', 'a*%s', '(?:%s)a*'):
                P.append(Pat(f.replace('%s', t), fl, 0, 'ta' + ('' if q else 'pk')))
                P.append(Pat(f.replace('%s', t), fl, 2, 's'))
    for t in T:
        for u in T:
            for fl in (0, ML):
                for f in ('%s%s', 'a%s%s', '%s%sa', 'a%sa?%s', '%s-%s', '%s|%s', '(?:%sa|%s-)') if not q else ('a?%s%sa?', '%s.?%s'):
                    P.append(Pat(f % (t, u), fl, 0, 's' if q else 'ms'))
    # which units are word characters and which are line ends: every pair of byte values
    B = []
    for t in ('.\\b.', '.\\B.', '\\b.', '.\\b', '\\B.', '(?<=.)\\b.'): B.append(Pat(t, 0, 1, 'ms'))
    for t in ('.\\b.', '\\b.'): B.append(Pat(t, CI, 1, 's'))
    for fl in (0, ML):
        for t in ('[^]^[^]', '[^]$[^]', '[^]$', '^[^]', '[^]\\Z', '[^]\\Z[^]', '\\A[^]', '[^]\\z', '[^]\\A', '\\z[^]', '..', '.'): B.append(Pat(t, fl, 1, 's' if q else 'ms'))
        for t in T: B.append(Pat('%s.%s' % (t, t), fl, 3, 'sa')); B.append(Pat('(?:^|%s)(.*)(?:$|%s)' % (t, t), fl, 3, 'sa'))
    # leading mode switches select the line mode
    for s, fl in (('(?m)', 0), ('(?s)', ML), ('(?ms)', 0), ('(?sm)', ML), ('(?mi)', 0), ('(?s)(?m)', 0), ('(?m)(?s)', ML), ('(?ci)', 0), ('(?msi)', 0), ('(?smi)', 0), ('(?icm)', 0), ('(?imcs)', ML)):
        for t in ('^a', 'a$', 'a\\Z', '.', 'a.a', '.*', '^.*$', '\\Aa', 'a\\z', '[^a]', '(?:^a)+'): B.append(Pat(s + t, fl, 2, 'ms'))
    return P, B
def check(ck):
    P, B = families(ck.quick)
    ck.add('assertions', P, DOM)
    ck.add('unit classes', B, DOM)
    ck.go()
