"""accessors of results"""
from vlib import CLANG, cstr
PATS = ['(a)|(b)', '(?:(a)|(b))*', 'a*', '(a)?(b)?', '((a)b)?', '(?=(a))', '(?<=(a))b?', '()', '(a*)(b*)', '(?:(a)|b)+?', '(?!(a))', '(?<n>a|)(?<m>b)?', '(?:a|(b))(?:(c)|b)', '1(-)?', '(?>(a)|(b)|)', '(a{0})(b)?', '(?:(a)?b)*']
def check(ck):
    q = ck.quick
    jobs = []
    for i, p in enumerate(PATS):
        t = [('char', 'a'), ('wchar_t', 'w')] if q else [('char', 'a'), ('wchar_t', 'w'), ('char16_t', 'x'), ('char32_t', 'y')]
        if q and i % 2: t[1] = ('char16_t', 'x') if i % 4 == 1 else ('char32_t', 'y')
        al = 'ab' + ('1-' if '1' in p else 'c' if 'c' in p else '')
        n = (4 if len(al) == 2 else 3) + (0 if q else 2)
        src = '#include "c19.hpp"\nPATTERN(pat, %s)\nint main() { sp::start(); %s return sp::done(); }\n' % (cstr(p), ' '.join('pattern_on<%s>(pat{}, %s, %d, %d);' % (c, cstr(al), n, 2 if q else 3) for c, _ in t))
        jobs.append(dict(name='p%d' % i, src=src, opt='-O1', defs=('QUICK',) if q else ()))
        if not q or i % 5 == 0: jobs.append(dict(name='p%d_clang' % i, src=src, opt='-O1', cxx=CLANG, defs=('QUICK',) if q else ()))
    jobs.append(dict(name='numbers', src='#include "c19.hpp"\nint main(int, char ** a) { sp::start(); number_texts(a[1], unsigned(atoi(a[2])), unsigned(atoi(a[3])), 8); return sp::done(); }\n', runs=[['019-+.ef ', 4 if q else 5, k] for k in range(8)] + [['02-xXzZ', 3 if q else 5, k] for k in range(0, 8)], opt='-O1'))
    ck.drivers(jobs)
