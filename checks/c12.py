"""filtering ranges of subjects"""
import vlib
from vlib import CI, ML, cstr, GXX, CLANG
PATS = [('a', 0), ('', 0), ('(a)(b)?', 0), ('b*', 0), ('^b', 0), ('a$', 0), ('(?<n>a|ab)b', 0), ('B', CI), ('^a$', ML), ('x', 0), ('(a)|(b)', 0), ('[^a]+', 0), ('\\ba\\b', 0)]
POOL = ['', 'a', 'ab', 'b', 'bab', 'a\nb', '\n', 'B']
OPN = ['match', 'search', 'starts_with']
def source(rows, nest, cpp17, pool, n, wide):
    o = []
    if cpp17: o.append('static constexpr auto pw = ctll::fixed_string{"[^,]+"}; static constexpr auto pc = ctll::fixed_string{","};\n#define RE_WORDS(s) ctre::search_all<pw>(s)\n#define RE_COMMA(s) ctre::split<pc>(s)\n')
    else: o.append('#define RE_WORDS(s) ctre::search_all<"[^,]+">(s)\n#define RE_COMMA(s) ctre::split<",">(s)\n')
    o.insert(0, '#include <ctre.hpp>\n'); o.append('#include "c12.hpp"\n')
    m = ['int main() { sp::start(); std::vector<std::string> pool{%s};\n' % ','.join('std::string(%s, %d)' % (cstr(p), len(p)) for p in pool)]
    for i, (t, fl, op) in enumerate(rows):
        q = cstr(t)
        if cpp17: o.append('static constexpr auto p%d = ctll::fixed_string{%s};\n' % (i, q)); q = 'p%d' % i
        re = '(ctre::%s%s<%s%s>)' % ('multiline_' if fl & ML else '', OPN[op], q, ', ctre::case_insensitive' if fl & CI else '')
        name = cstr('%s%s<%s>%s' % ('multiline_' if fl & ML else '', OPN[op], t, ' case insensitive' if fl & CI else ''))
        m.append('\tall(%s, %s, %s, %d, %d, pool, %d, %s);\n' % (name, re, cstr(t), fl, op, n, 'true' if wide else 'false'))
        if nest: m.append('\tnested(%s, %s, %s, %d, %d, %d);\n' % (name, re, cstr(t), fl, op, nest))
    return ''.join(o) + ''.join(m) + '\treturn sp::done(); }\n'
def check(ck):
    q = ck.quick
    jobs = []
    rows = [(t, fl, op) for t, fl in PATS for op in range(3)]
    for i, r in enumerate(range(0, len(rows), 3)):
        jobs.append(dict(name='cpp20_%d' % i, src=source(rows[r:r + 3], 6 if q else 9, False, POOL, 4 if q else 5, True)))
        if not q or i % 6 == 1: jobs.append(dict(name='cpp17_%d' % i, std='c++17', opt='-O2', src=source(rows[r:r + 3], 5, True, POOL, 4, True)))
        if not q or i % 6 == 3: jobs.append(dict(name='clang_%d' % i, cxx=CLANG, src=source(rows[r:r + 3], 5, False, POOL, 4, True)))
    ck.drivers(jobs)
    ck.sample('sequences of up to %d subjects from %r through %r' % (4 if q else 5, POOL, PATS))
