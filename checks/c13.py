"""spellings of subjects and calls"""
import vlib
from vlib import CI, ML, cstr, GXX, CLANG
# pattern, flags, needs bidirectional iterators
PATS = [('a(b)?|b', 0, 0), ('(?<n>a+)b*?(c|$)', 0, 0), ('', 0, 0), ('[a-c1]+', 0, 0), ('a|^b', 0, 0), ('(a)\\1', 0, 0), ('\\w(?=b)', 0, 0), ('(?<=a)b', 0, 1), ('\\bb', 0, 1), ('.b', ML, 0), ('Ab?', CI, 0), ('(a*)(b*)', 0, 0), ('^a|b$', ML, 1), ('(?:ab|a)\\s*+', 0, 0), ('(a|b)(?<!\\1\\1)', 0, 1)]
OPN = ['match', 'search', 'starts_with', 'search_all', 'split', 'tokenize']
def source(t, fl, bidi, ops, alphabet, n, cpp17, lits):
    o = []; q = cstr(t); ml = 'multiline_' if fl & ML else ''; ci = ', ctre::case_insensitive' if fl & CI else ''
    if cpp17:
        o.append('#include <ctre.hpp>\nstatic constexpr auto pat = ctll::fixed_string{%s};\nstatic constexpr auto pat2 = ctre::pattern{%s};\nstatic constexpr ctre::fixed_string pat3{%s};\nstatic constexpr const ctll::fixed_string<%d> & pat4 = pat;\n' % (q, q, q, len(t))); q = 'pat'
    o.append('#include "c13.hpp"\nusing namespace ctre::literals;\nstruct M {\n\tstatic constexpr const char * text = %s; static constexpr unsigned flags = %d; static constexpr bool bidirectional = %s;\n' % (cstr(t), fl, 'true' if bidi else 'false'))
    o.append('\ttemplate <int OP, class... A> static auto f(A && ... a) {\n')
    for k in range(6): o.append('\t\t%sif constexpr (OP == %d) return ctre::%s%s<%s%s>(std::forward<A>(a)...);\n' % ('else ' if k else '', k, ml, OPN[k], q, ci))
    o.append('\t\telse return ctre::%siterator<%s%s>(std::forward<A>(a)...);\n\t}\n' % (ml, q, ci))
    o.append('\ttemplate <int OP, class S> static auto pipe(S && s) {\n')
    for k in (3, 4, 5): o.append('\t\tif constexpr (OP == %d) return std::forward<S>(s) | ctre::%s%s<%s%s>;\n' % (k, ml, OPN[k], q, ci))
    o.append('\t}\n\ttemplate <int OP, class C> static void calls([[maybe_unused]] C && c, [[maybe_unused]] std::string_view s) {\n')
    for k in ops:
        b = OPN[k]; meth = ml + ('range' if k == 3 else b)
        calls = ['ctre::%s%s<%s%s>.exec(s)' % (ml, b, q, ci), 'ctre::%s%s<%s%s>.try_extract(s)' % (ml, b, q, ci), '[](auto f, auto s) { return f(s); }(ctre::%s%s<%s%s>, s)' % (ml, b, q, ci)]
        if k == 3: calls.append('ctre::%srange<%s%s>(s)' % (ml, q, ci))
        if not fl & CI: # the modifiers do not travel through these
            calls += ['ctre::match<%s>.%s(s)' % (q, meth), 'ctre::split<%s>.%s(s)' % (q, meth), 'ctre::multiline_search<%s>.%s(s)' % (q, meth), 'ctre::re<%s>().%s(s)' % (q, meth)]
            if lits: calls += ['%s_ctre.%s(s)' % (cstr(t), meth), '%s_ctre.%s(s.begin(), s.end())' % (cstr(t), meth)]
        if cpp17: calls += ['ctre::%s%s<pat2%s>(s)' % (ml, b, ci), 'ctre::%s%s<pat3%s>(s)' % (ml, b, ci), 'ctre::%s%s<pat4%s>(s)' % (ml, b, ci)]
        if not cpp17:
            for pre in ('L', 'u', 'U', 'u8'):
                calls.append('ctre::%s%s<%s%s%s>(s)' % (ml, b, pre, cstr(t), ci))
                if lits and pre == 'U' and not fl & CI: calls.append('%s%s_ctre.%s(s)' % (pre, cstr(t), meth))
        for x in calls: o.append('\t\tif constexpr (OP == %d) c(%s, %s);\n' % (k, cstr(x), x))
    o.append('\t}\n};\nint main() { sp::start();\n')
    for k in ops:
        o.append('\tall<M, %d>(std::string(%s, %d), %d);\n' % (k, cstr(alphabet), len(alphabet), n))
        o.append('\tall<M, %d>(std::string("a\\0b", 3), %d);\n' % (k, n))
    o.append('\treturn sp::done(); }\n')
    return ''.join(o)
def check(ck):
    q = ck.quick; jobs = []
    for i, (t, fl, bidi) in enumerate(PATS):
        n = 4 if q else 7
        for part, ops in enumerate(((0, 1, 2), (3, 4, 5)) if i != 1 else ((0,), (1,), (2,), (3,), (4,), (5,))):
            jobs.append(dict(name='p%d_%d' % (i, part), opt='-O0' if q else '-O1', src=source(t, fl, bidi, ops, 'abA\n1' if n < 6 else 'abA\n', n, False, True)))
            if not q or i % 5 == part: jobs.append(dict(name='cpp17_p%d_%d' % (i, part), std='c++17', opt='-O1', src=source(t, fl, bidi, ops, 'abA\n', 4, True, False)))
            if not q or i % 7 == part + 3: jobs.append(dict(name='clang17_p%d_%d' % (i, part), cxx=CLANG, std='c++17', opt='-O0', src=source(t, fl, bidi, ops, 'abA\n', 4, True, True)))
    ck.drivers(jobs)
    for t, fl, b in PATS[:8]: ck.sample('%r flags=%d in every spelling of subject and call' % (t, fl))
