"""pattern text in every encoding"""
import itertools
from vlib import CLANG, cstr
from c05 import lit
def check(ck):
    q = ck.quick
    runs = [[i, 8] for i in range(8)]
    main = '#include "c16.hpp"\nint main(int, char ** a) { sp::start(); unsigned p = unsigned(atoi(a[1])), n = unsigned(atoi(a[2])); (void)p; (void)n; if (!p) empties(); %s return sp::done(); }\n'
    t = 'false' if q else 'true'
    K = [('utf8', 'utf8_texts<char8_t>(p, n, %s);' % t, ()), ('utf16', 'utf16_texts(p, n, %s);' % t, ()), ('utf32', 'utf32_texts<char32_t>(p, n);', ()), ('wide', 'utf32_texts<wchar_t>(p, n);', ()), ('bytes', 'plain_texts<char>(p, n);', ()), ('utf8_in_char', 'utf8_texts<char>(p, n, %s);' % t, ('CTRE_STRING_IS_UTF8',))]
    jobs = [dict(name=n, src=main % b, runs=runs, opt='-O2', defs=d) for n, b, d in K]
    jobs += [dict(name=n + '_clang17', src=main % b, runs=runs if not q else runs[:1], opt='-O2', defs=d, cxx=CLANG, std='c++17') for n, b, d in K if n != 'utf8']
    # literals: what the compiler puts into them reaches the library as constants, and the parser reads the same text
    CPS = [0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]
    rows = ['#include "c16.hpp"\n']; body = []
    combos = [(c,) for c in CPS] + list(itertools.product(CPS[:: 2 if q else 1], repeat=2)) + ([(a, 0x62, b) for a in CPS[1::3] for b in CPS[2::3]])
    for i, cs in enumerate(combos):
        s = ''.join(map(chr, cs))
        for pre in ('u8', 'u', 'U', 'L'):
            rows.append('static constexpr ctll::fixed_string t%d_%s = %s;\n' % (i, pre, lit(s, pre)))
            body.append('\tone(t%d_%s, {%s}, %s);\n' % (i, pre, ','.join('0x%x' % c for c in cs), cstr(lit(s, pre))))
    for i, cs in enumerate(combos[:24 if q else 80]):
        s = ''.join(map(chr, cs))
        for pre in ('u8', 'u', 'U', 'L'):
            rows.append('static void m%d_%s() { const std::u32string s{%s}; auto x = s; x.back() ^= 1; auto y = s + U"a"; same(bool(ctre::match<%s>(std::u32string_view(s))) && !ctre::match<%s>(std::u32string_view(x)) && !ctre::match<%s>(std::u32string_view(y)), %s); }\n' % (i, pre, ','.join('char32_t(0x%x)' % c for c in cs), lit(s, pre), lit(s, pre), lit(s, pre), cstr(lit(s, pre))))
            body.append('\tm%d_%s();\n' % (i, pre))
    rows.insert(1, 'template <class F> void one(const F & f, std::u32string want, const char * l) { ++sp::states; ++sp::execs; ++sp::steps; if (!f.correct() || std::u32string(f.begin(), f.end()) != want) sp::dev(l, std::string("literal ") + l); }\nstatic void same(bool ok, const char * l) { ++sp::states; ++sp::execs; ++sp::steps; if (!ok) sp::dev(l, std::string("a pattern of the literal ") + l + " does not match exactly its text"); }\n')
    src = ''.join(rows) + 'int main() { sp::start();\n' + ''.join(body) + '\treturn sp::done(); }\n'
    jobs += [dict(name='literals', src=src, opt='-O0'), dict(name='literals_clang', src=src, opt='-O0', cxx=CLANG)]
    ck.drivers(jobs)
    ck.sample('every sequence of up to three char8_t, every char16_t before and after every kind of surrogate, every code point in UTF-8, UTF-16, UTF-32 and wchar_t')
