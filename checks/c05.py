"""classes, ranges, sets, escapes: membership for every code unit value of every character type"""
import os, itertools
import vlib
from vlib import Pat, CI, ML
ALL = ''.join(map(chr, range(256)))
DOM = [(ALL, 1)]
POSIX = ['[:%s%s:]' % (n, c) for n in ('', '^') for c in ('alnum', 'alpha', 'ascii', 'blank', 'cntrl', 'digit', 'graph', 'lower', 'print', 'punct', 'space', 'upper', 'word', 'xdigit')]
CLS = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '\\h', '\\H', '\\v', '\\V', '\\N']
ESC = ['\\n', '\\t', '\\r', '\\0', '\\a', '\\e', '\\f', '\\.', '\\[', '\\]', '\\{', '\\}', '\\(', '\\)', '\\\\', '\\*', '\\+', '\\?', '\\|', '\\^', '\\$', '\\-', '\\/', '\\"', '\\<', '\\>', '\\x41', '\\xfF', '\\x{e9}', '\\u00E9', '\\u0041']
def narrow(q):
    "256 values, char subjects: every set of up to two (three) items"
    P = []
    for c in range(256): P.append(Pat('\\x%02x' % c, 0, 0, 'm'))
    for a in ('lower', 'upper'):
        for c in range(0, 256, 1 if not q else 17): P.append(Pat(('\\x%02X' if a == 'upper' else '\\u00%02X') % c, 0, 0, 'm')); P.append(Pat('[\\x{%x}]' % c, 0, 0, 'm'))
    for c in range(1, 128):
        ch = chr(c)
        if ch not in '.[]{}()\\*+?|^$': P.append(Pat(ch, 0, 0, 'm'))
        if ch not in '[]\\^-': P.append(Pat('[%s]' % ch, 0, 0, 'm'))
        if ch not in '[]\\^-' and not q: P.append(Pat('[^%s]' % ch, 0, 0, 'm')); P.append(Pat('[%sz]' % ch, 0, 0, 'm')); P.append(Pat('[!-%s]' % ch, 0, 0, 'm'))
    for e in ESC: P += [Pat(e, 0, 0, 'm'), Pat('[%s]' % e, 0, 0, 'm'), Pat('[^%s]' % e, 0, 0, 'm')]
    I = ['a', 'b-d', '\\d', '\\W', '\\s', '[:upper:]', '[:^punct:]', '\\-', '\\x80-\\xff', 'X', '\\n', '0-9', '\\]', '^', '\\S', '.', '$', '\\x00-\\x1f', '[:alpha:]', '\\w', '\\D', '\\h', '\\N', '*', ')', '|', '_']
    two = I if not q else I[:17]
    for n in ('', '^'):
        for x in I + CLS + POSIX: P.append(Pat('[%s%s]' % (n, x), 0, 0, 'm')) if not (x == '^' and n == '') else None
        for x, y in itertools.product(two, repeat=2):
            if x == '^' and n == '': continue
            if q and n == '^' and (two.index(x) + two.index(y)) % 2: continue
            P.append(Pat('[%s%s%s]' % (n, x, y), 0, 0, 'm'))
        if not q:
            for t in itertools.product(I[:12], repeat=3): P.append(Pat('[%s%s]' % (n, ''.join(t)), 0, 0, 'm'))
    # ranges: all pairs of ends, ends spelled in every way
    ends = ['\\x00', ' ', '!', '0', '9', 'A', 'Z', 'a', 'z', '~', '\\x7f', '\\x80', '\\xff', '\\n', '\\u0041', '\\x{7a}', '\\.', '\\]', '\\-', '\\[', '\\\\'][: None if not q else 16]
    for x, y in itertools.product(ends, repeat=2): P.append(Pat('[%s-%s]' % (x, y), 0, 0, 'm')); P.append(Pat('[^%s-%s]' % (x, y), 0, 0, 'm')) if not q else None
    for fl in (0, ML, CI):
        for t in ['.', '[^]', '[.]', '\\N', '[\\N]', '[^\\N]', '[\\N\\n]', '[^a]', '[^\\n]', '\\n'] + CLS + ['[%s]' % p for p in POSIX]: P.append(Pat(t, fl, 0, 'm'))
    return P
def uesc(s): return ''.join('\\U%08x' % ord(c) if ord(c) > 126 or ord(c) < 32 else '\\"' if c == '"' else '\\\\' if c == '\\' else c for c in s)
def lit(s, pre):
    "a C++ literal of the given encoding prefix whose characters are the code points of s"
    if pre == '': return vlib.cstr(s)
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\': out.append('\\' + c)
        elif 32 <= o < 127: out.append('\\?' if c == '?' else c)
        elif o < 0xa0: out.append('\\%03o' % o if pre != 'u8' else chr(o) if o < 0x80 else '\\u%04x' % o)
        elif o < 0x10000: out.append('\\u%04x' % o)
        else: out.append('\\U%08x' % o)
    return pre + '"' + ''.join(out) + '"'
def wide(q):
    "(pattern, flags, literal prefix): evaluated on every value of every type"
    W = []
    H = [0x85, 0xa0, 0x1680, 0x180e, 0x2000, 0x200a, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000]
    for t in CLS + ['.', '[^]', 'a', 'Z', '[a-z]', '[^a-z]', '[^\\d]', '[\\w\\s]', '[\\W\\d]', '[\\H]', '[^\\v]', '[\\h\\v]', '[^\\h\\v]'] + ['[%s]' % p for p in POSIX]: W.append((t, 0, ''))
    for t in ['.', '[^]', '\\N', '[^\\n]']: W.append((t, ML, ''))
    for t in ['k', 'K', 's', 'S', '[a-z]', '[^k]', 'i', '\\w', '[[:upper:]]', '\\x{212a}', '\\x{e9}', '\\xc9', '[\\x{c0}-\\x{de}]', '[\\x{391}-\\x{3a9}]', '\\u017f', '\\x{10041}', '\\x{1f600}', '[@-\\x{10ffff}]', '[^\\x{41}-\\x{ff}]', '_', '[`]']: W.append((t, CI, ''))
    # every digit in every position of the hexadecimal forms
    D = '0123456789abcdefABCDEF'
    for i in range(4):
        for d in D if not q else D[i::3]:
            s = list('0123'); s[i] = d; W.append(('\\u' + ''.join(s), 0, ''))
            s = list('2f4E'); s[i] = d; W.append(('\\x{' + ''.join(s) + '}', 0, ''))
    for i in range(2):
        for d in D if not q else D[i::2]: s = list('5a'); s[i] = d; W.append(('\\x' + ''.join(s), 0, ''))
    for t in ('\\x{1}', '\\x{12}', '\\x{123}', '\\x{1234}', '\\x{12345}', '\\x{102345}', '\\x{10ffff}', '\\x{10FFFF}', '\\x{0}', '\\x{000041}', '\\x{00000041}', '\\u{41}', '\\u{1F600}', '\\u{0}', '\\u{10FFFF}', '\\uD7FF', '\\uFFFF', '\\uE000', '\\x{80}', '\\x{7ff}', '\\x{800}', '\\x{ffff}', '\\x{10000}', '\\x{fffff}', '\\x{100000}'): W.append((t, 0, '')); W.append(('[%s]' % t, 0, '')); W.append(('[^%s]' % t, 0, '')) if not q else None
    E = ['\\x{7f}', '\\x{80}', '\\x{ff}', '\\x{100}', '\\x{7ff}', '\\x{ffff}', '\\x{10000}', '\\x{10ffff}', 'a', '\\x{0}', '\\u2028', '\\x{110000}', '\\x{7fffffff}', '\\x{80000000}', '\\x{ffffffff}']
    k = 0
    for a, b in itertools.product(E, repeat=2):
        k += 1
        if q and (k % 3 or len(b) > 12): continue
        W.append(('[%s-%s]' % (a, b), 0, ''))
        if k % 2: W.append(('[^%s-%s_]' % (a, b), 0, ''))
    # characters of the pattern themselves beyond ASCII, in every encoding of the pattern
    for pre in ('u8', 'u', 'U', 'L'):
        for c in (0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0x41):
            ch = chr(c)
            if c == 0x41 or not q or pre in ('u8', 'u'):
                W.append((ch, 0, pre)); W.append(('[^%s]' % ch, 0, pre))
            if not q or c in (0x80, 0x7ff, 0x1f600): W.append(('[%s-%s]' % (ch, chr(min(c + 3, 0x10ffff))), 0, pre)); W.append(('[a%s\\d]' % ch, 0, pre)); W.append(('[!-%s]' % ch, 0, pre))
        for t in ('\\d', '[\\u00e9\\xe8]', '\\x{1f600}', '[^\\W]', '.'): W.append((t, 0, pre))
    return W
def check(ck):
    q = ck.quick
    P, W = narrow(q), wide(q)
    W = list(dict.fromkeys(W))
    n = max(8, min(24, len(W) // (3 * vlib.NPROC)))
    chunks = [W[i:i + n] for i in range(0, len(W), n)]
    drv = ck.obj('units')
    pch = ck.pch({}, ('ctre.hpp', 'units.hpp'))
    tot = dict(patterns=0, both=0, evals=0, members=0, dev=0)
    def source(rows):
        o = ['#include "pch.hpp"\n']
        r = []
        for i, (t, fl, pre) in enumerate(rows):
            o.append('UROW(f%d, (%smatch<%s%s>))\n' % (i, 'ctre::multiline_' if fl & ML else 'ctre::', lit(t, pre), ', ctre::case_insensitive' if fl & CI else ''))
            u = 'U"%s"' % uesc(t).replace('?', '\\?')
            o.append('static const char32_t t%d[] = {%s};\n' % (i, ','.join('0x%x' % ord(c) for c in t)))
            r.append('{t%d,%d,%d,f%d_8,f%d_16,f%d_32,f%d_w,f%d_u8},\n' % (i, len(t), fl, i, i, i, i, i))
        o.append('extern const urow utable[]; const urow utable[]={\n%s}; extern const size_t utable_n; const size_t utable_n=%d;\n' % (''.join(r), len(rows)))
        return ''.join(o)
    def replay(t, fl, pre, typ, v):
        T = {'char': ('char', 'std::string_view'), 'char16_t': ('char16_t', 'std::u16string_view'), 'char32_t': ('char32_t', 'std::u32string_view'), 'wchar_t': ('wchar_t', 'std::wstring_view'), 'char8_t': ('char8_t', 'std::u8string_view')}[typ]
        if typ == 'char8_t': units = ','.join('char8_t(0x%x)' % b for b in chr(v).encode('utf-8'))
        else: units = '%s(0x%xu)' % (T[0], v)
        return '#include <ctre.hpp>\n#include <cstdio>\nint main() { %s s[] = {%s}; std::puts(%smatch<%s%s>(%s(s, sizeof s / sizeof *s)) ? "match" : "no match"); }\n' % (T[0], units, 'ctre::multiline_' if fl & ML else 'ctre::', lit(t, pre), ', ctre::case_insensitive' if fl & CI else '', T[1])
    def one(a):
        k, rows = a
        def build(rows, tag):
            src = os.path.join(ck.dir, tag + '.cpp'); open(src, 'w').write(source(rows))
            return ck.compile(src, src[:-4], link=True, libs=[drv], opt='-O2', extra=('-I' + pch,))
        e = build(rows, 'w%d' % k)
        if e:
            good = []
            for j, r in enumerate(rows):
                e1 = build([r], 'w%d_%d' % (k, j))
                if e1: ck.violation('valid pattern does not compile: %r: %s' % (r, e1.split('\n')[0][:300]), dict(kind='compile', pattern=r[0], flags=r[1], literal=r[2], error=e1), replay(*r, 'char', 0))
                else: good.append(r)
                if len(ck.violations) > 5: return
            if not good: return
            rows = good; build(rows, 'w%d' % k)
        r = ck.run([os.path.join(ck.dir, 'w%d' % k)], timeout=800)
        done = False
        for l in r.stdout.split('\n'):
            f = l.split('\t')
            if f[0] == 'ORACLE': raise vlib.CheckError(l)
            if f[0] == 'SUMMARY':
                done = True
                for x in f[1:]: a, b = x.split('='); tot[a] += int(b)
            if f[0] == 'DEV':
                t, fl, pre = rows[int(f[1])]
                ck.violation('match: pattern %s%r flags=%d, %s subject of the single unit %s: expected %s, got %s' % (pre, t, fl, f[4], f[5], f[6], f[7]), dict(kind='unit', pattern=t, flags=fl, literal=pre, type=f[4], unit=f[5], expected=f[6], got=f[7]), replay(t, fl, pre, f[4], int(f[5], 16)))
        if not done: raise CheckErrorOrCrash(ck, r, rows)
    def CheckErrorOrCrash(ck, r, rows): return vlib.CheckError('units driver ended with %s: %s' % (r.returncode, (r.stdout + r.stderr)[-300:]))
    vlib.pool_map(one, list(enumerate(chunks)))
    ck.cov.setdefault('families', {})['every value of every character type'] = dict(tot, literals=['', 'u8', 'u', 'U', 'L'])
    ck.count(states=tot['evals'], transitions=tot['evals'], traces=tot['evals'])
    for w in W[::max(1, len(W) // 6)][:6]: ck.sample(repr(w))
    ck.add('sets', P, DOM)
    ck.go()
