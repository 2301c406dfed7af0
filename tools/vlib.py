"""Shared machinery of the checks: parallel builds against /repo's working tree, pattern tables,
known findings, replay files, evidence."""
import os, sys, json, time, threading, subprocess, tempfile, shutil, itertools, atexit, re as _re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LIB = os.path.join(VERIF, 'lib')
GXX = '/usr/bin/g++'
CLANG = '/usr/bin/clang++-18'
NPROC = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))
OPS = ['match', 'search', 'starts_with', 'search_all', 'split', 'tokenize']
CI, ML = 1, 2

def hexs(s): return s.encode('latin-1').hex()
def cstr(s):
    "C++ string literal of a latin-1 string"
    out = []
    for c in s:
        o = ord(c)
        if c in '"\\': out.append('\\' + c)
        elif c == '?': out.append('\\?')
        elif 32 <= o < 127: out.append(c)
        else: out.append('\\%03o' % o)
    return '"' + ''.join(out) + '"'
def unshow(s):
    "inverse of show() of driver.cpp"
    return _re.sub(r'\\(\\|x[0-9a-f]{2})', lambda m: '\\' if m.group(1) == '\\' else chr(int(m.group(1)[1:], 16)), s)

class Pat:
    __slots__ = ('text', 'flags', 'dom', 'ops', 'known', 'access', 'like', 'utf8', 'pre', 'kind')
    def __init__(self, text, flags=0, dom=0, ops='mst', known=False, access=False, like=None, utf8=False, pre='', kind=''):
        self.text, self.flags, self.dom, self.ops, self.known, self.access, self.like, self.utf8, self.pre, self.kind = text, flags, dom, ops, known, access, like, utf8, pre, kind or ('U8_' if utf8 else '')
OPKEY = {'m': 0, 's': 1, 't': 2, 'a': 3, 'p': 4, 'k': 5}

def group_names(text):
    "[(number, name or None)] of the capturing groups, by the position of their parentheses"
    out, i, cls = [], 0, False
    while i < len(text):
        c = text[i]
        if c == '\\': i += 2; continue
        if cls:
            if c == ']' : cls = False
            elif text.startswith('[:', i): i = text.index(':]', i) + 1
        elif c == '[':
            cls = True
            if text.startswith('[^', i): i += 1
        elif c == '(':
            m = _re.compile(r'\(\?<(\w+)>').match(text, i)
            if m: out.append((len(out) + 1, m.group(1)))
            elif text[i + 1:i + 2] != '?': out.append((len(out) + 1, None))
        i += 1
    return out

def pool_map(fn, items, n=None):
    with ThreadPoolExecutor(n or NPROC) as ex: return list(ex.map(fn, items))

class CheckError(Exception): pass

class Check:
    def __init__(self, pid, tier=None):
        self.id = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        root = os.path.join(VERIF, 'build'); os.makedirs(root, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + '-', dir=root)
        atexit.register(shutil.rmtree, self.dir, True)
        self.replay_dir = os.path.join(root, 'replay', pid)
        shutil.rmtree(self.replay_dir, True)
        self.violations = []      # (description, replay path)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.known = load_known(pid)
        self.known_seen = {}
        self._objs = {}
        self._pch = {}; self._pchlock = {}; self._lock = threading.Lock()
        self._queue = []
        self.notes = []
    quick = property(lambda s: s.tier == 'quick')

    # -- building ---------------------------------------------------------------------------
    def compile(self, src, out, cxx=GXX, std='c++20', opt='-O1', defs=(), link=False, libs=(), extra=(), timeout=400):
        cmd = [cxx, '-std=' + std, opt, '-w', '-I' + REPO + '/include', '-I' + LIB, *('-D' + d for d in defs), *extra]
        cmd += [src, *libs, '-o', out] if link else ['-c', src, '-o', out]
        try: r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired: return 'compilation did not finish within %d s' % timeout
        if r.returncode == 0: return None
        lines = [l for l in r.stderr.split('\n') if 'error' in l] or r.stderr.split('\n')
        notes = [l for l in r.stderr.split('\n') if 'note:' in l and 'constant expression' in r.stderr and 'note: in call' not in l]
        return '\n'.join(lines[:1] + notes[:3] + lines[1:6]) or 'compiler failed'
    def tool(self, name, libs=(), std='c++20'):
        "build one of the framework's own helpers (no library code inside)"
        out = os.path.join(self.dir, name)
        if name not in self._objs:
            e = self.compile(os.path.join(LIB, name + '.cpp'), out, std=std, opt='-O2', link=True, libs=libs)
            if e: raise CheckError('helper %s: %s' % (name, e))
            self._objs[name] = out
        return out
    def obj(self, name, opt='-O2'):
        if name not in self._objs:
            out = os.path.join(self.dir, name + '.o')
            e = self.compile(os.path.join(LIB, name + '.cpp'), out, opt=opt)
            if e: raise CheckError('helper %s: %s' % (name, e))
            self._objs[name] = out
        return self._objs[name]
    def run(self, cmd, timeout=300, **kw):
        try: return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace', **kw)
        except subprocess.TimeoutExpired as e:
            class R: pass
            r = R(); r.returncode = -999; r.stdout = (e.stdout or b'').decode('utf-8', 'replace') if isinstance(e.stdout, bytes) else (e.stdout or ''); r.stderr = 'timeout'
            return r

    # -- reference-side filtering --------------------------------------------------------------
    def refcheck(self, pats, domains, limit=200000, keep_divergent=False):
        """drops candidates on which the known limitation (DESIGN.md, KF-1) is observable, and those whose search tree
        exceeds the step limit; every other candidate is kept. Uses the reference only, never the library."""
        exe = self.tool('refcheck', libs=['-lpcre2-32'])
        seen, uniq = set(), []
        for p in pats:
            k = (p.text, p.flags, p.dom, p.ops)
            if k not in seen: seen.add(k); uniq.append(p)
        chunks = [uniq[i::NPROC] for i in range(NPROC)]
        def one(ch):
            inp = ''.join('%d\t%s\t%d\t%s\t%d\n' % (p.flags, hexs(domains[p.dom][0]), domains[p.dom][1], hexs(p.text), limit) for p in ch)
            r = self.run([exe], input=inp, timeout=800)
            lines = r.stdout.split('\n')[:-1]
            if r.returncode or len(lines) != len(ch): raise CheckError('refcheck failed: %s' % r.stderr[-300:])
            return list(zip(ch, lines))
        keep = []; st = dict(candidates=len(uniq), dropped_known_limitation=0, dropped_too_long=0, pcre2_compared=0, pcre2_disagreed=0)
        res = {id(p): l for c in pool_map(one, chunks) for p, l in c}
        for p in uniq:
            l = res[id(p)]
            if l.startswith('reject') or l.startswith('groups'): raise CheckError('the generator produced %r which the reference rejects: %s' % (p.text, l))
            if l.startswith('heavy'): st['dropped_too_long'] += 1; continue
            f = dict(x.split('=', 1) for x in l.split(' ')[1:])
            if int(f['div']) and not p.known:
                st['dropped_known_limitation'] += 1
                if not keep_divergent: continue
                p.known = 2
            st['pcre2_compared'] += int(f['cmp'])
            if int(f['bad']):
                st['pcre2_disagreed'] += int(f['bad'])
                raise CheckError('reference and PCRE2 disagree on %r flags %d: %s' % (p.text, p.flags, f['exb']))
            keep.append(p)
        for k, v in st.items(): self.cov['reference_' + k] = self.cov.get('reference_' + k, 0) + v
        return keep

    # -- pattern tables ------------------------------------------------------------------------
    def table_source(self, pats, domains, header='pch.hpp', cpp17=False):
        o = ['#include "%s"\n' % header]
        rows = []
        for i, p in enumerate(pats):
            q = p.pre + cstr(p.text); u8 = p.kind; pre = 'ctre::multiline_' if p.flags & ML else 'ctre::'; mod = ', ctre::case_insensitive' if p.flags & CI else ''
            if cpp17:
                o.append('static constexpr auto p%d = ctll::fixed_string{%s};\n' % (i, q)); q = 'p%d' % i
            fns = ['nullptr'] * 6
            for k in p.ops:
                op = OPKEY[k]; n = 'f%d_%s' % (i, k); fns[op] = n
                call = '(%s%s<%s%s>)' % (pre, OPS[op], q, mod)
                if op < 3 and p.access:
                    g = group_names(p.text); body = []
                    for gi, nm in g:
                        if nm is None: continue
                        key = cstr(nm)
                        if cpp17:
                            key = 'n%d_%s_%d' % (i, k, gi); o.append('static constexpr auto %s = ctll::fixed_string{%s};\n' % (key, cstr(nm)))
                        body.append('same_group(r.template get<%s>(), r.template get<%d>(), t); same_group(r.template get<ctre::id<%s>>(), r.template get<%d>(), t);' % (key, gi, ','.join("'%s'" % x for x in nm), gi))
                    v = ['g%d' % x for x in range(len(g) + 1)]
                    body.append('{ static_assert(std::tuple_size_v<decltype(r)> == %d); auto [%s] = r; %s }' % (len(v), ', '.join(v), ''.join('same_group(%s, r.template get<%d>(), t); same_group(%s, ctre::get<%d>(r), t);' % (x, j, x, j) for j, x in enumerate(v))))
                    o.append('static void %s(sv s, trace & t) { auto r = %s(s); t.items.push_back(fill(r, s)); %s }\n' % (n, call, ' '.join(body)))
                elif op < 3: o.append('%sOPDEF(%s, %s)\n' % (u8, n, call))
                elif op == 3: o.append('%sITERDEF(%s, %s, (%siterator<%s%s>))\n' % (u8, n, call, pre, q, mod))
                else: o.append('%sRANGEDEF(%s, %s)\n' % (u8, n, call))
            rows.append('{%s,%d,%d,%d,%d,{%s},%s,%s,%s},\n' % (cstr(p.text), len(p.text), p.flags, p.dom, int(p.known), ','.join(fns), cstr(p.like) if p.like else 'nullptr', 'true' if p.utf8 else 'false', 'true' if p.kind == 'Z_' else 'false'))
        for i, (a, n) in enumerate(domains):
            if not isinstance(a, str): o.append('static const unsigned char chunk%d[] = {%s};\n' % (i, ','.join(str(len(c)) for c in a)))
        o.append('extern const domain domains[]; const domain domains[]={%s};\n' % ','.join('{%s,%d,%d,%s}' % (cstr(''.join(a)), len(a), n, 'nullptr' if isinstance(a, str) else 'chunk%d' % i) for i, (a, n) in enumerate(domains)))
        o.append('extern const entry table[]; const entry table[]={\n%s};\nextern const size_t table_n; const size_t table_n=%d;\n' % (''.join(rows), len(pats)))
        return ''.join(o)

    def pch(self, cfg, includes=('ctre.hpp', 'harness.hpp')):
        "a precompiled header for one configuration (gcc only: clang keeps the plain header)"
        key = repr((sorted(cfg.items(), key=str), includes))
        with self._lock: lock = self._pchlock.setdefault(key, threading.Lock()); n = list(self._pchlock).index(key)
        with lock: return self._pch_build(key, n, cfg, includes)
    def _pch_build(self, key, n, cfg, includes):
        if key not in self._pch:
            d = os.path.join(self.dir, 'pch%d' % n); os.makedirs(d)
            h = os.path.join(d, 'pch.hpp')
            open(h, 'w').write('#pragma once\n' + ''.join('#include <%s>\n' % i for i in includes))
            if 'clang' not in cfg.get('cxx', GXX):
                e = self.compile(h, h + '.gch', extra=('-x', 'c++-header', *cfg.get('extra', ())), **{k: v for k, v in cfg.items() if k != 'extra'})
                if e: raise CheckError('the headers do not compile: ' + e)
            self._pch[key] = d
        return self._pch[key]
    def add(self, name, pats, domains, filtered=False, **cfg):
        "queue a family; go() filters, compiles and runs all of them in one pool"
        self._queue.append((name, pats, domains, filtered, cfg))
    def go(self, hang=20, shard=None, guard=False):
        q, self._queue = self._queue, []
        with ThreadPoolExecutor(NPROC) as ex:
            drv_f = ex.submit(self.obj, 'driver'); ref_f = ex.submit(self.tool, 'refcheck', ['-lpcre2-32'])
            keys = {}
            for name, pats, domains, filtered, cfg in q: keys.setdefault(repr(sorted((k, v) for k, v in cfg.items() if k != 'keep_divergent')), {k: v for k, v in cfg.items() if k != 'keep_divergent'})
            pch_f = {k: ex.submit(self.pch, c) for k, c in keys.items()}
            drv = drv_f.result(); ref_f.result()
            for f in pch_f.values(): f.result()
        fams = []
        for name, pats, domains, filtered, cfg in q:
            if not filtered: pats = self.refcheck(pats, domains, keep_divergent=cfg.pop('keep_divergent', False))
            if not pats: raise CheckError('empty family ' + name)
            fams.append((name, pats, domains, cfg))
        jobs = []; skipped = {}
        total = sum(len(p.ops) + 1 for f in fams for p in f[1])
        size = shard or max(16, min(100, total // (NPROC * 5) or 16))
        tots = {}
        for name, pats, domains, cfg in fams:
            label = '%s %s %s' % (os.path.basename(cfg.get('cxx', GXX)), cfg.get('std', 'c++20'), ' '.join(cfg.get('defs', ())))
            key = name if not cfg else '%s [%s]' % (name, label.strip())
            tots[key] = (dict(patterns=0, both_outcomes=0, pairs=0, evals=0, matched=0, items=0, histories=0, steps=0, dev=0, ai=0), domains, pats)
            cur, w, n = [], 0, 0
            for p in pats + [None]:
                if p is not None: cur.append(p); w += 1 + len(p.ops) * (2 if set(p.ops) & set('apk') else 1) * (1 if not p.access else 1 + p.text.count('(') ** 2 // 12)
                if cur and (p is None or w >= size):
                    jobs.append((key, '%s%d' % (_re.sub(r'\W', '_', key), n), cur, domains, cfg, label)); cur, w = [], 0; n += 1
        def one(j):
            t = time.time(); one_(j)
            if os.environ.get('VERIF_VERBOSE'): print('%6.1f s %s %d %r' % (time.time() - t, j[1], len(j[2]), j[2][0].text), flush=True)
        def one_(j):
            key, tag, ps, domains, cfg, label = j
            if len(self.violations) >= 5: return
            self.shard(ps, tag, domains, cfg, label, drv, tots[key][0], hang, guard)
        pool_map(one, jobs)
        fam = self.cov.setdefault('families', {})
        for key, (tot, domains, pats) in tots.items():
            fam[key] = dict(patterns=tot['patterns'], patterns_with_both_outcomes=tot['both_outcomes'], pattern_subject_pairs=tot['pairs'], executions=tot['evals'], executions_matching=tot['matched'], elements=tot['items'], iterator_histories=tot['histories'], domains=[dict(alphabet=a, max_length=n) for a, n in domains])
            self.cov['states'] += tot['pairs'] + tot['histories']
            self.cov['transitions'] += tot['steps']
            self.cov['traces_validated_against_impl'] += tot['evals']
            for p in pats[:: max(1, len(pats) // 4)][:4]: self.sample('%s: %r flags=%d ops=%s' % (key, p.text, p.flags, p.ops))
        return tots
    def shard(self, ps, tag, domains, cfg, label, drv, tot, hang, guard=False):
        cpp17 = cfg.get('std', 'c++20') == 'c++17'; pch = self.pch(cfg)
        def build(ps, tag, timeout=200):
            src = os.path.join(self.dir, tag + '.cpp'); exe = os.path.join(self.dir, tag)
            open(src, 'w').write(self.table_source(ps, domains, cpp17=cpp17))
            e = self.compile(src, exe, link=True, libs=[drv], timeout=timeout, **dict(cfg, extra=('-I' + pch, *cfg.get('extra', ()))))
            return exe, e
        exe, e = build(ps, tag)
        if e:
            bad = []
            for j, p in enumerate(ps):
                x, e1 = build([p], '%s_%d' % (tag, j), 60)
                if e1:
                    bad.append(p)
                    self.violation('valid pattern does not compile (%s): %r flags=%d: %s' % (label, p.text, p.flags, e1.split('\n')[0][:300]), dict(kind='compile', pattern=p.text, flags=p.flags, config=label, error=e1), self.standalone(p.text, p.flags, 'match', '', None, cfg, p))
                    if len(self.violations) >= 5 or 'did not finish' in e1: return
            ps = [p for p in ps if p not in bad]
            if not ps: return
            exe, e = build(ps, tag + 'r')
            if e: raise CheckError('shard fails to compile although its patterns compile alone: ' + e)
        r = self.run([exe, 'hang', str(hang)] + (['guard'] if guard else []), timeout=800)
        self.parse_driver(r, exe, ps, cfg, label, tot, guard)
        for f in (exe, exe + '.cpp'):
            try: os.unlink(f)
            except OSError: pass

    def parse_driver(self, r, exe, ps, cfg, label, tot, guard=False):
        done = False
        for l in r.stdout.split('\n'):
            f = l.split('\t')
            if f[0] == 'SUMMARY':
                done = True
                for x in f[1:]:
                    k, v = x.split('='); tot[k] += int(v)
            elif f[0] == 'ORACLE': raise CheckError(l)
            elif f[0] == 'KNOWN':
                p = ps[int(f[1])]; self.known_seen[(p.text, p.flags)] = int(f[4])
            elif f[0] in ('DEV', 'HANG', 'CRASH'):
                if f[0] != 'DEV':
                    r2 = self.run([exe, 'hang', '60', 'only', f[1]] + (['guard'] if guard else []), timeout=300)
                    if not any(x.startswith(f[0]) for x in r2.stdout.split('\n')) and r2.returncode == 0 and f[0] == 'HANG': continue
                p = ps[int(f[1])]; op = f[4]; subj = unshow(f[5])
                want = f[6] if len(f) > 6 else 'termination'; got = f[7] if len(f) > 7 else {'HANG': 'does not terminate', 'CRASH': 'crash'}.get(f[0], '')
                self.violation('%s: pattern %r flags=%d subject %r (%s): expected %s, got %s' % (op, p.text, p.flags, subj, label, want, got),
                    dict(kind='outcome', operation=op, pattern=p.text, flags=p.flags, subject=subj, expected=want, got=got, config=label),
                    self.standalone(p.text, p.flags, op, subj, want, cfg, p))
        if not done and not self.violations and r.returncode not in (7,): raise CheckError('driver ended with %s: %s' % (r.returncode, (r.stdout + r.stderr)[-400:]))
        if not done and not self.violations: raise CheckError('driver stopped: ' + r.stdout[-300:])

    # -- hand-written drivers --------------------------------------------------------------------
    def drivers(self, jobs, timeout=800):
        """jobs: dicts name, src (text), args, optional + compiler settings (cxx, std, opt, defs, extra). Builds and runs them in one pool.
        A driver reports DEV lines (violations), SUMMARY, ORACLE (error of the check); a crash or hang is a violation."""
        def one(j):
            t0 = time.time()
            j = dict(j); name, text = j.pop('name'), j.pop('src'); args = j.pop('args', []); optional = j.pop('optional', False); runs = j.pop('runs', None)
            src = os.path.join(self.dir, name + '.cpp'); exe = os.path.join(self.dir, name + '.exe')
            open(src, 'w').write(text)
            cmd = '%s -std=%s %s %s -I/repo/include -I/verif/lib' % (j.get('cxx', GXX), j.get('std', 'c++20'), j.get('opt', '-O1'), ' '.join(['-D' + d for d in j.get('defs', ())] + list(j.get('extra', ()))))
            def viol(what, args=args, **kw): self.violation(what, dict(kind='driver', driver=name, build=cmd, arguments=args, **kw), text)
            e = self.compile(src, exe, link=True, **j)
            if e:
                if optional: self.notes.append('%s skipped: it does not compile: %s' % (name, e.split('\n')[0][:200])); return
                if len(self.violations) < 8: viol('%s: code that must compile does not (%s): %s' % (name, cmd, ' '.join(e.split('\n')[:3])[:600]), error=e)
                return
            t1 = time.time()
            def execute(args):
                r = self.run([exe] + [str(a) for a in args], timeout=timeout)
                done = False
                for l in r.stdout.split('\n'):
                    f = l.split('\t')
                    if f[0] == 'ORACLE': raise CheckError(l)
                    elif f[0] == 'DEV' and len(self.violations) < 40: viol('%s: %s' % (name, f[2]), args=args, key=f[1])
                    elif f[0] in ('CRASH', 'HANG') and len(self.violations) < 40: viol('%s: %s during %s' % (name, 'the process crashed' if f[0] == 'CRASH' else 'no end', ' '.join(f[1:])), args=args); done = True
                    elif f[0] == 'KNOWN':
                        if any(k['pattern'] == f[1] for k in self.known): self.known_seen[(f[1], 0)] = int(f[2])
                        else: viol('%s: %s' % (name, f[1]), args=args, key=f[1])
                    elif f[0] == 'SAMPLE': self.sample(f[1])
                    elif f[0] == 'SUMMARY':
                        done = True; d = dict((x.split('=')[0], int(x.split('=')[1])) for x in f[1:])
                        with self._lock:
                            self.count(d.pop('states'), d.pop('steps'), d['execs'])
                            if d.pop('devs') == 0 and d['execs'] == 0: raise CheckError('driver %s explored nothing' % name)
                            g = self.cov.setdefault('drivers', {}).setdefault(name, {})
                            for k, v in d.items(): g[k] = g.get(k, 0) + v
                if not done:
                    if r.returncode not in (0, 2): viol('%s: the process ended with %s: %s' % (name, r.returncode, (r.stdout + r.stderr)[-300:]), args=args)
                    else: raise CheckError('driver %s ended with %s: %s' % (name, r.returncode, (r.stdout + r.stderr)[-400:]))
            if runs is None: execute(args)
            else: pool_map(execute, runs)
            if os.environ.get('VERIF_VERBOSE'): print('%6.1f + %.1f s %s' % (t1 - t0, time.time() - t1, name), flush=True)
        pool_map(one, jobs)

    def standalone(self, text, flags, op, subj, want, cfg, p=Pat('')):
        pre = 'ctre::multiline_' if flags & ML else 'ctre::'; mod = ', ctre::case_insensitive' if flags & CI else ''
        call = '%s%s<pattern%s>' % (pre, op, mod)
        body = '''// replay: g++ -std=%s -O1 %s -I/repo/include replay.cpp -o replay && ./replay
// pattern %s flags=%d operation=%s
// expected: %s
#include <ctre.hpp>
#include <cstdio>
static constexpr auto pattern = ctll::fixed_string{%s};
static const std::%sstring_view subject{%s, %d};
template <size_t... I, class R> void show(const R & r, std::index_sequence<I...>) {
	if (!r) { std::puts("no match"); return; }
	std::printf("match");
	((r.template get<I>() ? std::printf(" %%zu:[%%d,%%d)", I, int(r.template get<I>().begin() - subject.begin()), int(r.template get<I>().end() - subject.begin())) : std::printf(" %%zu:unset", I)), ...);
	std::puts("");
}
int main() {
''' % (cfg.get('std', 'c++20'), ' '.join('-D' + d for d in cfg.get('defs', ())), text.replace('\n', '\\n').replace('\\', '/'), flags, op, (want or 'compiles').replace('\\', '/'), p.pre + cstr(text), 'u8' if p.utf8 else '', ('u8' if p.utf8 else '') + cstr(subj), len(subj))
        if op in OPS[:3]: body += '\tauto r = %s(subject);\n\tshow(r, std::make_index_sequence<decltype(r)::count()>{});\n}\n' % call
        else: body += '\tint n = 0;\n\tfor (auto r: %s(subject)) { show(r, std::make_index_sequence<decltype(r)::count()>{}); if (++n > 50) break; }\n}\n' % call
        return body

    # -- findings ------------------------------------------------------------------------------
    def violation(self, text, data, cpp=None):
        os.makedirs(self.replay_dir, exist_ok=True)
        n = len(self.violations)
        path = os.path.join(self.replay_dir, '%03d.json' % n)
        if cpp:
            open(os.path.join(self.replay_dir, '%03d.cpp' % n), 'w').write(cpp)
            data = dict(data, unit_test='%03d.cpp' % n)
        json.dump(dict(data, property=self.id, text=text), open(path, 'w'), indent=1, default=str)
        self.violations.append((text, path))
    def sample(self, s):
        if len(self.cov['samples']) < 24: self.cov['samples'].append(s)
    def count(self, states=0, transitions=0, traces=0):
        self.cov['states'] += states; self.cov['transitions'] += transitions; self.cov['traces_validated_against_impl'] += traces

    def finish(self):
        for k in self.known:
            key = (k['pattern'], k['flags'])
            if key in self.known_seen: print('KNOWN-FINDING: property=%s pattern %r flags=%d: %s' % (self.id, k['pattern'], k['flags'], k['what']))
        self.cov.setdefault('exhaustive', True)
        if self.notes: self.cov['notes'] = self.notes
        self.cov['known_findings_reproduced'] = len(self.known_seen)
        if not self.cov['samples']: self.cov['samples'].append('none')
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level='model_checking', coverage=self.cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.id + '.json'), 'w'), indent=1, default=str)
        for t, path in self.violations[:20]:
            print(t)
            print('VIOLATION property=%s replay=%s' % (self.id, path))
        print('%s %s: states=%d transitions=%d executions=%d violations=%d in %.1f s' % (self.id, self.tier, self.cov['states'], self.cov['transitions'], self.cov['traces_validated_against_impl'], len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if self.violations else 0

def load_known(pid):
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            if not l.startswith('{'): continue # comments and "fixed:" entries
            d = json.loads(l)
            if d['property'] == pid: out.append(d)
    return out
