#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: turn edit specifications into seeded/<id>/ after confirming each in a scratch copy.
A spec is a dict id -> dict(property, file, old, new (or edits=[(file,old,new)..]), demo (C++ or None), sh (optional),
needs, breaks). Kept only when: patch applies, build+tests pass all baseline tests, demo 0 without / !=0 with the patch."""
import sys, os, subprocess, json, shutil, importlib.util, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
ids = sys.argv[2:] or list(m.SEEDS)
DEMO = '''#!/bin/sh
# exit 0: the property holds for this case; cwd is the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
%s -I include "$d/demo.cpp" -o "$t/demo" 2>"$t/err" || { cat "$t/err"; rm -rf "$t"; exit 2; }
timeout 60 "$t/demo"; r=$?
rm -rf "$t"
exit $r
'''
def sh(c, cwd, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def one(i):
    s = m.SEEDS[i]; out = os.path.join('/tmp/plant', i)
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    w = out + '/repo'
    sh('cp -a /repo %s' % w, '/')
    d = out + '/seed'; os.makedirs(d)
    for f, o, n in s.get('edits') or [(s['file'], s['old'], s['new'])]:
        p = os.path.join(w, f); t = open(p).read()
        if t.count(o) != 1: return i, 'edit of %s: %d occurrences' % (f, t.count(o))
        open(p, 'w').write(t.replace(o, n))
    patch = sh('git diff', w).stdout; open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.cpp', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(s.get('sh') or DEMO % s.get('cxx', 'g++ -std=c++20 -O1')); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('sh %s/demo.sh' % d, '/repo'); b = sh('sh %s/demo.sh' % d, w)
    if a.returncode != 0: return i, 'demo fails on the unchanged tree: ' + a.stdout[-600:]
    if b.returncode == 0: return i, 'demo passes with the change'
    t = sh('unshare -m sh -c "mount --bind %s /repo && cd /repo && bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/o.json"' % (w, out), '/', 1500)
    try: r = json.load(open(out + '/o.json'))
    except Exception as e: return i, 'no test result: ' + t.stdout[-500:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base['stable']
    passed = set(r.get('passed') or [])
    miss = [n for n in names if n not in passed] if passed else ['?']
    if miss: return i, 'fails %d tests, e.g. %s' % (len(miss), miss[:3])
    dst = os.path.join(V, 'seeded', i); shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    return i, 'OK (demo exit %d)' % b.returncode
with cf.ThreadPoolExecutor(2) as ex:
    for f in cf.as_completed([ex.submit(one, i) for i in ids]):
        i, r = f.result(); print(i, r, flush=True); shutil.rmtree(os.path.join('/tmp/plant', i), ignore_errors=True)
