#!/usr/bin/env python3
"""Development aid: (re)generate /verif/seeded/<id> from dev/seeds.py and measure.
usage: seed.py [substr]   builds patch, runs demo with/without, runs the property's check on the patched tree."""
import sys, os, shutil, subprocess, runpy, tempfile, json
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
S = runpy.run_path(os.path.join(HERE, 'seeds.py'))['S']
sub = sys.argv[1] if len(sys.argv) > 1 else ''
DEMO = '''#!/bin/bash
# exit 0 iff the documented behaviour is observed; run with cwd = source tree
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s -std=c++20 -w %s -I"$PWD" -I/repo/_build/include -isystem /opt/dune/prefix/include "$d/demo.cc" -o "$t/demo" %s -L/opt/dune/prefix/lib -ldunecommon -llapack -lblas || exit 2
cd "$t" && %stimeout 120 %s./demo
'''
def one(s):
    name, prop, edits, demo, opt = s['id'], s['prop'], s['edits'], s['demo'], s
    d = tempfile.mkdtemp(prefix='seed_')
    out = os.path.join('/verif/seeded', name)
    try:
        subprocess.run('git -C /repo archive HEAD dune | tar x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (d, d), shell=True, check=True)
        for e in edits:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
            p = os.path.join(d, 'dune/istl', f); t = open(p).read(); n = t.count(old)
            if n == 0 or (n > 1 and nth is None): return name, 'BADEDIT %s %d %r' % (f, n, old[:60])
            if nth is None: t = t.replace(old, new)
            else:
                parts = t.split(old); t = old.join(parts[:nth]) + new + old.join(parts[nth:])
            open(p, 'w').write(t)
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.cc', 'w').write(demo)
        open(out + '/demo.sh', 'w').write(DEMO % (opt.get('cxx', 'g++'), opt.get('flags', ''), opt.get('libs', ''), opt.get('env', ''), opt.get('run', '')))
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        a = subprocess.run(['bash', out + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', out + '/demo.sh'], cwd=d, capture_output=True, text=True)
        env = dict(os.environ, VT_REPO=d, VT_EVID=d); env.pop('VT_CACHE', None)
        r = subprocess.run([sys.executable, '/verif/check.py', prop], env=env, capture_output=True, text=True)
        got = {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'BROKEN')
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        msg = '%s demo clean=%d patched=%d check=%s' % ('ok ' if ok else 'BADDEMO', a.returncode, b.returncode, got)
        if not ok: msg += '\n' + (a.stdout + a.stderr)[-1500:] + '\n---\n' + (b.stdout + b.stderr)[-800:]
        if got != 'caught' or sub: msg += '\n' + r.stdout[-900:]
        return name, msg
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(3) as ex:
    for n, m in ex.map(one, [s for s in S if sub in s['id']]): print(n, m, flush=True)
