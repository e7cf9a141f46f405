#!/usr/bin/env python3
"""Development aid: apply textual mutants to a scratch copy of /repo/dune and run a check on it.
usage: mut.py FILE.py [name-substring]   (FILE defines T = [(name, prop, expect, [(file, old, new[, nth])])]"""
import sys, os, shutil, subprocess, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
T = runpy.run_path(sys.argv[1])['T']
sub = sys.argv[2] if len(sys.argv) > 2 else ''
def one(t):
    name, prop, expect, edits = t
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        subprocess.run(['cp', '-a', os.environ.get('VT_BASE','/repo')+'/dune', d]); 
        for e in edits:
            f, old, new = e[:3]; nth = e[3] if len(e) > 3 else None
            p = os.path.join(d, 'dune/istl', f); s = open(p).read()
            n = s.count(old)
            if n == 0 or (n > 1 and nth is None): return name, 'BADEDIT', '%s: %d occurrences of %r' % (f, n, old[:60])
            if nth is None: s = s.replace(old, new)
            else:
                parts = s.split(old); s = old.join(parts[:nth]) + new + old.join(parts[nth:]) if nth else s
                # nth is 1-based
            open(p, 'w').write(s)
        env = dict(os.environ, VT_REPO=d, VT_EVID=d); env.pop('VT_CACHE', None)
        r = subprocess.run([sys.executable, '/verif/check.py', prop], env=env, capture_output=True, text=True)
        got = {0: 'quiet', 1: 'alarm'}.get(r.returncode, 'broken')
        return name, ('ok' if got == expect else 'WRONG') + ' ' + got, r.stdout[-1500:] if got != expect or sub else ''
    finally: shutil.rmtree(d, ignore_errors=True)
with ThreadPoolExecutor(4) as ex:
    for n, s, o in ex.map(one, [t for t in T if sub in t[0]]):
        print(s, n)
        if o: print('    ' + o.replace('\n', '\n    '))
