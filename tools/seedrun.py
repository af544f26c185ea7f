#!/usr/bin/env python3
"""Tries the planted bugs: python3 tools/seedrun.py [--demo-only] [--tier T] [ID...]
For each: copy /repo to a scratch directory, apply the patch, build, run the stable tests, run the demonstration on both trees,
then the property's check against the patched copy (VF_REPO). Prints one line per bug."""
import os, sys, json, subprocess, shutil, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:]]
demo_only = '--demo-only' in args; args = [a for a in args if a != '--demo-only']
tier = 'quick'
if '--tier' in args:
    i = args.index('--tier'); tier = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir(ROOT + '/seeded'))
base = json.load(open('/opt/vp/BASELINE.json'))


def sh(cmd, cwd=None, env=None, t=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


for i in ids:
    d = f'{ROOT}/seeded/{i}'
    meta = json.load(open(d + '/meta.json'))
    w = tempfile.mkdtemp(prefix='seed.', dir='/tmp'); r = w + '/repo'
    try:
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        out = [i, meta['property']]
        dd = w + '/demo'; shutil.copytree(d, dd)
        for f in ('patch.diff', 'meta.json'): os.unlink(dd + '/' + f)
        c0, o0 = sh(['bash', dd + '/demo.sh'], cwd=r)
        c, o = sh(['git', 'apply', d + '/patch.diff'], cwd=r)
        if c: out.append('PATCH-FAILS ' + o[:200]); print(*out, flush=True); continue
        c, o = sh('make -j8 all && make -j8 check', cwd=r)
        n = o.count('\nPASS')
        import re
        m = re.findall(r'# (TOTAL|PASS|FAIL): +(\d+)', o)
        out.append('tests:' + ('ok' if c == 0 else 'FAIL') + str(dict(m)))
        c1, o1 = sh(['bash', dd + '/demo.sh'], cwd=r)
        out.append(f'demo {c0}/{c1}' + ('' if c0 == 0 and c1 != 0 else ' BAD-DEMO ' + (o0 if c0 else o1)[-300:]))
        if not demo_only:
            t = time.time()
            c, o = sh(['python3', ROOT + '/vf/check.py', meta['property'], '--tier', tier], env=dict(os.environ, VF_REPO=r), t=1000)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
            out.append(f'check exit {c} {"CAUGHT" if c == 1 and v else "MISSED"} {time.time() - t:.0f}s ' + (v[0] if v else ''))
        print(*out, flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
