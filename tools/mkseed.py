#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS < demo.cpp : create /verif/seeded/ID and try it in a scratch copy"""
import sys, os, subprocess, json, shutil
def mk(id, prop, edits, needs, breaks, demo, check=True, test=True):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    W = '/tmp/seedwt'
    subprocess.run(['rsync', '-a', '--delete', '/repo/', W + '/'], check=True) if shutil.which('rsync') else (shutil.rmtree(W, ignore_errors=True), subprocess.run(['cp', '-a', '/repo', W], check=True))
    for f, old, new in edits:
        p = W + '/' + f
        s = open(p, newline='').read()
        if '\r\n' in s: old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
        assert s.count(old) >= 1, (f, old)
        if s.count(old) > 1: print('note: %d occurrences, first one changed' % s.count(old))
        s = s.replace(old, new, 1)
        open(p, 'w', newline='').write(s)
    diff = subprocess.run(['git', '-C', W, 'diff', '--no-color'], capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.cpp', 'w').write(demo)
    shutil.copy('/verif/tools/seed_h.hpp', d + '/h.hpp')
    shutil.copy('/verif/tools/seed_demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    ok = True
    r = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    print(id, 'demo unchanged: rc', r.returncode, (r.stdout + r.stderr)[-300:].strip()); ok &= r.returncode == 0
    r = subprocess.run([d + '/demo.sh'], cwd=W, capture_output=True, text=True)
    print(id, 'demo changed: rc', r.returncode, (r.stdout + r.stderr)[-300:].strip()); ok &= r.returncode not in (0, 2)
    if check:
        r = subprocess.run(['python3-vt', '/verif/check.py', prop], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=W))
        lines = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'obligation failed' in l or 'undecided' in l or l.startswith(prop)]
        print(id, 'CHECK rc', r.returncode, 'CAUGHT' if r.returncode == 1 else 'MISSED'); print('\n'.join(l[:220] for l in lines[-6:]))
    print(id, 'OK' if ok else 'NOT OK')
    return ok
