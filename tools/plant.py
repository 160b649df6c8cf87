#!/usr/bin/env python3
"""developer tool: make seeded/<id> from a list of plants; confirms build, tests and demonstration.
usage: plant.py FILE.py [id ...]   FILE.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]"""
import importlib.util, json, os, subprocess, sys
spec = importlib.util.spec_from_file_location('p', sys.argv[1]); mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)
want = sys.argv[2:]
base = json.load(open('/opt/vp/BASELINE.json'))
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh('git -C /repo checkout -- .')
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
for p in mod.PLANTS:
    if want and p['id'] not in want: continue
    d = f'/verif/seeded/{p["id"]}'
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in p['edits']:
            fn = '/repo/converter21/' + f
            s = open(fn, encoding='utf8').read()
            assert s.count(old) == 1, (p['id'], f, s.count(old))
            open(fn, 'w', encoding='utf8').write(s.replace(old, new))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write(p['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\n# exit 0: behaves as it should\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo\n'
            'D=$(cd "$(dirname "$0")" && pwd)\nT=$(mktemp -d); trap \'rm -rf -- "$T"\' EXIT\nexport TMPDIR=$T HOME=$T\ncd "$T" && /opt/venv/bin/python "$D/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        r = json.load(open('/tmp/plant_out.json'))
        passed = set(r.get('passed') or [k for k, v in r.get('tests', {}).items() if v == 'passed'])
        stable = set(base.get('passed') or base.get('stable') or [])
        missing = stable - passed
        dm = sh(f'cd /repo && bash {d}/demo.sh')
        clean()
        sh('bash /opt/vp/build.sh')
        d0 = sh(f'cd /repo && bash {d}/demo.sh')
        ok = b.returncode == 0 and not missing and dm.returncode != 0 and d0.returncode == 0
        print(p['id'], 'OK' if ok else 'BAD', 'build', b.returncode, 'missing', len(missing), 'npass', len(passed), 'demo patched', dm.returncode, 'clean', d0.returncode)
        if not ok: print(dm.stdout[-500:], dm.stderr[-800:], '\n-- clean:', d0.stdout[-300:], d0.stderr[-800:])
    finally:
        clean()
