"""rebuild the "fixed" list of known_findings.json from fixes.txt (property|what failed|commit subject)"""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p))
have = {f.split()[2] for f in d['fixed']}
for l in open(os.path.join(V, 'tools/fixes.txt')):
    l = l.strip()
    if not l:
        continue
    prop, subj, what = l.split('|')
    h = [a for a, b in log if b == 'fix: ' + subj]
    assert len(h) == 1, (subj, h)
    if h[0] not in have:
        d['fixed'].append(f'fixed: property={prop} {h[0]} {what}')
for a, b in log:
    if b.startswith('fix:') and not any(f.split()[2] == a for f in d['fixed']):
        print('not recorded:', a, b)
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False)
