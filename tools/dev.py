#!/opt/venv/bin/python
"""developer tool: run a check to the end and summarise discrepancies by kind"""
import os, sys, re, collections, importlib, json, time
sys.path.insert(0, '/verif/lib'); sys.path.insert(0, '/verif/checks')
import runner
import multiprocessing as mp
modname = sys.argv[1].lower()
tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
cap = int(sys.argv[3]) if len(sys.argv) > 3 else 10**9
mod = importlib.import_module(modname); runner._mod = mod
st = runner.Stats()
cases = {}
def gen():
    for i, (k, c) in enumerate(mod.cases(tier, st)):
        if i >= cap: return
        cases[k] = c
        yield k, c
groups = collections.OrderedDict()
t = time.time()
n = 0
finds = runner.load_findings(mod.PROP)
kn = collections.Counter()
with mp.get_context('fork').Pool(8, runner._init, (modname,)) as pool:
    for key, disc, oc, _ in pool.imap_unordered(runner._work, gen(), chunksize=4):
        n += 1
        for r, d in disc:
            f = runner.match_finding(finds, key, None, r, d)
            if f: kn[f['id']] += 1; continue
            nd = re.sub(r"[A-G][#-]*\d", 'P', re.sub(r's\dm\dv\d@[\d/]+(g\d)?', 'A', re.sub(r'-?\d+(/\d+)?', '#', d) if 'exception' in d else d))
            nd = re.sub(r'\d+(/\d+)?', '#', nd)
            groups.setdefault(nd, []).append((len(key), key, r, d))
print(f'{n} cases {time.time()-t:.0f}s states={st.states}', dict(kn))
out = sorted(groups.items(), key=lambda kv: -len(kv[1]))
for nd, ex in out[:int(os.environ.get('TOP', '40'))]:
    ex.sort()
    keys = []
    for e in ex:
        if e[1] not in keys: keys.append(e[1])
    rs = collections.Counter(e[2] for e in ex)
    print(f'{len(keys):5d} {nd}\n      {dict(rs)}\n      e.g. {keys[:int(__import__("os").environ.get("EG",4))]}\n          {ex[0][3]}')
os.makedirs('/tmp/w/cases', exist_ok=True)
for nd, ex in out[:60]:
    for e in ex[:3]:
        with open('/tmp/w/cases/' + re.sub(r'\W+', '_', e[1])[:150] + '.json', 'w') as f:
            json.dump({'key': e[1], 'case': cases[e[1]]}, f, default=str)
