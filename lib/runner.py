"""Runs one property check: enumerates its cases exhaustively, executes each on the real code, compares, reports.

A check module defines
  PROP, TECH (short text)
  cases(tier, stats): yields (key, case) -- exhaustive, simplest first; stats gets states/transitions
  run(case) -> (list of (route, discrepancy) , outcome string)
  BOUND: text
Optionally  ASSUME: list of assumptions, TIMEOUT seconds per case.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))

MAX_VIOLATIONS = 30
_mod = None


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _work(item):
    key, case = item
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(_mod, 'TIMEOUT', 30))
    try:
        disc, outcome = _mod.run(case)
        n = getattr(_mod, 'traces_of', lambda c: 1)(case)
    except CaseTimeout:
        disc, outcome, n = [('-', 'no result within the time limit')], 'timeout', 1
    except Exception as e:   # pylint: disable=broad-except
        # an error in the harness itself, or of the code under test outside a guarded route
        disc, outcome, n = [('-', f'exception {type(e).__name__}: {str(e)[:200]}')], 'exc', 1
        disc.append(('-', 'trace ' + traceback.format_exc()[-600:])) if os.environ.get('VERIF_DEBUG') else None
    finally:
        signal.alarm(0)
    return key, disc, hashlib.sha1(str(outcome).encode('utf8', 'replace')).hexdigest()[:12], n


def _init(modname):
    global _mod
    sys.stderr = open(os.devnull, 'w')
    _mod = importlib.import_module(modname)


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.note = {}
        self.capped = False


def load_findings(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn, encoding='utf8') as f:
        return [x for x in json.load(f)['findings'] if x['property'] == prop]


def match_finding(finds, key, case, route, d):
    for f in finds:
        if 'route' in f and not re.fullmatch(f['route'], route):
            continue
        if 'case' in f and not re.search(f['case'], key):
            continue
        if not re.search(f['discrepancy'], d):
            continue
        return f
    return None


def main(modname, tier, replay=None):
    global _mod
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import io
    import warnings
    warnings.simplefilter('ignore')
    realerr = sys.stderr
    mod = importlib.import_module(modname)
    _mod = mod
    prop = mod.PROP
    if replay:
        with open(replay, encoding='utf8') as f:
            r = json.load(f)
        key, disc, _, _ = _work((r['key'], r['case']))
        print('case', r['key'])
        for rt, d in disc:
            print(' ', rt, d)
        if hasattr(mod, 'show'):
            mod.show(r['case'])
        return 1 if disc else 0
    finds = load_findings(prop)
    stats = Stats()
    nproc = int(os.environ.get('VERIF_PROCS', '8'))
    limit = float(os.environ.get('VERIF_TIME', '780' if tier == 'quick' else '36000'))
    viol = []
    known = {}
    traces = 0
    ncases = 0
    outcomes = set()
    samples = []
    cases = {}
    capped = False

    def gen():
        for key, case in mod.cases(tier, stats):
            cases[key] = case
            if len(samples) < 3 or (len(samples) < 6 and len(cases) % 997 == 0):
                samples.append({'key': key, 'case': _brief(case)})
            yield key, case

    ctx = mp.get_context('fork')
    with ctx.Pool(nproc, _init, (modname,), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(_work, gen(), chunksize=getattr(mod, 'CHUNK', 4))
        for key, disc, oc, n in it:
            ncases += 1
            traces += n
            outcomes.add(oc)
            left = []
            for route, d in disc:
                f = match_finding(finds, key, cases.get(key), route, d)
                if f is not None:
                    known.setdefault(f['id'], (f, key, route, d))
                else:
                    left.append((route, d))
            if left:
                viol.append((key, left))
                if len(viol) >= MAX_VIOLATIONS:
                    break
            elif key in cases:
                cases[key] = None
            if time.time() - t0 > limit:
                capped = True
                break
        pool.terminate()
    for fid, (f, key, route, d) in sorted(known.items()):
        print(f'KNOWN-FINDING: property={prop} [{fid}] {f["what"]}')
    for f in finds:
        if f['id'] not in known and not os.environ.get('VERIF_QUIET'):
            print(f'note: known finding {f["id"]} was not seen in this run')
    rc = 0
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    if viol:
        os.makedirs(rdir, exist_ok=True)
        rc = 1
        viol.sort(key=lambda v: (len(v[0]), v[0]))
        for i, (key, left) in enumerate(viol[:MAX_VIOLATIONS]):
            fn = os.path.join(rdir, f'{prop}-{i}.json')
            with open(fn, 'w', encoding='utf8') as f:
                json.dump({'property': prop, 'key': key, 'case': cases[key], 'discrepancies': left,
                           'replay': f'/verif/check.sh {prop} --replay {fn}'}, f, indent=1, default=str)
            if i < 10:
                print(f'  case {key}')
                for rt, d in left[:6]:
                    print(f'    {rt}: {d}')
            print(f'VIOLATION property={prop} replay={fn}')
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': stats.states or ncases, 'transitions': stats.transitions or ncases,
                       'traces_validated_against_impl': traces, 'cases': ncases,
                       'distinct_outcomes': len(outcomes), 'exhaustive': not capped and not stats.capped and not viol,
                       'bound': mod.BOUND if isinstance(mod.BOUND, str) else mod.BOUND[tier],
                       'detail': stats.note, 'samples': samples,
                       'known_findings_seen': sorted(known)},
          'assumptions': getattr(mod, 'ASSUME', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{prop} {tier}: {ncases} cases, {traces} executions, states={ev["coverage"]["states"]} '
          f'transitions={ev["coverage"]["transitions"]} outcomes={len(outcomes)} violations={len(viol)} '
          f'known={len(known)} capped={capped} {wall:.1f}s')
    return rc


def _brief(case):
    s = json.dumps(case, default=str)
    return case if len(s) < 1500 else s[:1500] + '...'


if __name__ == '__main__':
    args = sys.argv[1:]
    rp = None
    if '--replay' in args:
        i = args.index('--replay')
        rp = args[i + 1]
        del args[i:i + 2]
    tier_ = os.environ.get('VERIF_TIER', 'quick')
    if len(args) > 1:
        tier_ = args[1]
    rc_ = main(args[0].lower(), tier_, rp)
    sys.stdout.flush()
    os._exit(rc_)
