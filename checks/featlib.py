"""Helpers shared by the feature checks: small stage scores, placement choices, and the enumeration loop."""
import score as S
import routes
from fractions import Fraction
from score import N, R, Ch, ql
from explore import Explorer, Prune

SCALE = ['C', 'D', 'E', 'F', 'G', 'A', 'B']
STRUCTS = [(1, [[0]]), (2, [[0], [1]]), (2, [[0, 1]])]
IMPORTS = ['humdrum-import', 'mei-import']
EXPORTS = ['humdrum-export', 'mei-export']
CHAINS = ['humdrum-mei', 'mei-humdrum']
BACK = ['humdrum-humdrum', 'mei-mei', 'mei4-export', 'humdrum-mei-humdrum', 'mei-humdrum-mei', 'humdrum-export-novoice',
        'mei-export-novoice']
ALL = IMPORTS + EXPORTS + CHAINS + BACK
VALS = [('1', 0, Fraction(4)), ('2', 1, Fraction(3)), ('2', 0, Fraction(2)), ('4', 1, Fraction(3, 2)), ('4', 0, Fraction(1)),
        ('8', 1, Fraction(3, 4)), ('8', 0, Fraction(1, 2)), ('16', 0, Fraction(1, 4)), ('32', 0, Fraction(1, 8))]


def pitch(s, m, v, j):
    i = j + 2 * m
    return SCALE[i % 7] + str(max(1, 5 - s - v + i // 7))


def fill(L, unit, mk):
    """events filling L quarters with notes of at most `unit` quarters"""
    L, unit = Fraction(L), Fraction(unit)
    out = []
    while L > 0:
        for d, dots, q in VALS:
            if q <= unit and q <= L:
                out.append(mk(len(out), d, dots))
                L -= q
                break
        else:
            raise Prune()
    return out


def notes(s, m, v, L, unit=1):
    return fill(L, unit, lambda j, d, dots: N(d, pitch(s, m, v, j), dots))


def set_ts(M, ts, sym=None):
    M['meas'][0]['ts'] = ts
    M['meas'][0]['tssym'] = sym


def fillall(M, unit=1, voices=None):
    """fill every measure with notes; voices: {(s, m): n}"""
    for s in range(S.nstaves(M)):
        for m, ms in enumerate(M['meas']):
            nv = (voices or {}).get((s, m), 1)
            M['v'][s][m] = [notes(s, m, v, Fraction(ms['len']), unit) for v in range(nv)]


class Trim:
    """chooser that keeps at most k options of every choice: the default, the next, and evenly spread others"""

    def __init__(self, c, k):
        self.c, self.k = c, k

    def choose(self, name, options, cost=1):
        options = list(options)
        if len(options) > self.k:
            n, k = len(options), self.k
            idx = sorted({0, 1} | {1 + round((n - 2) * i / (k - 2)) for i in range(1, k - 1)})
            options = [options[i] for i in idx]
        return self.c.choose(name, options, cost)

    def flag(self, name, cost=1):
        return self.choose(name, (False, True), cost)


def enum(stats, driver, bound, tag='', seen=None, trim=None, only=None):
    seen = seen if seen is not None else set()
    s0, t0 = stats.states, stats.transitions
    ex = Explorer(driver if trim is None else (lambda c: driver(Trim(c, trim))), bound)
    if trim is not None and not tag:
        tag = f'trim{trim}'
    for M, trace, dev in ex.run():
        k = S.dumps(M)
        if k in seen:
            continue
        seen.add(k)
        key = (tag + ':' if tag else '') + (','.join(f'{n}={i}' for n, i in trace) or 'default')
        if isinstance(M, dict):
            M['dev'] = dev
        yield key, M
    stats.states, stats.transitions = ex.nodes + s0, ex.edges + t0
    stats.note.setdefault('spaces', []).append({'space': tag or driver.__name__, 'bound': bound,
                                                'cases_by_deviation': dict(ex.by_dev), 'pruned': ex.pruned})


def show(M):
    print(S.to_kern(M))
    print(S.to_mei(M))


def make(cats, plan, norm=None, ok=None):
    """run/traces_of functions. plan(M) -> routes; ok(route, M) -> False when the route cannot carry the case"""
    def routes_of(M):
        return [r for r in plan(M) if ok is None or ok(r, M)]

    def run(M):
        return routes.check_model(M, cats, routes_of(M), norm=norm)

    def traces_of(M):
        return len(routes_of(M))
    return run, traces_of


def uses_kern_in(r):
    return r.startswith('humdrum-') and not r.startswith('humdrum-export')


def uses_kern_out(r):
    return r.startswith('humdrum-export') or 'humdrum' in r.split('-')[1:]


def uses_mei_in(r):
    return r.startswith('mei-') and not r.startswith('mei-export') and not r.startswith('mei4')


def uses_mei_out(r):
    return r.startswith('mei-export') or r.startswith('mei4') or 'mei' in r.split('-')[1:]


def uses_kern(r):
    return 'humdrum' in r


def uses_mei(r):
    return 'mei' in r
