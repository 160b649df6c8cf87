"""C13: dynamics and hairpins"""
import re
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C13'
BOUND = {'quick': 'every score with at most 1 deviation from the base scores over the full vocabulary (all 13 routes), at '
                  'most 2 over five options per choice (imports, exports, chains)',
         'thorough': 'at most 2 deviations over the full vocabulary (all routes), at most 3 over four options per choice'}
ASSUME = ['Humdrum: one dynamic per part and moment, no dynamic inside a hairpin, no overlapping hairpins in a part, '
          'nothing at the very end of a measure (not expressible)',
          'placements are compared where they are given']
CATS = ['core', 'dynamics', 'dynplace', 'wedges', 'wedgeplace', 'texts']
VALUES = ['f', 'p', 'mf', 'mp', 'ff', 'pp', 'fff', 'ppp', 'ffff', 'pppp', 'sf', 'sfz', 'fp', 'rf', 'rfz', 'fz', 'sfp',
          'sfzp', 'ffp', 'sff', 'ffz', 'sffz', 'ffffff', 'pppppp', 'ffpp', 'sffzp']
TEXTED = [('p sempre legato', 'p', 't=%s sempre legato'), ('sempre f', 'f', 't=sempre %s'), ('( mf )', 'mf', 'ed=paren'),
          ('[ pp ]', 'pp', 'ed=brack'), ('{ f }', 'f', 'ed=curly'), ('< sfz >', 'sfz', 'ed=angle'), ('[ mp ]', 'mp', 'brack'),
          ('( p )', 'p', 'paren'), ('{ ff }', 'ff', 'curly'), ('< fp >', 'fp', 'angle'), ('poco f espress.', 'f', 't=poco %s espress.'),
          ('p dolce', 'p', 't=%s dolce'), ('mf subito', 'mf', 't=%s subito')]


def stage(c):
    ns, parts = c.choose('struct', [STRUCTS[0], STRUCTS[1], STRUCTS[2]])
    nm = c.choose('nmeas', [3, 1])
    ts = c.choose('ts', ['4/4', '3/4', '6/8', '2/2'])
    M = S.base(ns, nm, ts, parts)
    rh = c.choose('rhythm', ['4', '2', '1', '8', 'dot', 'tup', 'mix'])
    unit = {'4': 1, '2': 2, '1': 4, '8': Fraction(1, 2)}.get(rh, 1)
    F.fillall(M, unit)
    if rh == 'dot':
        if ts != '4/4':
            raise Prune()
        M['v'][0][0][0] = [N('4', 'C5', 1), N('8', 'D5'), N('2', 'E5')]
    elif rh == 'tup':
        if ts != '4/4':
            raise Prune()
        M['v'][0][0][0] = [N('4', 'C5', tup=[3, 2]), N('4', 'D5', tup=[3, 2]), N('4', 'E5', tup=[3, 2]), N('2', 'E5')]
    elif rh == 'mix':
        if ts != '4/4':
            raise Prune()
        for s in range(ns):
            M['v'][s][0][0] = [[N('2', 'C5'), N('2', 'D5')], [N('4', 'C4'), N('4', 'C4'), N('4', 'C4'), N('4', 'C4')]][s % 2]
    two = c.choose('two', [None, '2', '4', '8', 'off'])
    if two:
        s = c.choose('twostaff', list(range(ns)))
        L = Fraction(M['meas'][0]['len'])
        M['v'][s][0].append(F.notes(s, 0, 1, L, {'2': 2, '4': 1, '8': Fraction(1, 2)}.get(two, 1)))
        if two == 'off':
            if ts != '4/4':
                raise Prune()
            M['v'][s][0][1] = [S.S('8'), N('4', 'E4'), N('4', 'F4'), N('4', 'E4'), S.S('8')]
    kind = c.choose('kind', [None, 'chord', 'grace', 'rest', 'tie', 'mrest'])
    v0 = M['v'][0][0][0]
    if kind == 'chord':
        v0[0] = Ch(v0[0]['d'], ['C5', 'E5'], v0[0]['dots'], tup=v0[0]['tup'])
    elif kind == 'grace':
        v0.insert(0, N('8', 'B4', g='q'))
    elif kind == 'rest':
        v0[0] = R(v0[0]['d'], v0[0]['dots'], tup=v0[0]['tup'])
    elif kind == 'mrest':
        if two or ts != '4/4':
            raise Prune()
        M['v'][0][0][0] = [R('1')]
    elif kind == 'tie':
        if len(v0) < 2:
            raise Prune()
        v0[1]['p'] = list(v0[0]['p'])
        v0[0]['tie'], v0[1]['tie'] = 's', 'e'
    return M


def times(M, s):
    """(m, off): note starts of the staff, and between notes"""
    on, off = [], []
    for m in range(len(M['meas'])):
        t0 = {t for v in range(S.nvoices(M, s, m)) for t, g, e in S.events(M, s, m, v) if g == 0}
        t1 = {t + S.ql(e) / 2 for t, g, e in S.events(M, s, m, 0) if g == 0} - t0
        on += [(m, t) for t in sorted(t0)]
        off += [(m, t) for t in sorted(t1)][:2]
    return on, off


def dyns(c):
    M = stage(c)
    ns = S.nstaves(M)
    n = c.choose('n', [1, 2, 3, 'same', 'sameids'])
    for q in range(n if isinstance(n, int) else 2):
        s = c.choose(f'staff{q}', list(range(ns)))
        on, off = times(M, s)
        d = on[min(q, len(on) - 1) if isinstance(n, int) else 0]
        m, t = c.choose(f'at{q}', [d] + [x for x in on + off if x != d])
        v = c.choose(f'value{q}', (VALUES[q:] + VALUES[:q] if not isinstance(n, int) else VALUES) + TEXTED)
        x = {'s': s, 'm': m, 'off': str(t), 't': v if isinstance(v, str) else v[0]}
        if not isinstance(v, str):
            x['kt'], x['klo'] = v[1], v[2]
        pl = c.choose(f'place{q}', [None, 'above', 'below'])
        if pl:
            x['place'] = pl
            if c.flag(f'kpos{q}'):
                x['kpos'] = True
        mi = c.choose(f'mids{q}', ['ids' if n == 'sameids' else None, 'ids', 'nostaff'])
        if mi:
            x['mids'] = mi
        mx = c.choose(f'mx{q}', [None, 'rend', 'two', 'ws', 'lb'])
        if mx == 'rend':
            x['mx'] = f'<rend fontstyle="normal">{S.escape(x["t"])}</rend>'
        elif mx == 'two' and len(x['t']) > 1 and x['t'].isalpha():
            x['mx'] = f'<rend fontweight="bold">{x["t"][0]}</rend>{x["t"][1:]}'
        elif mx == 'ws':
            x['mx'] = f'\n   {S.escape(x["t"])}\n  '
        elif mx:
            raise Prune()
        if c.flag(f'invoice{q}'):
            x['invoice'] = 0 if S.nvoices(M, s, m) < 2 else 1
        if v in ('sf', 'sfz') and c.flag(f'kz{q}'):
            x['kz'] = True
            r = S.find_at(M, s, m, t)
            if not r or r[2]:
                raise Prune()
            S.events(M, *r[:3])[r[3]][2].setdefault('kx', []).append('z' if v == 'sf' else 'zz')
        M['dyn'].append(x)
    extras(c, M)
    return M


def extras(c, M):
    k = c.choose('k.kind', [None, 'dyn'])
    if k:
        M.setdefault('kopt', {})['dynkind'] = k
    if c.flag('k.join'):
        M.setdefault('kopt', {})['dynjoin'] = True
    if c.flag('k.cont'):
        M.setdefault('kopt', {})['wcont'] = True
    ly = c.choose('with', [None, 'lyric', 'cs', 'text'])
    if ly == 'lyric':
        S.events(M, 0, 0, 0)[-1][2]['lyr'] = [[1, 'la', 'single']]
    elif ly == 'cs':
        M['cs'].append({'s': 0, 'm': 0, 'off': '0', 'harte': 'C:maj', 'root': 'C', 'kind': 'major', 'print': 'C', 'm21reg': 'C', 'mxhm': 'C major'})
    elif ly == 'text':
        M['text'].append({'s': 0, 'm': 0, 'off': '0', 't': 'dolce', 'place': 'above'})


def wedges(c):
    M = stage(c)
    ns, nm = S.nstaves(M), len(M['meas'])
    for q in range(c.choose('n', [1, 2])):
        s = c.choose(f'staff{q}', list(range(ns)))
        on, off = times(M, s)
        d = on[min(2 * q, len(on) - 1)]
        m, t = c.choose(f'at{q}', [d] + [x for x in on + off if x != d])
        ends = sorted({(mm, tt) for mm, tt in on + off if (mm, tt) > (m, t)} | {(mm, Fraction(M['meas'][mm]['len'])) for mm in range(m, nm)})
        ends = [x for x in ends if not (x[1] == 0 and x[0] > 0)]        # (m, len) is the same time
        d2 = ends[min(1, len(ends) - 1)]
        m2, t2 = c.choose(f'end{q}', [d2] + [x for x in ends if x != d2])
        x = {'s': s, 'm': m, 'off': str(t), 'm2': m2, 'off2': str(t2), 'w': c.choose(f'w{q}', ['cresc', 'dim'])}
        pl = c.choose(f'place{q}', [None, 'above', 'below'])
        if pl:
            x['place'] = pl
            if c.flag(f'kpos{q}'):
                x['kpos'] = True
        mi = c.choose(f'mids{q}', [None, 'se', 's', 'e', 'nostaff', 'short'])
        if mi == 'nostaff':
            x['mids'], x['nostaff'] = 's', True
        elif mi == 'short':
            x['mshort'] = True
        elif mi:
            x['mids'] = mi
        if c.flag(f'anchors{q}'):
            x['anchors'] = True
        if c.flag(f'kdouble{q}'):
            if S.nvoices(M, s, m) > 1 or (t2 < Fraction(M['meas'][m2]['len']) and (m2, t2) not in on):
                raise Prune()
            x['kdouble'] = True
        M['wedge'].append(x)
        dy = c.choose(f'dyn{q}', [None, 'start', 'end', 'both', 'inside'])
        if dy in ('start', 'both'):
            M['dyn'].append({'s': s, 'm': m, 'off': str(t), 't': 'p'})
        if dy in ('end', 'both') and t2 < Fraction(M['meas'][m2]['len']):
            M['dyn'].append({'s': s, 'm': m2, 'off': str(t2), 't': 'f'})
        if dy == 'inside':
            ins = [z for z in on if (m, t) < z < (m2, t2)]
            if not ins:
                raise Prune()
            M['dyn'].append({'s': s, 'm': ins[0][0], 'off': str(ins[0][1]), 't': 'mf'})
    ks = [(y['s'], y['m'], y['off']) for y in M['dyn']]
    if len(ks) != len(set(ks)):
        raise Prune()
    extras(c, M)
    return M


def apos(M, m, off):
    return sum((Fraction(x['len']) for x in M['meas'][:m]), Fraction(0)) + Fraction(off)


def bounds(M):
    w = [(w['s'], w['m'], w['off']) for w in M['wedge']]
    w += [(w['s'], w['m2'], w['off2']) for w in M['wedge'] if Fraction(w['off2']) < Fraction(M['meas'][w['m2']]['len'])]
    return w + [(d['s'], d['m'], d['off']) for d in M['dyn']]


def vague(M, s, m, t):
    """the time of a row without a note is only defined between two notes of the measure"""
    ts = {x for s2 in range(S.nstaves(M)) for v in range(S.nvoices(M, s2, m)) for x, g, e in S.events(M, s2, m, v)}
    t = Fraction(t)
    if t in ts:
        return False
    if t > max(ts):
        return True
    a, b = max(x for x in ts if x < t), min(x for x in ts if x > t)
    rows = sorted({Fraction(y) for _, m2, y in bounds(M) if m2 == m and a < Fraction(y) < b})
    return t != a + (b - a) * (rows.index(t) + 1) / (len(rows) + 1)


def between(M):
    """a hairpin starts or ends where no note of the part starts"""
    for w in M['wedge']:
        for m, t in ((w['m'], w['off']), (w['m2'], w['off2'])):
            ts = {x for p in M['parts'] if w['s'] in p for s in p for v in range(S.nvoices(M, s, m)) for x, g, e in S.events(M, s, m, v)}
            if Fraction(t) not in ts | {Fraction(M['meas'][m]['len'])}:
                return True
    return False


def ok(r, M):
    if uses_kern(r):
        part = {s: i for i, p in enumerate(M['parts']) for s in p}
        out = r.split('-')[0] != 'humdrum' or 'export' in r or len(r.split('-')) > 2     # goes through the writer
        group = (lambda s: part[s]) if uses_kern_out(r) else (lambda s: s)
        W = [(group(w['s']), apos(M, w['m'], w['off']), apos(M, w['m2'], w['off2']), w) for w in M['wedge']]
        D = [(group(d['s']), apos(M, d['m'], d['off'])) for d in M['dyn']]
        if len(set(D)) < len(D):
            return False
        for i, (g, a, b, w) in enumerate(W):
            for g2, t in D:
                if g2 == g and a < t < b:
                    return False
            for g2, a2, b2, w2 in W[i + 1:]:
                if g2 == g and not (b <= a2 or b2 <= a):
                    return False
        if r.startswith('humdrum-') and 'export' not in r and any(vague(M, *x) for x in bounds(M)):
            return False
        for d in M['dyn']:
            if Fraction(d['off']) >= Fraction(M['meas'][d['m']]['len']):
                return False
    return True


def norm(r, f, M):
    """placements only where the model gives one"""
    f = dict(f)
    given = [f's{d["s"]}m{d["m"]}@{Fraction(d["off"])} dyn {d["t"]!r} ' for d in M['dyn'] if d.get('place')]
    f['dynplace'] = [x for x in f['dynplace'] if any(x.startswith(g) for g in given)]
    wg = {f's{w["s"]} {apos(M, w["m"], w["off"])}..' for w in M['wedge'] if w.get('place')}
    f['wedgeplace'] = [x for x in f['wedgeplace'] if any(z in x for z in wg)]
    return f


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS + CHAINS


run, traces_of = F.make(CATS, plan, norm=norm, ok=ok)
show = F.show


def cases(tier, stats):
    full = 2 if tier == 'quick' else 3
    seen = set()
    b = [(1, None), (2, 5)] if tier == 'quick' else [(2, None), (3, 4)]
    for d in (dyns, wedges):
        for bound, tr in b:
            for k, M in F.enum(stats, d, bound, tag=f'{d.__name__}{tr or ""}', seen=seen, trim=tr):
                M['full'] = full
                yield k + (',between' if between(M) else ''), M
