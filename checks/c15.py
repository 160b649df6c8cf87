"""C15: accidentals"""
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C15'
BOUND = {'quick': 'every score with at most 1 deviation from the base scores over the full vocabulary (all 13 routes), at '
                  'most 2 over six options per choice (imports, exports, chains); every line of five notes over four pitches in three keys (imports)',
         'thorough': 'at most 2 deviations over the full vocabulary (all routes), at most 3 over four options per choice; every line of five notes over four pitches in three keys (imports, exports, chains)'}
ASSUME = ['an accidental of a Humdrum note is displayed when the key signature and the earlier notes of the same staff, '
          'octave and measure do not already give it, or when it is asked for; after a tie over a barline and after a grace '
          'note the next note of that line of the staff shows its accidental again; tied notes show none unless asked for',
          'natural unisons of two voices and accidentals above the staff (Humdrum) are not asserted']
CATS = ['core', 'acc', 'ties', 'keys']
P = ['C5', 'C#5', 'C-5', 'D5', 'C##5', 'C--5', 'C#4', 'C4', 'F5', 'F#5', 'B-4', 'B4', 'C#6', 'E-5', 'C###5', 'C---5', 'D#5', 'C-4']
KEYS = [0, 2, -1, -3, 7, -7, 1, 3, 4, 5, 6, -2, -4, -5, -6]
SHARPS, FLATS = 'FCGDAEB', 'BEADGCF'
ALTER = {'': 0, '#': 1, '-': -1, '##': 2, '--': -2, '###': 3, '---': -3}
SHOW = [None, True, 'parentheses', 'bracket', 'above', 'caution']


def keyalter(k):
    return {x: 1 for x in SHARPS[:k]} if k > 0 else {x: -1 for x in FLATS[:-k]} if k < 0 else {}


def rule(M):
    """set e['sh'] of every note: displayed by rule or by request"""
    for s in range(S.nstaves(M)):
        key = keyalter(M['key'][s])
        for m in range(len(M['meas'])):
            for x in M['sigs']:
                if x['m'] == m and x.get('key') is not None and x['s'] in (None, s):
                    key = keyalter(x['key'])
            state, gstate, force, gforce = {}, {}, set(), set()
            rows = []
            for v in range(len(M['v'][s][m])):
                for t, g, e in S.events(M, s, m, v):
                    if e['k'] in 'nc':
                        rows.append((t, not e.get('g'), g if e.get('g') else 0, v, e))
            first = True
            conc, last = {}, None
            rows.sort(key=lambda r: r[:4])
            for t, reg, g, v, e in rows:
                if last != (t, reg, g):
                    conc = {}
                    first = last is None
                    last = (t, reg, g)
                e['sh'] = []
                for i, p in enumerate(e['p']):
                    step, acc, octv = S.splitp(p)
                    d, a = (step, octv), ALTER[acc]
                    want = (e.get('want') or [None] * len(e['p']))[i]
                    ti = e.get('tie')
                    ti = ti[i] if isinstance(ti, (list, tuple)) else ti
                    need = False
                    if ti in ('c', 'e'):
                        if a != key.get(step, 0) and first and m > 0:
                            force.add(d)
                            gforce.add(d)
                    elif not reg:
                        need = d in gforce or a != gstate.get(d, key.get(step, 0))
                        if need:
                            gforce.discard(d)
                            gstate[d] = a
                            force.add(d)
                    else:
                        if d in conc:
                            if conc[d] != a or a == 0:
                                raise Prune()      # two alterations, or two naturals, of one line at one moment
                            need = True
                        elif d in force or a != state.get(d, key.get(step, 0)):
                            need = True
                            conc[d] = a
                        if need:
                            force.discard(d)
                            gforce.discard(d)
                            state[d] = gstate[d] = a
                    if want == 'caution':
                        want = True
                    if want and ti in ('c', 'e') and want is not True:
                        raise Prune()
                    e['sh'].append(want or need)


def driver(c):
    ns, parts = c.choose('struct', STRUCTS)
    M = S.base(ns, 2, '4/4', parts)
    k = c.choose('key', KEYS)
    M['key'] = [k] * ns
    if ns > 1:
        M['key'][1] = c.choose('key1', [k] + [x for x in (0, 2, -3) if x != k])
    F.fillall(M, 1)
    line = c.choose('line', [['C#5', 'C#5', 'C5', 'D5', 'C5', 'C#5', 'C5', 'D5'], ['C5', 'C#4', 'C#5', 'C-5', 'C-5', 'C-4', 'C5', 'C#5'],
                             ['F5', 'C#5', 'B-4', 'B4', 'F#5', 'C5', 'C##5', 'C#5'], ['C5', 'C5', 'C5', 'C5', 'C5', 'C5', 'C5', 'C5']])
    for m in range(2):
        for j in range(4):
            d = line[4 * m + j]
            p = c.choose(f'p{m}.{j}', [d] + [x for x in P if x != d]) if m == 0 or j < 2 else d
            M['v'][0][m][0][j]['p'] = [p]
    two = c.choose('two', [None, 'C#5', 'C5', 'C-5', 'E-4', 'F#4', 'C#4', 'late'])
    if two == 'late':
        M['v'][0][0].append([S.S('2'), N('2', 'C-5')])
    elif two:
        M['v'][0][0].append([S.S('4'), N('4', two), N('4', 'E4'), N('4', two)])
    oth = c.choose('other', [None, 'C#5', 'C5'])
    if oth:
        if ns < 2:
            raise Prune()
        M['v'][1][0] = [[N('4', oth), N('4', 'E4'), N('4', oth), N('4', 'E4')]]
    ev = M['v'][0]
    kind = c.choose('kind', [None, 'chord', 'chord2', 'grace', 'grace2', 'gracelast', 'tie', 'tie1', 'tiechord', 'rest', 'key', 'keymid', 'tuplet', 'tielong'])
    if kind == 'chord':
        q = c.choose('cpos', [0, 1, 2, 3])
        w = c.choose('cwith', ['E-5', 'E5', 'C#6', 'G5', 'C##6', 'A-5'])
        ev[0][0][q] = Ch('4', [ev[0][0][q]['p'][0], w])
    elif kind == 'chord2':
        ev[0][0][0] = Ch('4', ['C#5', 'E-5', 'G5'])
        ev[0][0][2] = Ch('4', ['C5', 'E-5', 'G#5'])
    elif kind in ('grace', 'grace2', 'gracelast'):
        q = c.choose('gpos', [0, 1, 2, 3])
        g = c.choose('gp', ['C#5', 'C5', 'C-5', 'D#5', 'B-4'])
        if kind == 'gracelast':
            ev[1][0].insert(c.choose('gpos1', [0, 1]), N('8', g, g='qq'))
        else:
            ev[0][0].insert(q, N('8', g, g='q'))
            if kind == 'grace2':
                ev[0][0].insert(q + 1, N('8', c.choose('gp2', ['C#5', 'C5', 'D5']), g='q'))
    elif kind in ('tie', 'tie1', 'tielong'):
        a, b = (ev[0][0][3], ev[1][0][0]) if kind != 'tie1' else (ev[0][0][1], ev[0][0][2])
        p = c.choose('tp', ['C#5', 'C5', 'C-5', 'F#5', 'B-4'])
        a['p'], b['p'] = [p], [p]
        a['tie'], b['tie'] = 's', 'e'
        if kind == 'tielong':
            b['tie'] = 'c'
            ev[1][0][1]['p'] = [p]
            ev[1][0][1]['tie'] = 'e'
    elif kind == 'tiechord':
        ev[0][0][3], ev[1][0][0] = Ch('4', ['C#5', 'E-5']), Ch('4', ['C#5', 'E-5'])
        ev[0][0][3]['tie'], ev[1][0][0]['tie'] = ['s', None], ['e', None]
    elif kind == 'rest':
        ev[0][0][1] = R('4')
    elif kind in ('key', 'keymid'):
        M['sigs'].append({'s': None, 'm': 1, 'off': '0', 'key': c.choose('newkey', [x for x in (3, -3, 0, 7, -7, 1) if x != k])})
    elif kind == 'tuplet':
        ev[0][0][:2] = [N('4', p, tup=[3, 2]) for p in ('C#5', 'C5', 'C#5')]
    # requests
    places = [(m, j) for m in range(2) for j, (t, g, e) in enumerate(S.events(M, 0, m, 0)) if e['k'] in 'nc']
    n = c.choose('n', [1, 0, 2])
    mono = c.choose('free', [False, True])
    rdf = set()
    for q in range(n):
        d = [(0, 1), (1, 1)][q]
        at = c.choose(f'at{q}', [d] + [x for x in places if x != d])
        if at not in places:
            raise Prune()
        e = S.events(M, 0, at[0], 0)[at[1]][2]
        i = c.choose(f'i{q}', [0, 1]) if len(e['p']) > 1 else 0
        w = c.choose(f'want{q}', SHOW[1:])
        e.setdefault('want', [None] * len(e['p']))
        if e['want'][i]:
            raise Prune()
        e['want'][i] = w
        e.setdefault('kform', [None] * len(e['p']))[i] = c.choose(f'kform{q}', [None, 'lo', 'vis'])
    rule(M)
    if mono:
        # MEI only: any note may show or hide its accidental
        fl = c.choose('flip', places)
        e = S.events(M, 0, fl[0], 0)[fl[1]][2]
        i = c.choose('fi', list(range(len(e['p']))))
        e['sh'][i] = not e['sh'][i]
        M['free'] = True
    km = c.choose('k.plain', [None, 'X', 'n', 'ny'])
    mm = c.choose('m.form', [None, 'child', 'both', 'childboth'])
    mg = c.choose('m.ges', [None, 'childges', 'gesn'])
    alt = c.flag('m.alt')
    for s in range(ns):
        for m in range(2):
            for v in range(len(M['v'][s][m])):
                for t, g, e in S.events(M, s, m, v):
                    if e['k'] not in 'nc':
                        continue
                    kacc, macc = [], []
                    for i, p in enumerate(e['p']):
                        acc = S.splitp(p)[1]
                        w = (e.get('want') or [None] * 9)[i]
                        kf = (e.get('kform') or [None] * 9)[i]
                        sh = e['sh'][i]
                        kx = ''
                        if w in (True, 'caution'):
                            kx = 'X' if acc else 'n'
                            if kf == 'vis':
                                kx = ''
                                num = f':n={i + 1}' if len(e['p']) > 1 else ''
                                e.setdefault('klo', []).append(f'!LO:N{num}:acc={acc.replace("##", "x") or "n"}')
                            elif kf == 'lo' and not acc:
                                kx = 'nX'
                        elif w in ('parentheses', 'bracket'):
                            if kf == 'lo' or w == 'above':
                                num = f':n={i + 1}' if len(e['p']) > 1 else ''
                                e.setdefault('klo', []).append(f'!LO:A{num}:edit={w[:5]}')
                                kx = '' if acc else 'n'
                            else:
                                kx = ('' if acc else 'n') + {'p': 'i', 'b': 'j'}[w[0]]
                                rdf.add(w[0])
                        elif w == 'above':
                            num = f':n={i + 1}' if len(e['p']) > 1 else ''
                            e.setdefault('klo', []).append(f'!LO:A{num}:edit=a')
                        elif km == 'X' and sh and acc:
                            kx = 'X'
                        elif km == 'n' and sh and not acc:
                            kx = 'n'
                        elif km == 'ny' and not sh and not acc:
                            kx = 'ny'
                        kacc.append(kx)
                        if not sh:
                            macc.append(mg)
                        elif sh in ('parentheses', 'bracket'):
                            macc.append(['accid', {'enclose': {'p': 'paren', 'b': 'brack'}[sh[0]]}])
                        elif sh == 'above':
                            macc.append(['accid', {'func': 'edit'}])
                        elif w == 'caution':
                            macc.append(['accid', {'func': 'caution'}])
                        elif alt and acc in ('##', '###'):
                            macc.append(['alt', {'##': 'x', '###': 'xs'}[acc]])
                        else:
                            macc.append(mm or 'accid')
                    e['kacc'], e['macc'] = kacc, macc
                    e.pop('want', None)
                    e.pop('kform', None)
    if rdf:
        M['rdf'] = [{'p': '!!!RDF**kern: i = editorial accidental, paren', 'b': '!!!RDF**kern: j = editorial accidental, bracket'}[x] for x in sorted(rdf)]
    return M


def seq(c):
    """every line of five notes over four pitches, two measures, three keys"""
    M = S.base(1, 2, '4/4', [[0]])
    M['meas'][1]['len'] = '2'
    M['key'] = [c.choose('key', [0, 2, -7], 0)]
    ps = [c.choose(f'p{j}', ['C5', 'C#5', 'C-5', 'C#4'], 0) for j in range(5)]
    M['v'][0] = [[[N('4', p) for p in ps[:3]] + [N('4', 'E5')]], [[N('4', p) for p in ps[3:]]]]
    if ps[2] == ps[3]:
        if c.choose('tie', [False, True], 0):
            a, b = M['v'][0][0][0], M['v'][0][1][0]
            a[2], a[3] = a[3], a[2]
            a[3]['tie'], b[0]['tie'] = 's', 'e'
    rule(M)
    for m in range(2):
        for e in M['v'][0][m][0]:
            e['kacc'], e['macc'] = [''], ['accid' if x else None for x in e['sh']]
    return M


def ok(r, M):
    if uses_kern(r) and (M.get('free') or (uses_kern_out(r) and any('above' in e.get('sh', []) for s in range(S.nstaves(M)) for m in range(len(M['meas']))
                                           for v in range(len(M['v'][s][m])) for t, g, e in S.events(M, s, m, v)))):
        return False
    return True


def plan(M):
    if M.get('seq'):
        return IMPORTS if M['seq'] == 'quick' else IMPORTS + EXPORTS + CHAINS
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS + CHAINS


run, traces_of = F.make(CATS, plan, ok=ok)
show = F.show


def cases(tier, stats):
    full = 2 if tier == 'quick' else 3
    seen = set()
    spaces = [(driver, 1, None), (driver, 2, 6)] if tier == 'quick' else [(driver, 2, None), (driver, 3, 4)]
    for d, b, tr in spaces:
        for k, M in F.enum(stats, d, b, seen=seen, trim=tr):
            M['full'] = full
            yield k, M
    for k, M in F.enum(stats, seq, 0, seen=seen, tag='seq'):
        M['seq'] = tier
        yield k, M
