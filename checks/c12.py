"""C12: lyrics"""
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C12'
BOUND = {'quick': 'every score with at most 1 deviation from the base score over the full vocabulary (all 13 routes), at '
                  'most 2 over five options per choice (imports, exports, chains)',
         'thorough': 'at most 2 deviations over the full vocabulary (all routes), at most 3 over four options per choice'}
ASSUME = ['texts that look like character entities, start with a hyphen or consist of white space are not asserted']
CATS = ['core', 'lyrics']
TEXTS = ['la', 'a', 'é', "l'a", 'Ky', "don't", 'a-b', 'x.', ',', 'A b', 'a b c', 'ß"q"', '(x)', '<b>', 'a&b', '1.', '!Ay', '*x',
         '=e', 'a:b', 'l_', 'a=b', '日本', 'a/b', '{x}', '[y]', 'o|', '%', '#', '@x', 'a2', "ma 'l", '~', '?', 'a\\b', 'thyself',
         'r', '..', 'yy', '4c', ';', '^', '=', '=1', '==', ':|', '.x', '. x', '>', '<', 'l’Eau', 'ﬂ', 'a--b', '_']
SYLS = ['single', 'begin', 'middle', 'end', None]


def driver(c):
    ns, parts = c.choose('struct', [STRUCTS[0], STRUCTS[1], STRUCTS[2]])
    M = S.base(ns, 2, '4/4', parts)
    rh = c.choose('rhythm', ['2', '4', '1', '8'])
    F.fillall(M, {'2': 2, '4': 1, '1': 4, '8': Fraction(1, 2)}[rh])
    two = c.choose('two', [None, '2', '4', '8', 'off'])
    if two:
        M['v'][0][0].append(F.notes(0, 0, 1, 4, {'2': 2, '4': 1, '8': Fraction(1, 2)}.get(two, 1)))
        if two == 'off':
            M['v'][0][0][1] = [S.S('8'), N('4', 'E4'), N('4', 'F4'), N('4', 'E4'), S.S('8')]
    kind = c.choose('kind', [None, 'chord', 'grace', 'tie', 'rest', 'dot', 'tup'])
    v0 = M['v'][0][0][0]
    if kind == 'chord':
        v0[0] = Ch(v0[0]['d'], ['C5', 'E5'], v0[0]['dots'])
    elif kind == 'grace':
        v0.insert(0, N('8', 'B4', g='q'))
    elif kind == 'tie' and len(v0) > 1:
        v0[1]['p'] = list(v0[0]['p'])
        v0[0]['tie'], v0[1]['tie'] = 's', 'e'
    elif kind == 'rest' and len(v0) > 1:
        v0[1] = R(v0[1]['d'])
    elif kind == 'dot':
        M['v'][0][0][0] = [N('4', 'C5', 1), N('8', 'D5'), N('2', 'E5')]
    elif kind == 'tup':
        M['v'][0][0][0] = [N('4', 'C5', tup=[3, 2]), N('4', 'D5', tup=[3, 2]), N('4', 'E5', tup=[3, 2]), N('2', 'E5')]
    elif kind:
        raise Prune()
    places = []
    for m in range(2):
        for s in range(ns):
            for v in range(S.nvoices(M, s, m)):
                for j, (t, g, e) in enumerate(S.events(M, s, m, v)):
                    if e['k'] in 'nc':
                        places.append((s, m, v, j))
    nly = c.choose('n', [2, 1, 3, 0])
    stack = c.flag('stack')
    for q in range(nly):
        if q >= len(places):
            break
        d = places[min(q, len(places) - 1)]
        if stack and q:
            d = places[0]
        at = c.choose(f'at{q}', [d] + [p for p in places if p != d])
        ev = S.events(M, *at[:3])[at[3]][2]
        vs = [1, 2, 3, 5]
        if stack and q:
            vs = [q + 1] + [x for x in vs if x != q + 1]
        verse = c.choose(f'verse{q}', vs)
        text = c.choose(f'text{q}', TEXTS)
        syl = c.choose(f'syl{q}', SYLS)
        lab = c.choose(f'label{q}', [None, 'Chor', 'd', 'a) b', '2.', 'x[', 'Solo: x'])
        if any(x[0] == verse for x in ev.get('lyr', [])):
            raise Prune()
        ev.setdefault('lyr', []).append([verse, text, syl] + ([lab] if lab else []))
    for p in places:
        ev = S.events(M, *p[:3])[p[3]][2]
        if ev.get('lyr'):
            ev['lyr'].sort(key=lambda x: x[0])
    mo = c.choose('m.syl', [None, 'elide', 'hyphen', 'nosingle', 'rend', 'space', 'bare', 'non', 'labelattr'])
    if mo:
        M.setdefault('meiopt', {})['syl'] = mo
    ko = c.choose('k.kind', [None, 'silbe', 'vdata', 'vvdata', 'dyn', 'cs'])
    if ko in ('silbe', 'vdata', 'vvdata') and any(len(x[6]) > 3 for x in lyrs(M)):
        raise Prune()
    if ko in ('vdata', 'vvdata') and any(x[6][2] not in (None, 'single') or ' ' in x[6][1] or x[6][1][0] in '!*' for x in lyrs(M)):
        raise Prune()
    if ko in ('silbe', 'vdata', 'vvdata'):
        M.setdefault('kopt', {})['textkind'] = ko
    elif ko == 'dyn':
        M['dyn'].append({'s': ns - 1, 'm': 0, 'off': '0', 't': 'p'})
    elif ko == 'cs':
        M['cs'].append({'s': 0, 'm': 0, 'off': '0', 'harte': 'C:maj', 'root': 'C', 'kind': 'major', 'print': 'C', 'm21reg': 'C', 'mxhm': 'C major'})
    if c.flag('plainlyr'):
        for p in places:
            S.events(M, *p[:3])[p[3]][2]['plainlyr'] = True
    return M


def lyrs(M):
    for s, st in enumerate(M['v']):
        for m, ms in enumerate(st):
            for v, vs in enumerate(ms):
                for j, (t, g, e) in enumerate(S.events(M, s, m, v)):
                    for ly in e.get('lyr', []):
                        yield s, m, v, t, g, e, ly


def ok(r, M):
    if uses_kern(r):
        for s, m, v, t, g, e, ly in lyrs(M):
            # a **text spine belongs to the staff: its syllables go to the first voice that sounds a new or tied note
            for v2 in range(v):
                for t2, g2, e2 in S.events(M, s, m, v2):
                    if t2 == t and g2 == g and e2['k'] in 'nc':
                        return False
    return True


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS + CHAINS


run, traces_of = F.make(CATS, plan, ok=ok)
show = F.show


def cases(tier, stats):
    full = 2 if tier == 'quick' else 3
    seen = set()
    spaces = [(driver, 1, None), (driver, 2, 5)] if tier == 'quick' else [(driver, 2, None), (driver, 3, 4)]
    for d, b, tr in spaces:
        for k, M in F.enum(stats, d, b, seen=seen, trim=tr):
            M['full'] = full
            yield k, M
