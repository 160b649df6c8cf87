"""C16: ottavas and transposing instruments"""
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F
import routes
from facts import facts

PROP = 'C16'
BOUND = {'quick': 'every score with at most 1 deviation from the base scores over the full vocabulary (all 13 routes), at '
                  'most 2 over four options per choice (imports, exports, chains)',
         'thorough': 'at most 2 deviations over the full vocabulary (all routes), at most 3 over four options per choice'}
ASSUME = ['an ottava applies to every note of its staff that starts within it; Humdrum pitches are sounding pitches, MEI @oct '
          'is the written octave; 22da/22db only in MEI (Humdrum has no token for them)',
          'parts whose atSoundingPitch is unknown are not asserted']
CATS = ['core', 'pitches', 'keys', 'ties']
TYPES = ['8va', '8vb', '15ma', '15mb', '22da', '22db']
# written -> sounding (steps, semitones): B flat, E flat alto, F horn, piccolo, double bass, A, E flat soprano, baritone sax, ...
TRANS = [None, (-1, -2), (-5, -9), (-4, -7), (7, 12), (-7, -12), (-2, -3), (2, 3), (-12, -21), (-8, -14), (1, 2), (3, 5), (-14, -24),
         (-3, -5), (4, 7), (-1, -1), (1, 1), (-6, -10), (-3, -6), (0, 1), (-5, -8), (14, 24)]
RANGES = [((0, '1'), (0, '3')), ((0, '0'), (0, '4')), ((0, '0'), (0, '1')), ((0, '2'), (1, '2')), ((0, '3'), (0, '4')),
          ((1, '0'), (1, '4')), ((0, '0'), (2, '4')), ((1, '2'), (2, '0')), ((2, '3'), (2, '4')), ((1, '0'), (1, '2')),
          ((0, '2'), (2, '1')), ((0, '0'), (1, '4'))]


def driver(c):
    ns, parts = c.choose('struct', STRUCTS)
    M = S.base(ns, 3, '4/4', parts)
    F.fillall(M, 1)
    what = c.choose('what', ['ott', 'trans', 'both'])
    M['key'] = [c.choose('key', [0, 2, -3, 5, -5])] * ns
    ev = M['v'][0]
    nm = c.choose('name', [None, 'Clarinet', 'Horn in F', 'Piccolo', 'Contrabass', 'Violin', 'Clarinet in A', 'Some Thing', 'Alto Saxophone'])
    if nm:
        M['iname'] = [nm] + [''] * (ns - 1)
    p0 = c.choose('p', [None, 'F#5', 'B-4', 'C4', 'E-5', 'C#6', 'G3', 'B#4', 'F-4'])
    if p0:
        ev[0][0][1]['p'] = [p0]
    two = c.choose('two', [None, 'half', 'quarter', 'late', 'whole', 'all', 'early'])
    if two == 'half':
        ev[0].append([N('2', 'E4'), N('2', 'F4')])
    elif two == 'quarter':
        ev[0].append(F.notes(0, 0, 1, 4))
    elif two == 'late':
        ev[0].append([S.S('2'), N('2', 'F4')])
    elif two == 'early':
        ev[0].append([N('2', 'F4'), S.S('2')])
    elif two == 'whole':
        ev[0].append([N('1', 'F4')])
    elif two == 'all':
        for m in range(3):
            ev[m].append([N('2', 'E4'), N('2', 'F4')])
    kind = c.choose('kind', [None, 'chord', 'grace0', 'grace1', 'gracemid', 'graceafter', 'rest', 'rest0', 'restlast', 'tie', 'eighths', 'tuplet', 'chord0', 'hiddenrest'])
    if kind == 'chord':
        ev[0][0][2] = Ch('4', ['D5', 'F#5'])
    elif kind == 'chord0':
        ev[0][0][1] = Ch('4', ['E-5', 'G5', 'B-5'])
    elif kind == 'rest':
        ev[0][0][2] = R('4')
    elif kind == 'rest0':
        ev[0][0][0] = R('4')
    elif kind == 'restlast':
        ev[0][0][3] = R('4')
    elif kind == 'hiddenrest':
        ev[0][0][2] = S.S('4')
    elif kind == 'tie':
        for m in range(2):
            ev[m][0][3]['p'] = ev[m + 1][0][0]['p'] = ['G5']
            ev[m][0][3]['tie'], ev[m + 1][0][0]['tie'] = 's', 'e'
    elif kind == 'eighths':
        ev[0][0] = F.notes(0, 0, 0, 4, Fraction(1, 2))
    elif kind == 'tuplet':
        ev[0][0][1:2] = [N('8', p, tup=[3, 2]) for p in ('C5', 'D5', 'E5')]
    if what in ('ott', 'both'):
        n = c.choose('n', [1, 2])
        for k in range(n):
            a, b = c.choose(f'r{k}', RANGES)
            x = {'s': c.choose(f's{k}', list(range(ns))), 'm': a[0], 'off': a[1], 'm2': b[0], 'off2': b[1],
                 't': c.choose(f't{k}', TYPES)}
            M['ott'].append(x)
        if n == 2:
            second = c.choose('second', ['next', 'other staff', 'gap'])
            y, x = M['ott'][1], M['ott'][0]
            if second == 'other staff':
                if ns < 2:
                    raise Prune()
                y['s'] = 1 - x['s']
            elif second == 'next':
                y['s'] = x['s']
                y['m'], y['off'] = x['m2'], x['off2']
                if y['off'] == '4':
                    y['m'], y['off'] = y['m'] + 1, '0'
                y['m2'], y['off2'] = 2, '4'
            else:
                y['s'] = x['s']
                y.update({'m': 2, 'off': '1', 'm2': 2, 'off2': '3'})
            if y['m'] > 2 or (y['s'] == x['s'] and (x['m2'], x['off2']) > (y['m'], y['off'])):
                raise Prune()
    if what in ('trans', 'both'):
        tr = c.choose('tr', [x for x in TRANS if x])
        on = c.choose('on', ['0', '1', 'both'])
        M['trans'] = {}
        for s in ([0] if on == '0' else [1] if on == '1' else [0, 1]):
            if s >= ns:
                raise Prune()
            M['trans'][str(s)] = list(tr)
        if on == 'both':
            M['trans']['1'] = list(c.choose('tr1', [(-4, -7), (7, 12), (-1, -2)]))
        if c.choose('keychange', [False, True]):
            M['sigs'].append({'s': None, 'm': 1, 'off': '0', 'key': c.choose('newkey', [1, -2, 4])})
        for s in range(ns):
            for k in [M['key'][s]] + [x['key'] for x in M['sigs']]:
                if not -7 <= S.sounding_key(M, s, k) <= 7:
                    raise Prune()
        for s in range(ns):
            for m in range(3):
                for v in M['v'][s][m]:
                    for e in v:
                        for p in e['p']:
                            if any(len(a) > 3 for a in [S.sounding(M, s, m, 0, p)[1:-1]]):
                                raise Prune()
    # a region starts where a note of its staff starts and ends where one starts or at the end of a measure
    for x in M['ott']:
        for m, off in ((x['m'], x['off']), (x['m2'], x['off2'])):
            t = Fraction(off)
            if t < 4 and not any(t == tt for v in range(S.nvoices(M, x['s'], m)) for tt, g, e in S.events(M, x['s'], m, v) if e['k'] != 's'):
                raise Prune()
        refs = S.ott_refs(M, x)
        if not refs:
            raise Prune()
        # nothing sounds on over the end of the ottava
        if any((r[1][0], r[1][1]) > (x['m2'], Fraction(x['off2'])) for r in refs):
            raise Prune()
        for q in range(3):
            for v in range(S.nvoices(M, x['s'], q)):
                for t, g, e in S.events(M, x['s'], q, v):
                    if (q, t) < (x['m'], Fraction(x['off'])) < (q, t + S.ql(e)) and e['k'] in 'nc':
                        raise Prune()
        for t, g, e in S.events(M, x['s'], x['m'], 0):
            if t == Fraction(x['off']) and e['k'] in 'rs':
                x['restedge'] = True
    # graces
    if kind in ('grace0', 'grace1', 'gracemid', 'graceafter'):
        if not M['ott']:
            ev[0][0].insert(1, N('8', 'D5', g='q'))
        else:
            x = M['ott'][0]
            if x['s'] != 0:
                raise Prune()
            m, off = {'grace0': (x['m'], x['off']), 'grace1': (x['m'], x['off']), 'gracemid': (x['m'], Fraction(x['off']) + 1),
                      'graceafter': (x['m2'], x['off2'])}[kind]
            js = [j for j, (t, g, e) in enumerate(S.events(M, 0, m, 0)) if t == Fraction(off)]
            if not js:
                raise Prune()
            ev[m][0].insert(js[0], N('8', 'D5', g='q'))
            if kind == 'grace1':
                ev[m][0].insert(js[0], N('16', 'E5', g='q'))
    # forms
    for k, x in enumerate(M['ott']):
        x['mids'] = c.choose(f'mids{k}', ['se', '', 's', 'e'])
        x['kv'] = c.choose(f'kv{k}', ['all', 'first', 'last'])
        x['kend'] = c.choose(f'kend{k}', ['before', 'after'])
        x['khead'] = c.choose(f'khead{k}', [False, True])
        x['mnostaff'] = c.choose(f'mnost{k}', [False, True]) if 's' in x['mids'] else False
    M['mopt'] = {'octges': c.choose('octges', [False, True])}
    M['bopt'] = {'nontrans': c.choose('nontrans', [False, True]) if M['ott'] else False,
                 'ends': c.choose('ends', [False, True]) if M['ott'] else False,
                 'sounding': c.choose('sounding', [False, True]) if M.get('trans') else False}
    if M['bopt']['sounding'] and M['ott'] and not M['bopt']['nontrans']:
        raise Prune()      # music21 takes ottavas to sounding pitch together with the part
    return M


def cases(tier, stats):
    seen = set()
    q = tier == 'quick'
    yield from F.enum(stats, driver, 1 if q else 2, seen=seen)
    yield from F.enum(stats, driver, 2 if q else 3, seen=seen, trim=14 if q else 4)


def plan(M):
    if M.get('dev', 0) < 2:
        return ALL
    return IMPORTS + EXPORTS + CHAINS


def ok(r, M):
    if any(x['t'].startswith('22') for x in M['ott']) and uses_kern(r):
        return False
    if M['bopt']['ends'] and uses_kern_in(r) and False:
        return False
    return True


def run(M):
    plain = dict(M, bopt={})
    exp = facts(S.build(plain), CATS)
    return routes.check_model(M, CATS, [r for r in plan(M) if ok(r, M)], expect=exp)


def traces_of(M):
    return len([r for r in plan(M) if ok(r, M)])


show = F.show
