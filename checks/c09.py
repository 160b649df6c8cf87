"""C09: ties and slurs"""
import re
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C09'
BOUND = {'quick': 'every score with at most 2 deviations from the base score over slur pairs, tie chains, chords, grace notes, second voices, placements and encodings (all routes up to 1 deviation, imports and exports at 2)',
         'thorough': 'at most 3 deviations'}
CATS = ['core', 'ties', 'tieplace', 'slurs']


def flat(M, s, v):
    out = []
    for m in range(len(M['meas'])):
        if v < S.nvoices(M, s, m):
            for j, (t, g, e) in enumerate(S.events(M, s, m, v)):
                out.append(((s, m, v, j), t, g, e))
    return out


def driver(c):
    ns, parts = c.choose('struct', [STRUCTS[0], STRUCTS[1], STRUCTS[2]])
    nm = c.choose('nmeas', [2, 1, 3])
    M = S.base(ns, nm, '3/4', parts)
    unit = c.choose('unit', [1, Fraction(1, 2), 3])
    F.fillall(M, unit)
    for s in range(ns):
        for m in range(nm):
            if c.flag(f'two{s}.{m}'):
                M['v'][s][m].append(F.notes(s, m, 1, 3, c.choose(f'unit2{s}.{m}', [1, 3, Fraction(1, 2)])))
    # chords, rests, grace notes in the first voice
    fl = flat(M, 0, 0)
    for (s, m, v, j), t, g, e in fl:
        k = c.choose(f'kind{m}.{j}', ['n', 'c', 'r'])
        if k == 'c':
            e['k'] = 'c'
            e['p'] = [e['p'][0], up(e['p'][0], 2), up(e['p'][0], 4)]
        elif k == 'r':
            e['k'] = 'r'
            e['p'] = []
    gr = c.choose('grace', [None] + [(m, j) for (s, m, v, j), *_ in fl])
    if gr:
        m, j = gr
        kind = c.choose('gracekind', ['q', 'qq', 'two', 'chord'])
        main = M['v'][0][m][0][j]
        ins = [S.N('8', 'B5', g='qq' if kind == 'qq' else 'q')]
        if kind == 'two':
            ins.append(S.N('8', 'A5', g='q'))
        if kind == 'chord':
            ins = [S.Ch('8', ['B5', 'D6'], g='q')]
        if c.flag('gracetie'):
            if main['k'] != 'n':
                raise Prune()
            ins[-1]['k'], ins[-1]['p'] = 'n', list(main['p'])
            ins[-1]['tie'] = 's'
            main['tie'] = 'e'
        M['v'][0][m][0][j:j] = ins
    # ties: a chain of 2..4 notes starting at some note of some voice
    voices = [(0, 0)] + ([(0, 1)] if any(len(x) > 1 for x in M['v'][0]) else []) + ([(1, 0)] if ns > 1 else [])
    for q in range(2):
        opts = [None]
        for s, v in voices:
            f = [x for x in flat(M, s, v)]
            for i in range(len(f) - 1):
                opts.append((s, v, i))
        ch = c.choose(f'tie{q}', opts)
        if ch:
            s, v, i = ch
            f = flat(M, s, v)
            n = c.choose(f'tielen{q}', [2, 3, 4], cost=0)
            if i + n > len(f) or any(contiguous(f[i + k], f[i + k + 1]) is False for k in range(n - 1)):
                raise Prune()
            evs = [x[3] for x in f[i:i + n]]
            if any(e['k'] in 'rs' or e.get('g') or e.get('tie') for e in evs):
                raise Prune()
            mode = c.choose(f'tiemode{q}', ['all', 'one', 'two', 'last'], cost=0)
            ps = evs[0]['p']
            for k, e in enumerate(evs):
                if len(ps) == 1:
                    if mode != 'all':
                        raise Prune()
                    if e['k'] == 'c':
                        e['p'][0] = ps[0]
                        e['p'] = [ps[0]] + [up(ps[0], 2), up(ps[0], 4)][:len(e['p']) - 1]
                    else:
                        e['p'] = list(ps)
                else:
                    e['k'] = 'c'
                    e['p'] = list(ps)
                    if mode == 'last' and k == len(evs) - 1:      # chord into a single note
                        e['k'], e['p'] = 'n', ps[1:2]
                t = 's' if k == 0 else 'e' if k == n - 1 else 'c'
                if len(e['p']) == 1:
                    e['tie'] = t
                elif len(ps) == 1:
                    e['tie'] = [t] + [None] * (len(e['p']) - 1)
                else:
                    idx = {'all': [0, 1, 2], 'one': [0], 'two': [1, 2], 'last': [1]}[mode]
                    e['tie'] = [t if x in idx else None for x in range(len(e['p']))]
            st = c.choose(f'tiestyle{q}', [None, 'above', 'below', 'dotted', 'dashed', 'hidden'])
            if st:
                evs[0]['tiestyle'] = st
    # slurs
    for q in range(2):
        opts = [None]
        for s, v in voices:
            f = flat(M, s, v)
            for a in range(len(f)):
                for b in range(a + 1, len(f)):
                    opts.append((f[a][0], f[b][0]))
        sl = c.choose(f'slur{q}', opts)
        if sl:
            a, b = sl
            if any(event(M, x)['k'] == 'r' for x in sl):
                raise Prune()       # the slurs of the property join notes
            pl = c.choose(f'place{q}', [None, 'above', 'below'], cost=0)
            M['slurs'].append({'a': list(a), 'b': list(b), 'place': pl})
    if len(M['slurs']) == 2:
        x, y = M['slurs']
        if (x['a'], x['b']) == (y['a'], y['b']):
            raise Prune()
        if [x['a'], x['b']] > [y['a'], y['b']]:
            raise Prune()      # the order of the slurs in the list does not matter
        if samevoice(x['a'], y['a']) and S_lt(x['a'], y['a']) and S_lt(y['a'], x['b']) and S_lt(x['b'], y['b']):
            M['cross'] = True
            y['elide'] = 1
    cross = c.choose('crossslur', [None, 'staff', 'voice', 'chordnote'])
    if cross == 'staff':
        if ns < 2 or len(M['v'][1][0][0]) < 2 or any(event(M, x)['k'] == 'r' for x in ((0, 0, 0, 0), (1, 0, 0, 1))):
            raise Prune()
        M['slurs'].append({'a': [0, 0, 0, 0], 'b': [1, 0, 0, 1], 'place': None})
        M['xstaff'] = True
    elif cross == 'voice':
        if S.nvoices(M, 0, 0) < 2 or event(M, (0, 0, 0, 0))['k'] == 'r':
            raise Prune()
        M['slurs'].append({'a': [0, 0, 0, 0], 'b': [0, 0, 1, len(M['v'][0][0][1]) - 1], 'place': None})
        M['xvoice'] = True
    elif cross == 'chordnote':
        raise Prune()
    mo = c.choose('m.tie', [None, 'elem'])
    if mo:
        M['meiopt'] = {'tie': 'elem'}
    ms = c.choose('m.slur', [None, 'attr'])
    if ms:
        if len({str(x['place']) for x in M['slurs']}) > 1 or any(x['place'] for x in M['slurs']):
            raise Prune()
        M.setdefault('meiopt', {})['slur'] = 'attr'
    return M


def event(M, ref):
    return S.events(M, *ref[:3])[ref[3]][2]


def contiguous(x, y):
    return True if not (x[3].get('g') or y[3].get('g')) else False


def samevoice(a, b):
    return a[0] == b[0] and a[2] == b[2]


def S_lt(a, b):
    return (a[1], a[3]) < (b[1], b[3])


def up(p, k):
    i = 'CDEFGAB'.index(p[0]) + k
    return 'CDEFGAB'[i % 7] + str(int(p[-1]) + i // 7)


def ok(r, M):
    if uses_mei(r) and any(e.get('tiestyle') == 'hidden' for p in M['v'] for m in p for v in m for e in v):
        return False        # an invisible tie is left out of MEI on purpose
    if M.get('xstaff') and uses_kern(r):
        return False        # a slur across staves needs linked signifiers, which the Humdrum writer does not use
    return True


def norm(r, f, M):
    f = dict(f)
    if uses_mei(r):
        f['tieplace'] = []      # MEI import keeps no tie placement or line style
    return f


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS


run, traces_of = F.make(CATS, plan, norm=norm, ok=ok)
show = F.show


def tags(M):
    t = ',cross' if M.get('cross') else ''
    pl = {}
    for x in M['slurs']:
        pl.setdefault(tuple(x['a']), set()).add(x['place'])
    if any(len(x) > 1 for x in pl.values()):
        t += ',samestart'
    return t


def cases(tier, stats):
    q = tier == 'quick'
    seen = set()
    for k, M in F.enum(stats, driver, 2 if q else 3, seen=seen):
        M['full'] = 2
        yield k + tags(M), M
    for k, M in F.enum(stats, driver, 3 if q else 4, trim=3 if q else 4, seen=seen):
        M['full'] = 2
        yield k + tags(M), M
