"""C10: articulations, ornaments, fermatas, arpeggios, breath marks"""
import music21 as m21
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C10'
BOUND = {'quick': 'every mark (articulation, ornament with each neighbour pitch, fermata, arpeggio, trill extension) on every note of a 2-measure score with at most 2 deviations from the base score (second mark, key, chord/grace/rest, voices, staves, placement, encoding)',
         'thorough': 'at most 3 deviations'}
CATS = ['core', 'arts', 'exprs', 'exprplace', 'trillext']
BOTH = ['Staccato', 'Tenuto', 'Accent', 'StrongAccent', 'Staccatissimo', 'UpBow', 'DownBow', 'Harmonic']
KONLY = ['Pizzicato', 'BreathMark']
MONLY = ['Spiccato', 'Doit', 'Plop', 'Falloff', 'SnapPizzicato', 'Stopped', 'OpenString', 'DoubleTongue', 'TripleTongue',
         'OrganToe', 'OrganHeel']
ACCNAME = {-2: 'double-flat', -1: 'flat', 0: 'natural', 1: 'sharp', 2: 'double-sharp'}
MEIACC = {-2: 'ff', -1: 'f', 0: 'n', 1: 's', 2: 'ss'}
KACC = {-2: '--', -1: '-', 0: 'n', 1: '#', 2: '##'}
ALT = {'': 0, '#': 1, '-': -1, '##': 2, '--': -2}
ORNS = ['Trill', 'InvertedMordent', 'Mordent', 'Turn', 'InvertedTurn', 'DTurn', 'DInvertedTurn']


def semis(p):
    st, a, o = S.splitp(p)
    return {'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}[st] + ALT[a] + 12 * o


def keyalt(step, k):
    if k > 0:
        return 1 if step.lower() in S.SHARPS[:k] else 0
    return -1 if step.lower() in S.FLATS[:-k] else 0


def neighbour(p, d, alt, key):
    """the step above/below p; alt None: as in the key. -> (name, alteration, shown)"""
    st, a, o = S.splitp(p)
    i = 'CDEFGAB'.index(st) + d
    st2, o2 = 'CDEFGAB'[i % 7], o + i // 7
    ka = keyalt(st2, key)
    al = ka if alt is None else alt
    nm = st2 + {0: '', 1: '#', -1: '-', 2: '##', -2: '--'}[al] + str(o2)
    if not 1 <= (semis(nm) - semis(p)) * d <= 3:
        raise Prune()
    return nm, al, al != ka


def orn(M, e, kind, alts, key, place, enc):
    """put an ornament on event e, in all three renderings"""
    p = e['p'][0]
    ups = [(1, alts[0])] if kind in ('Trill', 'InvertedMordent') else [(-1, alts[0])] if kind == 'Mordent' else [(1, alts[0]), (-1, alts[1])]
    nb = [neighbour(p, d, a, key) for d, a in ups]
    sem = [abs(semis(n[0]) - semis(p)) for n in nb]
    if enc != 'lo' and any(x > 2 for x in sem):
        raise Prune()       # an augmented second needs the accidental in a layout parameter
    pl = {'above': '>', 'below': '<', None: ''}[place]
    ch = lambda big, small, x: small if x == 1 else big
    tag = {'Trill': 'TR', 'InvertedMordent': 'MOR', 'Mordent': 'MOR'}.get(kind, 'TURN')
    if kind == 'Trill':
        k = ch('T', 't', sem[0])
    elif kind == 'InvertedMordent':
        k = ch('M', 'm', sem[0])
    elif kind == 'Mordent':
        k = ch('W', 'w', sem[0])
    else:
        k = {'Turn': 'sS', 'DTurn': 'S', 'InvertedTurn': 's$', 'DInvertedTurn': '$'}[kind]
        if enc != 'bare':
            # in playing order: upper first in a turn, lower first in an inverted turn
            x, y = (sem[1], sem[0]) if 'Inv' in kind else sem
            k += ch('S', 's', x) + ch('S', 's', y)
        elif any(n[2] for n in nb):
            raise Prune()
    e.setdefault('kx', []).append(k + pl)
    if enc == 'lo':
        los = []
        for n, nm in zip(nb, ('acc',) if len(nb) == 1 else ('uacc', 'lacc')):
            if n[2]:
                los.append(f'!LO:{tag}:{nm}={KACC[n[1]]}')
        if not los:
            raise Prune()
        e.setdefault('klo', []).extend(los)
    at = {'startid': '@ID', 'staff': '@STAFF', 'place': place}
    if enc == 'tstamp':
        at = {'tstamp': '@TSTAMP', 'staff': '@STAFF', 'place': place}
    if enc == 'between':
        if not kind.startswith('D'):
            raise Prune()
        at = {'tstamp': '@TSTAMP+', 'staff': '@STAFF', 'place': place}
    el = {'Trill': 'trill', 'InvertedMordent': 'mordent', 'Mordent': 'mordent'}.get(kind, 'turn')
    if el == 'mordent' and not (enc == 'noform' and nb[0][2]):
        at['form'] = 'upper' if kind == 'InvertedMordent' else 'lower'
    if el == 'turn':
        if enc == 'noform':
            if 'Inv' in kind:
                at['type'] = 'slashed'
        else:
            at['form'] = 'lower' if 'Inv' in kind else 'upper'
        if kind.startswith('D'):
            at['delayed'] = 'true'
    for n, (d, _) in zip(nb, ups):
        if n[2]:
            at['accidupper' if d > 0 else 'accidlower'] = MEIACC[n[1]]
    e.setdefault('mctl', []).append(f'<{el}{S.attrs(at)}/>')
    e.setdefault('mfn', []).append(['orn', kind, [[n[0], n[1], n[2]] for n in nb], place, key])
    if place is None:
        M['noplace'] = True


def fn_orn(x, kind, nb, place, key):
    delay = m21.common.enums.OrnamentDelay
    accs = []
    for nm, al, shown in nb:
        a = m21.pitch.Accidental(ACCNAME[al]) if shown else None
        if a is not None:
            a.displayStatus = True
        accs.append(a)
    if len(nb) == 1:
        o = getattr(m21.expressions, kind)(accidental=accs[0])
    else:
        d = kind.startswith('D')
        o = getattr(m21.expressions, kind[1:] if d else kind)(
            delay=delay.DEFAULT_DELAY if d else delay.NO_DELAY, upperAccidental=accs[0], lowerAccidental=accs[1])
    o.placement = place
    o.resolveOrnamentalPitches(x, keySig=m21.key.KeySignature(key))
    x.expressions.append(o)


def fn_ferm(x, typ, shape):
    f = m21.expressions.Fermata()
    f.type = typ
    f.shape = shape
    x.expressions.append(f)


def fn_arp(x, typ):
    x.expressions.append(m21.expressions.ArpeggioMark(arpeggioType=typ))


S.FN.update(orn=fn_orn, ferm=fn_ferm, arp=fn_arp)


def at_ref(M, ref):
    s, m, v, j = ref
    return S.events(M, s, m, v)[j][2]


def busy(e):
    return e.get('mfn') or e.get('busy')


def mark(c, M, q, key, refs, ns):
    """one mark on one of the events refs"""
    menu = [None] + [('art', x) for x in BOTH + KONLY + MONLY] + [('orn', x) for x in ORNS] + \
        [('ferm', x) for x in ('upright', 'inverted', 'both', 'square', 'angled', 'attr', 'tstamp', 'tstampinv')] + \
        [('arp', x) for x in ('normal', 'up', 'down', 'non-arpeggio', 'tstamp', 'upnoarrow', 'voices', 'staves')] + \
        [('trext', x) for x in (0, 1, 2, 3)] + [('hid', x) for x in ("'y", '^y', '~>y')] + [('alt', x) for x in ("''", 'marc-stacc', 'ten-stacc', 'twochild')] + \
        [('barferm', x) for x in (';', ';<')]
    ch = c.choose(f'mark{q}', menu)
    if ch is None:
        return False
    what, arg = ch
    if what == 'barferm':
        m = c.choose(f'bar{q}', [0, 1], cost=0)
        M['meas'][m]['barferm'] = arg
        M['rdf'] = True
        return True
    ref = c.choose(f'at{q}', refs, cost=0)
    e = at_ref(M, ref)
    s0, m0, v0, j0 = ref
    aftergrace = not e.get('g') and any(x.get('g') for w in M['v'][s0][m0] for x in w)
    if what == 'art':
        if e['k'] in 'rs':
            raise Prune()
        pl = c.choose(f'pl{q}', [None, 'above', 'below'], cost=0)
        if arg in [x if isinstance(x, str) else x[0] for x in e.get('art', [])]:
            raise Prune()
        e.setdefault('art', []).append([arg, pl] if pl else arg)
        if pl:
            M['rdf'] = True
        if arg in KONLY:
            M['meiskip'] = True
        if arg in MONLY:
            M['kernskip'] = True
    elif what == 'orn':
        if e['k'] != 'n' or e.get('g') or busy(e):
            raise Prune()
        if busy(e):
            raise Prune()
        alts = [c.choose(f'up{q}', [None, -1, 1, 0], cost=0)]
        if 'Turn' in arg:
            alts.append(c.choose(f'lo{q}', [None, -1, 1, 0], cost=0))
        pl = c.choose(f'pl{q}', [None, 'above', 'below'])
        enc = c.choose(f'enc{q}', ['', 'lo', 'tstamp', 'between', 'noform', 'bare'])
        if alts[0] == keyalt_of(e, 1 if arg != 'Mordent' else -1, key) or (len(alts) > 1 and alts[1] == keyalt_of(e, -1, key)):
            raise Prune()       # same as None
        if enc in ('tstamp', 'between') and aftergrace:
            raise Prune()
        orn(M, e, arg, alts, key, pl, enc)
        if pl:
            M['rdf'] = True
        if arg in ('Mordent', 'InvertedMordent') and pl is None:
            M['anyplace'] = True
    elif what == 'ferm':
        if e.get('g') or busy(e):
            raise Prune()
        typ = 'inverted' if arg in ('inverted', 'tstampinv') else 'upright'
        shape = arg if arg in ('square', 'angled') else 'normal'
        e.setdefault('kx', []).append(';<' if typ == 'inverted' else ';;' if arg == 'both' else ';')
        if typ == 'inverted':
            M['rdf'] = True
        if shape != 'normal':
            M['kernskip'] = True
        if arg == 'both':
            M['meiskip'] = True
        at = {'place': 'below' if typ == 'inverted' else 'above',
              'shape': {'square': 'square', 'angled': 'angular'}.get(shape)}
        if arg == 'attr':
            e['mat'] = {'fermata': 'above'}
        else:
            at['startid' if not arg.startswith('tstamp') else 'tstamp'] = '@ID' if not arg.startswith('tstamp') else '@TSTAMP'
            at['staff'] = '@STAFF'
            if arg.startswith('tstamp') and ref[2] > 0:
                raise Prune()
            if arg.startswith('tstamp') and aftergrace:
                raise Prune()       # (the time stamp is the grace note's as well)
            e.setdefault('mctl', []).append(f'<fermata{S.attrs(at)}/>')
        e.setdefault('mfn', []).append(['ferm', typ, shape])
        if arg == 'both':
            e['mfn'].append(['ferm', 'inverted', 'normal'])
    elif what == 'arp':
        if e['k'] in 'rs' or e.get('g') or busy(e):
            raise Prune()
        if arg in ('voices', 'staves'):
            s, m, v, j = ref
            r2 = (s, m, 1, 0) if arg == 'voices' else (1, m, 0, 0)
            if v != 0 or s != 0 or j != 0 or (arg == 'voices' and S.nvoices(M, s, m) < 2) or (arg == 'staves' and ns < 2):
                raise Prune()
            e2 = at_ref(M, r2)
            if e2['k'] in 'rs' or e2.get('g') or busy(e2) or (arg == 'staves' and S.nvoices(M, 0, m) > 1):
                raise Prune()
            for x in (e, e2):
                x.setdefault('kx', []).append(':' if arg == 'voices' else '::')
                x['busy'] = True
            M.setdefault('mspan', []).append({'mod': 'expressions', 'cls': 'ArpeggioMarkSpanner', 'args': ['normal'],
                                              'els': [list(ref), list(r2)]})
            M.setdefault('mctl', []).append({'m': m, 'xml': '<arpeg plist="#%s #%s"/>' % tuple(
                'e' + '-'.join(map(str, r)) for r in (ref, r2))})
        else:
            e.setdefault('kx', []).append(':')
            typ = {'tstamp': 'normal', 'upnoarrow': 'normal'}.get(arg, arg)
            at = {'startid': '@ID', 'staff': '@STAFF'}
            if arg == 'tstamp':
                if ref[2] > 0 or aftergrace:
                    raise Prune()
                at = {'tstamp': '@TSTAMP', 'staff': '@STAFF'}
            if arg == 'upnoarrow':
                at['order'] = 'up'
            if arg in ('up', 'down'):
                at.update(arrow='true', order=arg)
            if arg == 'non-arpeggio':
                at.update(order='nonarp')
            if arg in ('up', 'down', 'non-arpeggio'):
                M['kernskip'] = True
            e.setdefault('mctl', []).append(f'<arpeg{S.attrs(at)}/>')
            e.setdefault('mfn', []).append(['arp', typ])
    elif what == 'trext':
        if e['k'] != 'n' or e.get('g') or busy(e):
            raise Prune()
        s, m, v, j = ref
        seq = []
        for mm in range(len(M['meas'])):
            if v < S.nvoices(M, s, mm):
                seq += [((s, mm, v, jj), x) for jj, (t, g, x) in enumerate(S.events(M, s, mm, v))]
        seq = [(r, x) for r, x in seq if (r[1], r[3]) >= (m, j)]
        if arg and seq[1:arg + 1] and any(x.get('g') for r, x in seq[1:arg + 1]):
            arg += sum(bool(x.get('g')) for r, x in seq[1:arg + 2])
        if len(seq) <= arg or seq[arg][1].get('g') or any(x['k'] in 'rs' for r, x in seq[:arg + 1]):
            raise Prune()
        orn(M, e, 'Trill', [None], key, None, '')
        e['mctl'].pop()
        e['kx'][-1] = e['kx'][-1][0] * 2
        for r, x in seq[1:arg + 1]:
            if x.get('g'):
                continue
            if busy(x):
                raise Prune()
            x.setdefault('kx', []).append(e['kx'][-1][0] * 3)
            x['busy'] = True
        last = seq[arg][0]
        if arg > 1:
            M['long'] = True
        enc = c.choose(f'tenc{q}', ['ids', 'tstart', 'tboth'])
        if enc == 'ids':
            at = {'startid': '@ID', 'endid': '#e' + '-'.join(map(str, last)), 'staff': '@STAFF'}
        else:
            if v > 0 or aftergrace:
                raise Prune()
            at = {'tstamp': '@TSTAMP', 'endid': '#e' + '-'.join(map(str, last)), 'staff': '@STAFF'}
        if enc == 'tboth':
            del at['endid']
            s, m1, v, j1 = last
            at['tstamp2'] = f"{m1 - m}m+{S.fdec(S.events(M, s, m1, v)[j1][0] + 1)}"
        e['mctl'].append(f'<trill{S.attrs(at)}/>')
        M.setdefault('mspan', []).append({'mod': 'expressions', 'cls': 'TrillExtension', 'els': [list(ref), list(last)] if arg else [list(ref)],
                                          'place': None})
    elif what == 'hid':
        if e['k'] in 'rs':
            raise Prune()
        e.setdefault('kx', []).append(arg)
        M['rdf'] = True
        M['only'] = ['humdrum-import']
    elif what == 'alt':
        if e['k'] in 'rs' or e.get('art'):
            raise Prune()
        if arg == "''":
            e['art'] = ['Staccatissimo']
            e['kart'] = "''"
            M['only'] = ['humdrum-import', 'humdrum-mei', 'humdrum-humdrum']
        else:
            e['art'] = {'marc-stacc': ['StrongAccent', 'Staccato'], 'ten-stacc': ['Tenuto', 'Staccato'], 'twochild': ['Tenuto', 'Accent']}[arg]
            if arg == 'twochild':
                e['mart'] = '<artic artic="ten acc"/>'
            else:
                e['mart'] = f'<artic artic="{arg}"/>'
            M['only'] = ['mei-import', 'mei-humdrum', 'mei-mei']
    return True


def keyalt_of(e, d, key):
    st, a, o = S.splitp(e['p'][0])
    return keyalt('CDEFGAB'[('CDEFGAB'.index(st) + d) % 7], key)


def driver(c):
    ns, parts = c.choose('struct', [STRUCTS[0], STRUCTS[1], STRUCTS[2]])
    M = S.base(ns, 2, '3/4', parts)
    F.fillall(M, c.choose('unit', [1, Fraction(1, 2), 3]))
    key = c.choose('key', [0, 2, -3, 7])
    M['key'] = [key] * ns
    refs = []
    for s in range(ns):
        for m in range(2):
            if c.flag(f'two{s}.{m}'):
                M['v'][s][m].append(F.notes(s, m, 1, 3, 1))
    for s in range(ns):
        for m in range(2):
            for v in range(S.nvoices(M, s, m)):
                refs += [(s, m, v, j) for j in range(len(M['v'][s][m][v]))]
    for s, m, v, j in refs:
        if s == 0 and v == 0:
            k = c.choose(f'kind{m}.{j}', ['n', 'c', 'r', 'g', 'acc'])
            e = M['v'][0][m][0][j]
            if k == 'c':
                e['k'], e['p'] = 'c', [e['p'][0], up(e['p'][0], 2), up(e['p'][0], 4)]
            elif k == 'r':
                e['k'], e['p'] = 'r', []
            elif k == 'acc':
                e['p'] = [e['p'][0][0] + '#' + e['p'][0][1:]]
            elif k == 'g':
                M['v'][0][m][0].insert(j, S.N('8', 'B5', g='q'))
                M['grace'] = True
                refs = [(a, b, cc, d) for a, b, cc, d in refs] + [(0, m, 0, len(M['v'][0][m][0]) - 1)]
                break
    any_ = False
    if c.flag('startrep'):
        M['meas'][1]['left'] = 'start'
        if ns > 1:
            raise Prune()
    for q in range(2):
        any_ = mark(c, M, q, key, refs, ns) or any_
    if M.get('mspan') and any(any(f[0] == 'orn' for f in e.get('mfn', [])) for p in M['v'] for mm in p for v in mm for e in v):
        pass
    if c.flag('artchild'):
        M['meiopt'] = {'artic': 'child'}
    return M


def up(p, k):
    i = 'CDEFGAB'.index(p[0]) + k
    return 'CDEFGAB'[i % 7] + str(int(p[-1]) + i // 7)


def ok(r, M):
    if M.get('only') and r not in M['only']:
        return False
    if M.get('kernskip') and uses_kern(r):
        return False
    if M.get('meiskip') and uses_mei(r):
        return False
    return True


def norm(r, f, M):
    f = dict(f)
    # music21 fermatas have no placement of their own; a mordent without one is placed by its layer
    f['exprplace'] = [x for x in f['exprplace'] if 'Fermata' not in x and not ('Mordent' in x and M.get('anyplace'))]
    return f


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS


run, traces_of = F.make(CATS, plan, norm=norm, ok=ok)
show = F.show


def cases(tier, stats):
    q = tier == 'quick'
    seen = set()
    for k, M in F.enum(stats, driver, 1 if q else 2, seen=seen):
        M['full'] = 2
        yield k + (',longext' if M.get('long') else ''), M
    for k, M in F.enum(stats, driver, 2 if q else 3, trim=12, seen=seen):
        M['full'] = 2
        yield k + (',longext' if M.get('long') else ''), M
