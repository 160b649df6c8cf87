"""C17: chord symbols"""
import itertools
import xml.etree.ElementTree as ET
from copy import deepcopy
from fractions import Fraction
import music21 as m21
from facts import facts, chord_fact, chord_degrees, deg_number
import routes
from target import m21_to_mei
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C17'
BOUND = {'quick': 'chord vocabularies complete: 35 roots x 17 Harte shorthands, shorthands x single added or omitted degree, x bass degrees, '
                  'all sets of up to 4 explicit degrees out of 12, 49 music21 kinds x 35 roots, x 21 bass notes, x one added, omitted or '
                  'altered degree, **mxhm kinds x roots x bass, MEI texts (32 chord symbols per score, all routes that apply); positions: at most '
                  '2 deviations from the base scores',
         'thorough': 'the same with two modifications per chord, modification x bass, all sets of up to 6 degrees, and at most 3 position deviations'}
ASSUME = ['two chord symbols are the same chord when root, bass and the set of degrees over the root agree; an altered degree is counted from the '
          'degree in the kind and only degrees that are natural in the kind are altered',
          'at most one **mxhm chord symbol per moment (no syntax for more); nothing at the very end of a measure']
CATS = ['core', 'chordsyms']
ROOTS = [a + b for a in 'CDEFGAB' for b in ('', '#', 'b', '##', 'bb')]
R21 = [r for r in ROOTS if len(r) < 3]
SH = {'maj': '3 5', 'min': 'b3 5', 'dim': 'b3 b5', 'aug': '3 #5', 'maj7': '3 5 7', 'min7': 'b3 5 b7', '7': '3 5 b7', 'dim7': 'b3 b5 bb7',
      'hdim7': 'b3 b5 b7', 'minmaj7': 'b3 5 7', 'maj6': '3 5 6', 'min6': 'b3 5 6', '9': '3 5 b7 9', 'maj9': '3 5 7 9', 'min9': 'b3 5 b7 9',
      'sus4': '4 5'}
ADDS = ['2', 'b2', '4', '#4', '6', 'b6', 'b7', '7', 'b9', '9', '#9', '11', '#11', '13', 'b13']
SETD = ['2', 'b3', '3', '4', 'b5', '5', '#5', '6', 'b7', '7', '9', '11']
LET = 'CDEFGAB'
SEMI = [0, 2, 4, 5, 7, 9, 11]


def up(root, deg):
    """name of the note on a degree over the root"""
    n = deg_number(deg)
    alt = deg.count('#') - deg.count('b')
    i = LET.index(root[0])
    ra = root.count('#') - root.count('b')
    j = (i + n - 1) % 7
    want = (SEMI[i] + ra + SEMI[(n - 1) % 7] + alt) % 12
    a = (want - SEMI[j] + 6) % 12 - 6
    return LET[j] + ('#' * a if a > 0 else 'b' * -a)


def harte(root, sh='', degs=(), omit=(), bass=''):
    implied = set((SH[sh] if sh else '' if degs else SH['maj']).split())
    d = {'1'} | {x for x in implied if deg_number(x) not in {deg_number(o) for o in omit}} | set(degs)
    lst = sorted(list(degs) + ['*' + o for o in omit], key=lambda x: deg_number(x.strip('*')))
    t = root + (':' + sh if sh or lst else '') + ('(' + ','.join(lst) + ')' if lst else '') + ('/' + bass if bass else '')
    b = up(root, bass) if bass else None
    if b and len(b) > 3:
        return None
    return {'root': root, 'harte': t, 'degs': sorted(d), 'bass': b}


def kind(root, k, bass=None, mods=()):
    d = chord_degrees(k, mods)
    if not d - {'1'} and k != 'pedal':
        return None
    return {'root': root, 'kind': k, 'bass': bass, 'mods': [list(x) for x in mods], 'degs': sorted(d), 'harte': ''}


def singles(k):
    base = {deg_number(x): x for x in chord_degrees(k, [])}
    out = []
    for x in ADDS:
        n = deg_number(x)
        if n not in base and not (n > 7 and n - 7 in base and base[n - 7] == x.replace(str(n), str(n - 7))):
            out.append(('add', n, x.count('#') - x.count('b')))
    for n, x in base.items():
        if n == 1:
            continue
        out.append(('subtract', n, 0))
        if x.strip('#b') == x:
            out += [('alter', n, -1), ('alter', n, 1)]
    return out


def pedalok(k):
    return k not in ('pedal', 'power')


KINDS = list(m21.harmony.CHORD_TYPES)


def vocab_harte(tier):
    for r in ROOTS:
        for sh in [''] + list(SH):
            yield harte(r, sh)
    for r in ('C', 'F#', 'Bb'):
        for sh in SH:
            have = {deg_number(x): x for x in SH[sh].split()}
            one = [((a,), ()) for a in ADDS if deg_number(a) not in have] + [((), (str(n),)) for n in have]
            for d, o in one:
                yield harte(r, sh, d, o)
            if tier == 'thorough':
                for (d1, o1), (d2, o2) in itertools.combinations(one, 2):
                    nums = [deg_number(x) for x in d1 + d2]
                    if len(set(nums)) == len(nums) and not (o1 and o2 and len(have) == 2):
                        yield harte(r, sh, d1 + d2, o1 + o2)
    basses = [a + str(n) for n in range(1, 8) for a in ('', 'b', '#')] + ['bb7', 'bb3', 'bb6', '9', 'b9', '11', '13']
    for r in ('C', 'Eb', 'F#'):
        for sh in [''] + list(SH):
            for b in basses:
                if b != '1':
                    yield harte(r, sh, (), (), b)
                    if tier == 'thorough' and sh:
                        yield harte(r, sh, ('13',), (), b)
    for n in range(1, 5 if tier == 'quick' else 7):
        for c in itertools.combinations(SETD, n):
            yield harte('C' if n < 4 else 'Ab', '', c)


def vocab_kind(tier):
    for k in KINDS:
        for r in ROOTS:
            yield kind(r, k)
        for b in R21:
            if b != 'C':
                yield kind('C', k, b)
                if tier == 'thorough' and b != 'Eb':
                    yield kind('Eb', k, b)
        one = singles(k)
        for m in one:
            yield kind('C', k, None, [m])
            if m[0] == 'add' or tier == 'thorough':
                yield kind('Ab', k, 'Bb', [m])
        pairs = list(itertools.combinations(one, 2))
        if tier == 'quick':
            pairs = [p for p in pairs if p[0][0] != p[1][0] and k in ('dominant-ninth', 'minor-seventh', 'major', 'diminished-seventh')]
        for a, b in pairs:
            if a[1] != b[1]:
                yield kind('D', k, None, [a, b])


MX = {'major': 'major', 'minor': 'minor', 'augmented': 'augmented', 'diminished': 'diminished', 'dominant': 'dominant-seventh',
      'major-seventh': 'major-seventh', 'minor-seventh': 'minor-seventh', 'diminished-seventh': 'diminished-seventh',
      'augmented-seventh': 'augmented-seventh', 'half-diminished': 'half-diminished-seventh', 'major-minor': 'minor-major-seventh',
      'minor-major': 'minor-major-seventh',
      'major-sixth': 'major-sixth', 'minor-sixth': 'minor-sixth', 'dominant-ninth': 'dominant-ninth', 'major-ninth': 'major-ninth',
      'minor-ninth': 'minor-ninth', 'dominant-11th': 'dominant-11th', 'major-11th': 'major-11th', 'minor-11th': 'minor-11th',
      'dominant-13th': 'dominant-13th', 'major-13th': 'major-13th', 'minor-13th': 'minor-13th', 'suspended-second': 'suspended-second',
      'suspended-fourth': 'suspended-fourth', 'power': 'power', 'pedal': 'pedal'}


def vocab_mxhm(tier):
    for x, k in MX.items():
        for r in R21:
            for b in [None, 'C', 'E', 'Bb'] if tier == 'quick' else [None] + R21:
                if b != r:
                    c = kind(r, k, b)
                    c['mxhm'] = r.replace('b', '-') + ' ' + x + ('/' + b.replace('b', '-') if b else '')
                    yield c


FIG = {'': 'major', 'm': 'minor', '7': 'dominant-seventh', 'maj7': 'major-seventh', 'm7': 'minor-seventh', 'dim': 'diminished', '+': 'augmented',
       '6': 'major-sixth', 'm6': 'minor-sixth', '9': 'dominant-ninth', 'm9': 'minor-ninth', 'sus4': 'suspended-fourth', 'dim7': 'diminished-seventh'}


def vocab_text(tier):
    for f, k in FIG.items():
        for r in R21:
            for b in [None, 'C', 'E', 'Bb', 'F#']:
                if b == r:
                    continue
                for sharp, flat in (('\u266f', '\u266d'), ('#', '\u266d')):
                    c = kind(r, k, b)
                    c['print'] = (r + f + ('/' + b if b else '')).replace('#', sharp).replace('b', flat)
                    c['reg'] = None
                    yield c


PER = 32


def packs(tier, name, vocab):
    cur, seen = [], set()
    n = 0
    for c in vocab(tier):
        if c is None:
            continue
        k = S.dumps(c)
        if k in seen:
            continue
        seen.add(k)
        cur.append(c)
        if len(cur) == PER:
            yield f'{name}:{n}', pack(name, cur)
            cur, n = [], n + 1
    if cur:
        yield f'{name}:{n}', pack(name, cur)


def pack(name, cur):
    nm = (len(cur) + 3) // 4
    M = S.base(1, nm, '4/4', [[0]])
    F.fillall(M, 1)
    M['space'] = name
    M['cskind'] = 'mxhm' if name == 'mxhm' else 'harte'
    for i, c in enumerate(cur):
        M['cs'].append(dict(c, s=0, m=i // 4, off=str(i % 4)))
    return M


CH = [lambda: harte('C', 'maj'), lambda: harte('F#', 'min7', (), (), 'b3'), lambda: harte('Bb', '9', ('#11',), ('5',)), lambda: None]
OFF = ['0', '1', '1/2', '3/2', '2', '7/2', '1/4', '1/3']


def entry(i, s, m, off, k=None):
    c = CH[i]()
    if c is None:
        return {'s': s, 'm': m, 'off': off, 'root': None, 'harte': 'N', 'print': 'N.C.'}
    c['kind'] = {'C': 'major', 'F#': 'minor-seventh', 'Bb': 'dominant-ninth'}[c['root']]
    c['mods'] = [['subtract', 5, 0], ['add', 11, 1]] if c['root'] == 'Bb' else []
    c.update(s=s, m=m, off=off)
    return c


def positions(c):
    ns, parts = c.choose('struct', STRUCTS)
    M = S.base(ns, 2, '4/4', parts)
    fl = c.choose('fill', ['q', 'half', 'rest', 'two', 'grace', 'eighth', 'whole'])
    for s in range(ns):
        for m in range(2):
            M['v'][s][m][0] = {'q': lambda: F.notes(s, m, 0, 4, 1), 'half': lambda: F.notes(s, m, 0, 4, 2), 'two': lambda: F.notes(s, m, 0, 4, 1),
                               'rest': lambda: [R('1')], 'grace': lambda: [N('8', 'C5', g='q')] + F.notes(s, m, 0, 4, 1),
                               'eighth': lambda: F.notes(s, m, 0, 4, Fraction(1, 2)), 'whole': lambda: F.notes(s, m, 0, 4, 4)}[fl]()
            if fl == 'two' and s == 0:
                M['v'][s][m].append([N('2', 'C4'), N('2', 'D4')])
    M['cs'].append(entry(c.choose('ch1', range(4)), c.choose('s1', range(ns)), c.choose('m1', (0, 1)), c.choose('off1', OFF)))
    if c.flag('second'):
        M['cs'].append(entry(c.choose('ch2', (1, 2, 3, 0)), c.choose('s2', range(ns)), c.choose('m2', (0, 1)), c.choose('off2', OFF)))
    if len(M['cs']) > 1 and M['cs'][0]['s'] != M['cs'][1]['s'] and parts == [[0, 1]]:
        raise Prune()
    M['space'] = 'pos'
    M['cskind'] = 'harte'
    mo = c.choose('m.opt', [None, 'nostaff', 'text', 'm21'])
    for x in M['cs']:
        if mo == 'nostaff':
            if x['s']:
                raise Prune()
            x['nostaff'] = True
        elif mo and x['root']:
            if x['root'] == 'Bb':
                raise Prune()
            x['reg'] = {'text': None, 'm21': 'm21'}[mo]
            x['print'] = x['m21reg'] = {'C': 'C', 'F#': 'F#m7/A'}[x['root']]
    return M


def plan(M):
    sp = M['space']
    if sp == 'harte':
        return IMPORTS + CHAINS + ['humdrum-humdrum', 'mei-mei']
    if sp == 'kind':
        return EXPORTS + ['mei4-export']
    if sp == 'mxhm':
        return ['humdrum-import', 'humdrum-mei', 'humdrum-humdrum']
    if sp == 'text':
        return ['mei-import', 'mei-humdrum', 'mei-mei']
    rs = ALL if M['dev'] < 2 else IMPORTS + EXPORTS + CHAINS
    return [r for r in rs if not (F.uses_kern_in(r) and rowless(M))]


def rowless(M):
    """True when a chord symbol is where no note of the score starts: a Humdrum row without notes does not say when it is"""
    for x in M['cs']:
        ts = {t for s in range(len(M['v'])) for v in range(len(M['v'][s][x['m']])) for t, g, e in S.events(M, s, x['m'], v) if g == 0}
        if Fraction(x['off']) not in ts:
            return True
    return False


def norm(r, f, M):
    """a Humdrum chord symbol belongs to a part: its staff within the part is not written; MEI staves without names may be one part"""
    if M['space'] == 'pos' and len(M['v']) == 2 and (
            M['parts'] == [[0, 1]] and (r.startswith('humdrum-export') or r.endswith('-humdrum') or 'mei-humdrum' in r) or 'mei-humdrum' in r):
        f = dict(f, chordsyms=sorted(x.replace('s1m', 's0m') for x in f['chordsyms']))
    return f


def texts(M):
    """what is displayed, MEI to MEI directly and through Humdrum"""
    out = []
    want = sorted(x.get('print', x['harte']) for x in M['cs'])
    for r, via in (('mei-mei', False), ('mei-humdrum-mei', True)):
        try:
            sc = routes.mi(M)
            if via:
                sc = routes.to_h(sc)
            root = ET.fromstring(m21_to_mei(sc).encode('utf8'))
        except Exception as e:   # pylint: disable=broad-except
            out.append((r, 'exception ' + routes.short_exc(e)))
            continue
        got = sorted(''.join(e.itertext()).strip() for e in root.iter(routes.MEINS + 'harm'))
        if got != want:
            out.append((r, f'text: {want!r} became {got!r}'))
    return out


TEXTS = ['C', 'Cmaj', 'C\u266d', 'C\u266fm7\u266d5', 'C:maj', 'C&D', 'C<D', 'Cm7/E\u266d', 'C (no 3)', 'C\u00f87', "C'x", 'C=D', 'C;D', 'C|D', '[C]', 'C"7"',
         'C\u00b0', 'C*', '*C', '!C', 'C\\D', 'C,D', 'C.', 'C%']


def textcases():
    for i, t in enumerate(TEXTS):
        M = S.base(1, 2, '4/4', [[0]])
        F.fillall(M, 1)
        M['space'], M['cskind'] = 'shown', 'harte'
        for j, off in enumerate(('0', '2')):
            x = entry(j, 0, 0, off)
            x['print'] = t if j == 0 else TEXTS[(i + 1) % len(TEXTS)]
            M['cs'].append(x)
        yield f'shown:{i}', M
        M = deepcopy(M)
        M['cs'][1]['off'] = '0'
        yield f'shown:{i},same', M


def run(M):
    if M['space'] == 'shown':
        return texts(M), ''
    exp = facts(S.build(dict(M, cs=[])), CATS)
    exp['chordsyms'] = sorted('s%dm%d@%s ' % (x['s'], x['m'], x['off']) + (
        'nochord' if x['root'] is None else chord_fact(x['root'], set(x['degs']), x['bass'])) for x in M['cs'])
    return routes.check_model(M, CATS, plan(M), expect=exp, norm=norm)


def traces_of(M):
    if M['space'] == 'shown':
        return 2
    return len(plan(M))


show = F.show


def cases(tier, stats):
    for name, v in (('harte', vocab_harte), ('kind', vocab_kind), ('mxhm', vocab_mxhm), ('text', vocab_text)):
        n = 0
        for k, M in packs(tier, name, v):
            n += len(M['cs'])
            stats.states += len(M['cs'])
            yield k, M
        stats.note.setdefault('chord_symbols', {})[name] = n
    for k, M in textcases():
        stats.states += 2
        yield k, M
    yield from F.enum(stats, positions, 2 if tier == 'quick' else 3)
