"""C25: clean-up before export.

music21 objects that are not complete, well-formed scores (flat streams, single notes, notes with lengths no single note can
have, notes across barlines, gaps, parts of different lengths, measures of different lengths, ...) are exported to Humdrum and
MEI and read again; the oracle is the list of sounding notes (part, pitch, onset, total length), computed from the model alone.
"""
from fractions import Fraction

import target
from target import m21, kern_to_m21, m21_to_kern, mei_to_m21, m21_to_mei
from explore import Prune
import featlib as F
import routes

PROP = 'C25'
BOUND = {'quick': 'all lengths of 64 values at 10 onsets in 4 meters in 9 containers (at most 2 deviations from a quarter note, 4 over three options per choice), all '
                  'damaged scores with at most 3 defects out of 23 kinds, 34 single objects; Humdrum and MEI',
         'thorough': 'at most 3 (5) deviations, at most 4 defects'}
ASSUME = ['sounding notes: tied notes are one note; grace notes are not part of this check',
          'overlapping notes of one voice are moved apart in order, as documented in fixupBadDurations']

# lengths in quarters
LENS = ['1', '5/4', '5/2', '9/4', '7/8', '5', '1/3', '2/3', '4/3', '1/5', '3/5', '1/6', '5/6', '7/4', '9/2', '8', '7/2', '13/4', '15/4', '1/8', '9/8', '11/8', '3/16',
        '5/16', '1/32', '7/16', '1/12', '2/5', '4/5', '2/7', '4/7', '5/3', '7/3', '8/3', '10/3', '3/4', '3/8', '3/2', '3', '6', '12', '11', '13/8', '17/8', '19/4',
        '1/64', '23/8', '15/8', '1/2', '2', '4', '1/4', '1/16', '7', '9', '10', '1/7', '1/9', '5/12', '7/12', '1/10', '11/16', '13/16', '27/8']
ONSETS = ['0', '1/2', '1', '3/4', '2', '1/3', '5/2', '3', '2/3', '1/8']
METERS = ['4/4', '3/4', '6/8', None]
CONTS = ['flatpart', 'flatstream', 'score-of-flat', 'score', 'part', 'stream-of-measures', 'measure', 'voice', 'score-nonotation']


def q(x):
    return m21.common.opFrac(Fraction(x))


def measured(items, ts):
    """items (onset, length, pitches or None) -> measures with split, tied, printable notes, as music21's makeNotation does not need to change them"""
    part = m21.stream.Part()
    for on, le, ps in items:
        n = nc(ps)
        n.duration.quarterLength = q(le)
        part.insert(q(on), n)
    part.insert(0, m21.meter.TimeSignature(ts or '4/4'))
    return part.makeNotation()


def nc(ps):
    return m21.note.Rest() if not ps else m21.note.Note(ps[0]) if len(ps) == 1 else m21.chord.Chord(list(ps))


def fill(part, items):
    for on, le, ps in items:
        n = nc(ps)
        n.duration.quarterLength = q(le)
        part.insert(q(on), n)
    return part


def build_values(case):
    items, ts, cont = case['items'], case['ts'], case['cont']
    if cont in ('flatpart', 'flatstream', 'score-of-flat'):
        st = fill(m21.stream.Stream() if cont == 'flatstream' else m21.stream.Part(), items)
        if ts:
            st.insert(0, m21.meter.TimeSignature(ts))
        if cont == 'score-of-flat':
            sc = m21.stream.Score()
            sc.insert(0, st)
            return sc
        return st
    if cont in ('measure', 'voice'):
        st = m21.stream.Measure(number=1) if cont == 'measure' else m21.stream.Voice()
        fill(st, items)
        if ts and cont == 'measure':
            st.timeSignature = m21.meter.TimeSignature(ts)
        return st
    p = measured(items, ts)
    if cont == 'score-nonotation':
        p.splitAtDurations(recurse=True)
    if cont == 'part':
        return p
    if cont == 'stream-of-measures':
        st = m21.stream.Stream()
        for m in p.getElementsByClass(m21.stream.Measure):
            st.insert(m.offset, m)
        return st
    sc = m21.stream.Score()
    sc.insert(0, p)
    return sc


def dyadic(x):
    d = Fraction(x).denominator
    return d & (d - 1) == 0


def sane(items, gap=0):
    """are all tuplets complete (a simple length, divided by 3, 5 or 7)?"""
    ls = ([gap] if gap else []) + [Fraction(l) for _, l, _ in items]
    at, start, dens = Fraction(0), None, set()
    for l in ls:
        if start is None and not dyadic(l):
            start, dens = at, set()
        at += l
        if start is not None:
            if not dyadic(l) and l.numerator not in (1, 2, 3, 4, 6):
                return False      # music21 makes a tuplet of its own for it (6:5)
            for p in (3, 5, 7):
                if l.denominator % p == 0:
                    dens.add(p)
            if dyadic(at):
                if at - start not in (Fraction(1, 4), Fraction(1, 2), 1, 2, 4) or start % (at - start) or len(dens) > 1:
                    return False
                start = None
    return start is None


def values(c):
    cont = c.choose('cont', CONTS)
    ts = c.choose('ts', METERS)
    on = c.choose('on', ONSETS)
    le = c.choose('len', LENS)
    rest = c.choose('first', ['rest', 'gap', 'note'])
    mid = c.choose('mid', ['none', 'gap', 'rest'])
    ps = c.choose('p', [['C5'], ['C4', 'E4'], ['F#5'], ['B-3', 'D4', 'F4']])
    le2 = c.choose('next', [None] + LENS[:24])
    ts2 = None
    items = []
    bar = Fraction(4) if ts is None else Fraction(m21.meter.TimeSignature(ts).barDuration.quarterLength)

    def inside(a, b):
        # music21's makeMeasures makes measures as long as their content, so a gap has to end inside its measure; it is as simple as a rest
        return dyadic(a) and dyadic(b) and a // bar == b // bar
    if rest == 'gap' and not inside(Fraction(0), Fraction(on)):
        raise Prune()
    if on != '0' and rest != 'gap':
        items.append(('0', on, None if rest == 'rest' else ['A4']))
    elif rest != 'rest' and on == '0':
        raise Prune()
    items.append((on, le, ps))
    if mid != 'none' and not le2:
        raise Prune()
    if le2:
        at = Fraction(on) + Fraction(le)
        if mid != 'none':
            g = c.choose('g', ['1/2', '5/4', '5/2', '7/4', '1/4', '3', '9/4', '11/4'])
            if mid == 'rest':
                items.append((str(at), g, None))
            elif not sane(items, rest == 'gap' and Fraction(on)) or not inside(at, at + Fraction(g)):
                raise Prune()
            at += Fraction(g)
        items.append((str(at), le2, ['D5']))
        if cont in ('measure', 'voice') and at + Fraction(le2) > bar:
            raise Prune()      # music21 moves the surplus of the first note behind the second
    if not sane(items, rest == 'gap' and Fraction(on)):
        raise Prune()
    return {'kind': 'values', 'cont': cont, 'ts': ts, 'items': items}


def expect_values(case):
    return sorted(f'p0 {p} {Fraction(on)} {Fraction(le)}' for on, le, ps in case['items'] if ps for p in ps)


# ---------- damaged scores

DEFECTS = ['shortpart', 'shortpart0', 'shortmeasure', 'gap', 'gapstart', 'gapend', 'longrest', 'complexrest', 'nots', 'noclef', 'voicegap', 'shortvoice',
           'nonumbers', 'overlap', 'emptymeasure', 'longmeasure', 'pickup', 'extravoice', 'shortpart2', 'onlyvoice', 'emptypart', 'visiblecomplex', 'norests']


def build_damaged(case):
    """(score, expected)"""
    sc = m21.stream.Score()
    D = set(case['d'])
    np = case['np']
    ts = case['ts']
    bar = q(m21.meter.TimeSignature(ts).barDuration.quarterLength)
    exp = []
    nm = 3
    starts = [0] * nm
    lens = [[Fraction(bar)] * nm for _ in range(np)]
    parts = []
    for pi in range(np):
        meas = []
        for mi in range(nm):
            seq = []
            o = Fraction(0)
            k = 0
            while o < Fraction(bar):
                seq.append([o, Fraction(1), ['CDEFGAB'[(k + mi + 2 * pi) % 7] + str(5 - pi)]])
                o += 1
                k += 1
            meas.append({'v': [seq]})
        parts.append(meas)
    p0, pl = parts[0], parts[-1]
    if 'shortpart' in D:
        pl.pop()
    if 'shortpart0' in D:
        if np == 1:
            raise Prune()
        p0.pop()
    if 'shortpart2' in D:
        if np == 1 or 'shortpart' in D:
            raise Prune()
        pl.pop()
        pl.pop()
    if 'shortmeasure' in D:
        p0[1]['v'][0] = p0[1]['v'][0][:-1]
    if 'gap' in D:
        del p0[0]['v'][0][1]
    if 'gapstart' in D:
        del p0[0]['v'][0][0]
    if 'gapend' in D:
        p0[0]['v'][0].pop()
        p0[0]['pad'] = True
    if 'longrest' in D:
        if bar >= 4:
            raise Prune()
        p0[1]['v'][0] = [[Fraction(0), Fraction(4), None]]
        p0[1]['max'] = Fraction(bar)
    if 'complexrest' in D:
        p0[0]['v'][0] = [[Fraction(0), Fraction(5, 4), None, 'hidden'], [Fraction(5, 4), Fraction(bar) - Fraction(5, 4), ['C5']]] if bar == 3 \
            else [[Fraction(0), Fraction(5, 2), None, 'hidden'], [Fraction(5, 2), Fraction(1, 2), ['C5']], [Fraction(3), Fraction(bar) - 3, ['D5']]]
    if 'visiblecomplex' in D:
        p0[0]['v'][0] = [[Fraction(0), Fraction(5, 2), None], [Fraction(5, 2), Fraction(1, 2), ['C5']]] + ([[Fraction(3), Fraction(bar) - 3, ['D5']]] if bar > 3 else [])
    if 'voicegap' in D:
        p0[0]['v'].append([[Fraction(1), Fraction(1), ['E4']]])
    if 'shortvoice' in D:
        p0[1]['v'].append([[Fraction(0), Fraction(1), ['E4']]])
    if 'extravoice' in D:
        p0[1]['v'].append([[Fraction(0), Fraction(2), ['E4']], [Fraction(2), Fraction(bar) - 2, ['F4']]])
    if 'onlyvoice' in D:
        p0[0]['usevoice'] = True
    if 'emptymeasure' in D:
        p0[1]['v'] = [[]]
    if 'longmeasure' in D:
        if D & {'emptymeasure', 'longrest', 'shortmeasure'}:
            raise Prune()
        p0[1]['v'][0].append([Fraction(bar), Fraction(1), ['G5']])
    if 'pickup' in D:
        for x in parts:
            x[0]['v'] = [[[Fraction(0), Fraction(1), ['G4']]]]
            x[0]['pickup'] = True
    if 'overlap' in D:
        if D - {'overlap', 'noclef', 'nonumbers', 'shortpart', 'nots'}:
            raise Prune()
        p0[1]['v'][0][0][1] = Fraction(3, 2)
        p0[1]['overlap'] = True
    if 'emptypart' in D:
        if np == 1 or D & {'shortpart', 'shortpart2'}:
            raise Prune()
        pl[:] = []
    if 'norests' in D:
        pl[:] = [{'v': [[]]} for _ in pl]
    # expected onsets: every measure is as long as its longest part, at least where it has content
    at = Fraction(0)
    for mi in range(nm):
        ml = Fraction(0)
        for meas in parts:
            if mi >= len(meas):
                continue
            x = meas[mi]
            ends = [o + l for v in x['v'] for o, l, *_ in v]
            e = max(ends) if ends else Fraction(0)
            if x.get('max'):
                e = min([e, x['max']])
            if x.get('pad'):
                e = Fraction(bar)
            if x.get('overlap'):
                e = max(e, sum(l for _, l, *_ in x['v'][0]))
            ml = max(ml, e)
        x = {'at': at, 'len': ml}
        for pi, meas in enumerate(parts):
            if mi >= len(meas):
                continue
            for v in meas[mi]['v']:
                cur = Fraction(0)
                for o, l, ps, *_ in v:
                    if meas[mi].get('overlap'):
                        o = max(o, cur)
                    cur = o + l
                    for p in ps or []:
                        exp.append((pi, p, mi, o, l))
        at += ml
    for pi, meas in enumerate(parts):
        part = m21.stream.Part(id=f'P{pi}')
        for mi, x in enumerate(meas):
            m = m21.stream.Measure()
            if 'nonumbers' not in D:
                m.number = mi + (0 if 'pickup' in D else 1)
            if mi == 0:
                if 'noclef' not in D:
                    m.insert(0, m21.clef.TrebleClef() if pi == 0 else m21.clef.BassClef())
                if 'nots' not in D:
                    m.insert(0, m21.meter.TimeSignature(ts))
                if x.get('pickup'):
                    m.paddingLeft = q(Fraction(bar) - 1)
            usev = len(x['v']) > 1 or x.get('usevoice')
            for v in x['v']:
                cont = m21.stream.Voice() if usev else m
                for o, l, ps, *h in v:
                    n = nc(ps)
                    n.duration.quarterLength = q(l)
                    if h:
                        n.style.hideObjectOnPrint = True
                    cont.insert(q(o), n)
                if usev:
                    m.insert(0, cont)
            part.append(m)
        sc.insert(0, part)
    return sc, exp


def damaged(c):
    np = c.choose('np', [2, 1, 3], 0)
    ts = c.choose('ts', ['4/4', '3/4'], 0)
    nn = c.choose('notation', [True, False], 0)
    d = [x for x in DEFECTS if c.choose(x, [False, True])]
    return legal({'kind': 'damaged', 'np': np, 'ts': ts, 'd': d, 'nn': nn})


def legal(case):
    D = set(case['d'])
    if 'longrest' in D and case['nn']:
        raise Prune()    # music21's makeNotation gives the surplus to the next measure
    if 'visiblecomplex' in D and not case['nn']:
        raise Prune()    # without makeNotation, the score must be printable
    sc, _ = build_damaged(case)
    ms = [list(p.getElementsByClass(m21.stream.Measure)) for p in sc.parts]
    for i in range(max(map(len, ms))):
        if not any(len(x) > i and x[i].recurse().notesAndRests for x in ms):
            raise Prune()    # a measure of no length at all
    return case


# ---------- single objects

def objects():
    o = {}
    n = m21.note.Note('E-4')
    n.duration.quarterLength = 1.5
    o['note'] = (n, ['E-4 0 3/2'])
    n = m21.note.Note('G5')
    n.duration.quarterLength = 2.5
    o['note-complex'] = (n, ['G5 0 5/2'])
    n = m21.note.Note('G5')
    n.duration.quarterLength = q(Fraction(1, 3))
    o['note-triplet'] = (n, ['G5 0 1/3'])
    n = m21.note.Note('C4')
    n.duration.quarterLength = 6
    o['note-long'] = (n, ['C4 0 6'])
    n = m21.note.Note('C4')
    n.duration.quarterLength = 8
    o['note-breve'] = (n, ['C4 0 8'])
    c = m21.chord.Chord(['C4', 'E4', 'G4'])
    c.duration.quarterLength = 2
    o['chord'] = (c, ['C4 0 2', 'E4 0 2', 'G4 0 2'])
    r = m21.note.Rest()
    r.duration.quarterLength = 2
    o['rest'] = (r, [])
    o['unpitched'] = (m21.note.Unpitched('F4'), ['F4 0 1'])
    o['pitch'] = (m21.pitch.Pitch('B-3'), ['B-3 0 1'])
    o['duration'] = (m21.duration.Duration(0.75), ['C4 0 3/4'])
    o['duration-complex'] = (m21.duration.Duration(1.25), ['C4 0 5/4'])
    o['dynamic'] = (m21.dynamics.Dynamic('mf'), [])
    o['scale'] = (m21.scale.MajorScale('D'), ['D4 0 4', 'E4 4 1', 'F#4 5 1', 'G4 6 1', 'A4 7 2', 'B4 9 1', 'C#5 10 1'])
    o['scale-minor'] = (m21.scale.MinorScale('A'), None)
    o['scale-whole'] = (m21.scale.WholeToneScale('C'), None)
    o['scale-octatonic'] = (m21.scale.OctatonicScale('C'), None)
    o['timesig'] = (m21.meter.TimeSignature('3/4'), [])
    o['keysig'] = (m21.key.KeySignature(2), [])
    o['key'] = (m21.key.Key('g'), None)
    o['clef'] = (m21.clef.AltoClef(), [])
    o['tempo'] = (m21.tempo.MetronomeMark('Allegro', 120), [])
    o['text'] = (m21.expressions.TextExpression('dolce'), [])
    o['rehearsal'] = (m21.expressions.RehearsalMark('A'), [])
    o['roman'] = (m21.roman.RomanNumeral('V', 'C'), ['G4 0 1', 'B4 0 1', 'D5 0 1'])
    o['tinynotation'] = (m21.converter.parse('tinyNotation: 3/4 c4 d8 e f4 g2.'), ['C4 0 1', 'D4 1 1/2', 'E4 3/2 1/2', 'F4 2 1', 'G4 3 3'])
    st = m21.stream.Stream()
    o['empty-stream'] = (st, [])
    o['empty-part'] = (m21.stream.Part(), [])
    o['empty-measure'] = (m21.stream.Measure(number=1), [])
    s = m21.stream.Score()
    s.insert(0, m21.stream.Part())
    o['score-empty-part'] = (s, [])
    p = m21.stream.Part()
    for x in ('C4', 'D4', 'E4'):
        p.append(m21.note.Note(x))
    o['opus-like'] = (p, ['C4 0 1', 'D4 1 1', 'E4 2 1'])
    st = m21.stream.Stream()
    for k in range(2):
        p = m21.stream.Part()
        for x in ('C', 'D', 'E', 'F', 'G'):
            p.append(m21.note.Note(x + str(5 - k)))
        st.insert(0, p)
    o['stream-of-parts'] = (st, None)
    ps = m21.stream.PartStaff()
    for x in ('C4', 'D4', 'E4', 'F4', 'G4'):
        ps.append(m21.note.Note(x))
    o['partstaff'] = (ps, ['C4 0 1', 'D4 1 1', 'E4 2 1', 'F4 3 1', 'G4 4 1'])
    p = m21.stream.Part()
    p.append(m21.meter.TimeSignature('3/4'))
    p.append([m21.note.Note('C4', quarterLength=3), m21.note.Note('D4', quarterLength=3)])
    p.insert(6, m21.meter.TimeSignature('2/4'))
    p.append([m21.note.Note('E4', quarterLength=3), m21.note.Note('F4', quarterLength=1)])
    o['meter-change-flat'] = (p, ['C4 0 3', 'D4 3 3', 'E4 6 3', 'F4 9 1'])
    return o


OBJ = None


def expect_objects(name, obj, exp):
    if exp is not None:
        return sorted('p0 ' + x for x in exp)
    if name == 'stream-of-parts':
        return sorted(f'p{k} {x}{5 - k} {i} 1' for k in range(2) for i, x in enumerate('CDEFG'))
    ps = [obj.pitchFromDegree(i) for i in range(1, obj.abstract.getDegreeMaxUnique() + 1)]
    dom = obj.getDominant().name if isinstance(obj, m21.scale.DiatonicScale) else None
    out, at = [], 0
    for p in ps:
        le = 4 if p.name == obj.getTonic().name else 2 if p.name == dom else 1
        out.append(f'p0 {p.nameWithOctave} {at} {le}')
        at += le
    return sorted(out)


# ---------- facts

def sounding(sc):
    out = []
    for pi, part in enumerate(sc.parts):
        ev = []
        for n in part.recurse().notes:
            if n.duration.isGrace or isinstance(n, m21.harmony.Harmony):
                continue
            on = Fraction(m21.common.opFrac(n.getOffsetInHierarchy(part)))
            le = Fraction(m21.common.opFrac(n.duration.quarterLength))
            if isinstance(n, m21.note.Unpitched):
                ev.append((on, le, n.displayName, n.tie.type if n.tie else None))
                continue
            ns = n.notes if isinstance(n, m21.chord.Chord) else [n]
            for x in ns:
                t = x.tie or n.tie
                ev.append((on, le, x.pitch.nameWithOctave, t.type if t else None))
        open_ = {}
        done = []
        for on, le, p, t in sorted(ev, key=lambda e: (e[0], e[2])):
            k = open_.get(p)
            if t in ('stop', 'continue') and k is not None and k[1] + k[2] == on:
                k[2] += le
                if t == 'stop':
                    del open_[p]
                continue
            r = [p, on, le]
            done.append(r)
            if t in ('start', 'continue'):
                open_[p] = r
        out += [f'p{pi} {p} {on} {le}' for p, on, le in done]
    return sorted(out)


def diff(a, b):
    x = [f'missing {i}' for i in a if i not in b] + [f'unexpected {i}' for i in b if i not in a]
    if not x and a != b:
        x = [f'{len(a)} expected, {len(b)} found']
    return '; '.join(x[:4])


def outcomes(mk, exp, notation=True, bynote=None, rts=('H', 'M'), refuse=()):
    disc, out = [], None
    for r in rts:
        try:
            obj = mk()
            if r == 'H':
                sc = kern_to_m21(m21_to_kern(obj, makeNotation=notation))
            else:
                sc = mei_to_m21(m21_to_mei(obj, makeNotation=notation))
            got = sounding(sc) if bynote is None else bynote(sc)
        except Exception as e:   # pylint: disable=broad-except
            if r in refuse and type(e).__name__ == 'MeiExportError' and 'different measure counts' in str(e):
                continue
            disc.append((r, routes.short_exc(e)))
            continue
        out = got
        if got != exp:
            disc.append((r, diff(exp, got)))
    return disc, str(out)


def by_measure(sc):
    out = []
    for pi, part in enumerate(sc.parts):
        for mi, m in enumerate(part.getElementsByClass(m21.stream.Measure)):
            for n in m.recurse().notes:
                o = Fraction(m21.common.opFrac(n.getOffsetInHierarchy(m)))
                for p in n.pitches:
                    out.append(f'p{pi} {p.nameWithOctave} m{mi} {o} {Fraction(m21.common.opFrac(n.duration.quarterLength))}')
    return sorted(out)


def aligned(sc):
    """do the measures of all parts start together?"""
    ps = [[Fraction(m21.common.opFrac(m.offset)) for m in p.getElementsByClass(m21.stream.Measure)] for p in sc.parts]
    return not ps or all(x == ps[0] for x in ps)


def run(case):
    if case['kind'] == 'values':
        return outcomes(lambda: build_values(case), expect_values(case), case['cont'] != 'score-nonotation')
    if case['kind'] == 'object':
        obj, exp = objects()[case['name']]
        return outcomes(lambda: obj, expect_objects(case['name'], obj, exp))
    _, e = build_damaged(case)
    exp = sorted(f'p{pi} {p} m{mi} {o} {l}' for pi, p, mi, o, l in e)

    def bn(sc):
        r = by_measure(sc)
        if not aligned(sc):
            r.append('measures of different parts start at different times')
        return r
    rts = ('H', 'M')
    if not case['nn'] and set(case['d']) & {'longrest', 'complexrest', 'overlap'}:
        rts = ('H',)     # the MEI writer does not repair scores when told not to make notation
    counts = {len(p.getElementsByClass(m21.stream.Measure)) for p in build_damaged(case)[0].parts}
    return outcomes(lambda: build_damaged(case)[0], exp, case['nn'], bn, rts, ('M',) if len(counts) > 1 else ())


def traces_of(case):
    return 2


def cases(tier, stats):
    t = int(tier != 'quick')
    seen = set()
    for name in sorted(objects()):
        yield 'object ' + name, {'kind': 'object', 'name': name}
    yield from F.enum(stats, damaged, 3 + t, 'damaged', seen)
    yield from F.enum(stats, values, 2 + t, 'values', seen)
    yield from F.enum(stats, values, 4 + t, 'values3', seen, trim=3)


def show(case):
    print(case)
