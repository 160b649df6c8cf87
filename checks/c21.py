"""C21: exporting never changes the score and always gives the same result.

For every feature score (from every source) one walk of writer calls that contains every ordered pair of the writer
operations is taken on one and the same score object; after every step the whole object is compared with what it was, and
the document with the one written from a fresh object.  As every step must lead back to the same state, the walk covers
all reachable states and all transitions.  Documents are also compared between processes with different hash seeds.
"""
import contextlib
import copy
import hashlib
import io
import json
import os
import re
import subprocess
import sys
from fractions import Fraction

sys.path[:0] = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"), os.path.dirname(os.path.abspath(__file__))]
import target
from target import kern_to_m21, mei_to_m21, m21
import score as S
import routes
import pool
from facts import facts, CATS as ALLCATS

PROP = 'C21'
CHUNK = 2
BOUND = {'quick': 'the thinned feature scores of every feature check (music21-built, Humdrum-imported, MEI-imported), 40 '
                  'special scores and objects; a walk through all ordered pairs of 4 (7 for the specials) writer operations; '
                  '3 hash seeds in processes of their own',
         'thorough': 'ten times as many scores, all ordered pairs of 7 operations'}
ASSUME = ['documents are compared apart from generated ids (numbered in order of appearance), dates and version stamps',
          'caches and sites inside music21 are not part of the score']

OPS = {
    'H': ('h', {}),
    'Hn': ('h', {'makeNotation': False}),
    'M': ('m', {}),
    'Mn': ('m', {'makeNotation': False}),
    'Hr': ('h', {'addRecipSpine': True}),
    'Ht': ('h', {'expandTremolos': False}),
    'M4': ('m', {'meiVersion': '4'}),
}
FOUR = ['H', 'Hn', 'M', 'Mn']
SEVEN = list(OPS)
NONSCORE = ['H', 'M', 'Hr', 'Ht', 'M4']


def walk(ops):
    """an Eulerian circuit of the complete directed graph with loops: contains every ordered pair"""
    edges = {a: [b for b in ops if b != a] + [a] for a in ops}
    stack, out = [ops[0]], []
    while stack:
        if edges[stack[-1]]:
            stack.append(edges[stack[-1]].pop())
        else:
            out.append(stack.pop())
    return out[::-1]


def normalize(text):
    ids = {}

    def rid(m):
        return ids.setdefault(m.group(0), f'ID{len(ids)}')
    if text.startswith('<?xml'):
        names = set(re.findall(r'xml:id="([^"]*)"', text))
        if names:
            text = re.sub(r'(?<![\w.-])(' + '|'.join(sorted(map(re.escape, names), key=len, reverse=True)) + r')(?![\w.-])', rid, text)
        text = re.sub(r'(isodate|version)="[^"]*"', '', text)
    text = re.sub(r'\d{4}[-/]\d\d[-/]\d\d(T[\d:.+-]*)?', 'DATE', text)
    return text


def write(obj, op):
    fmt, kw = OPS[op]
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            return normalize(target.m21_to_kern(obj, **kw) if fmt == 'h' else target.m21_to_mei(obj, **kw))
    except Exception as e:   # pylint: disable=broad-except
        return 'exception ' + routes.short_exc(e)


# ---------------------------------------------------------------- the whole object

SCALARS = (str, int, float, bool, Fraction, type(None))
SKIP = re.compile(r'^(_cache|_activeSite.*|sites|_derivation|derivation|_elements|_endElements|_offsetDict|isSorted|autoSort|'
                  r'_mutable|_client|client|_parent|_unlinkedDuration|spannerStorage|_overridden.*|_idLastDeepCopyOf|'
                  r'elementsChanged.*|_findSpanner.*|_prevNextCache|_.*[Cc]ache.*)$')


def plain(v, depth=0):
    if isinstance(v, SCALARS):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(plain(x, depth + 1) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ','.join(f'{k}:{plain(x, depth + 1)}' for k, x in sorted(v.items(), key=lambda kv: str(kv[0]))) + '}'
    if isinstance(v, m21.pitch.Pitch):
        a = v.accidental
        return f'{v.nameWithOctave}:{a and (a.displayStatus, a.displayType)}'
    if isinstance(v, m21.duration.Duration):
        return f'{type(v).__name__}:{v.quarterLength}:{v.type}:{v.dots}:{[(t.tupletMultiplier(), t.type, t.bracket) for t in v.tuplets]}:{v.linked}'
    if isinstance(v, m21.beam.Beams):
        return str([(b.type, b.direction, b.number) for b in v.beamsList])
    return type(v).__name__


SIMPLE = ['id', 'number', 'numberSuffix', 'paddingLeft', 'paddingRight', 'partName', 'partAbbreviation', 'atSoundingPitch',
          'stemDirection', 'notehead', 'sharps', 'mode', 'ratioString', 'symbol', 'symbolizeDenominator', 'sign', 'line',
          'octaveChange', 'content', 'text', 'value', 'placement', 'type', 'transposing', 'lineType', 'barTogether', 'name',
          'abbreviation', 'numberOfMarks', 'measured', 'filledStatus', 'isNewSystem', 'staffLines', 'instrumentName',
          'instrumentAbbreviation', 'figure', 'chordKind', 'chordKindStr', 'spread', 'niente', 'tupletsSuppressed',
          'mei_handled_already', 'hideObjectOnPrint', 'stepShift']


def item(el):
    out = [type(el).__name__]
    for a in SIMPLE:
        if a == 'id' and isinstance(el.id, int):
            continue
        try:
            v = getattr(el, a)
        except Exception:   # pylint: disable=broad-except
            continue
        if v is not None and not callable(v):
            out.append(f'{a}={plain(v)}')
    if not isinstance(el, m21.stream.Stream):
        out.append('dur=' + plain(el.duration))
    for a in ('articulations', 'expressions'):
        v = getattr(el, a, None)
        if v:
            out.append(a + '=' + ','.join(item(x) for x in v))
    if isinstance(el, m21.note.GeneralNote):
        out.append('lyrics=' + ','.join(f'{ly.number}:{ly.rawText}:{ly.syllabic}:{ly.identifier}' for ly in el.lyrics))
        if el.tie is not None:
            out.append(f'tie={el.tie.type}:{el.tie.placement}:{el.tie.style}')
    if isinstance(el, m21.note.NotRest):
        out.append('beams=' + plain(el.beams))
    if isinstance(el, m21.note.Note):
        out.append(plain(el.pitch))
    if isinstance(el, m21.chord.Chord) and not isinstance(el, m21.harmony.Harmony):
        out.append(','.join(item(n) for n in el.notes))
    if isinstance(el, m21.instrument.Instrument):
        out.append(str(el.transposition))
    if isinstance(el, m21.tempo.MetronomeMark):
        out.append(f'{el.number}:{el.numberImplicit}:{el.numberSounding}')
    if el.hasStyleInformation:
        st = {k: v for k, v in vars(el.style).items() if v is not None and isinstance(v, SCALARS)}
        sty = plain({k: v for k, v in st.items() if k in (
            '_hideObjectOnPrint', 'hideObjectOnPrint', '_absoluteY', '_color', 'color', '_fontStyle', '_fontSize', '_lineType', 'lineType')
            and v not in (False, '')})
        if sty != '{}':
            out.append('style=' + sty)
    if el.hasEditorialInformation:
        ed = plain({k: v for k, v in el.editorial.items() if v})
        if ed != '{}':
            out.append('ed=' + ed)
    custom = sorted(k for k in vars(el) if re.match(r'(mei|humdrum|c21|xml|m21utils?)_', k))
    if custom:
        out.append('custom=' + ','.join(f'{k}={plain(getattr(el, k))}' for k in custom))
    return ' '.join(out)


def fingerprint(obj):
    """one line per element"""
    lines = []
    if not isinstance(obj, m21.base.Music21Object):
        return [plain(obj)]
    num = {}

    def visit(el, off, path):
        num.setdefault(id(el), len(num))
        lines.append(f'{path}@{off} {item(el)}')
        if isinstance(el, m21.stream.Stream):
            for i, x in enumerate(el.elements):
                visit(x, el.elementOffset(x), f'{path}/{i}')
            for side in ('leftBarline', 'rightBarline'):
                b = getattr(el, side, None)
                if b is not None:
                    lines.append(f'{path} {side} {item(b)} {getattr(b, "direction", "")} {getattr(b, "times", "")}')
    visit(obj, 0, '')
    if isinstance(obj, m21.stream.Stream):
        for i, sp in enumerate(obj.recurse().getElementsByClass(m21.spanner.Spanner)):
            lines.append(f'spanner {i} {type(sp).__name__} {[num.get(id(x), "?") for x in sp.getSpannedElements()]}')
        md = obj.metadata
        if md is not None:
            lines.append('metadata ' + repr([(k, str(v)) for k, v in md.all(returnPrimitives=True, returnSorted=False)]))
    elif obj.activeSite is not None:
        lines.append('in ' + item(obj.activeSite))
    return lines


# ---------------------------------------------------------------- specials

def special():
    n, c, st = m21.note, m21.chord, m21.stream
    q = m21.duration.Duration

    def measure(*els):
        m = st.Measure(number=1)
        for e in els:
            m.append(e)
        return m

    def score(*parts):
        s = st.Score()
        for p in parts:
            s.insert(0, p)
        return s

    def part(*ms):
        p = st.Part()
        for m in ms:
            p.append(m)
        return p

    def m44(*els):
        m = measure(m21.clef.TrebleClef(), m21.key.KeySignature(0), m21.meter.TimeSignature('4/4'))
        for e in els:
            m.append(e)
        return m

    def hid(x):
        r = n.Rest(quarterLength=x)
        r.style.hideObjectOnPrint = True
        return r

    def with_sounding():
        p = part(m44(n.Note('D4', quarterLength=4)))
        p.insert(0, m21.instrument.Clarinet())
        p.atSoundingPitch = False
        return score(p)

    def sounding():
        p = part(m44(n.Note('D4', quarterLength=4)))
        p.insert(0, m21.instrument.Clarinet())
        p.atSoundingPitch = True
        return score(p)

    def ottava():
        p = part(m44(n.Note('D4'), n.Note('E4'), n.Note('F4'), n.Note('G4')))
        ns = list(p.recurse().notes)
        p.insert(0, m21.spanner.Ottava(ns[0], ns[2], type='8va'))
        return score(p)

    def trem():
        a, b = n.Note('D4', quarterLength=2), n.Note('F4', quarterLength=2)
        p = part(m44(a, b))
        t = m21.expressions.TremoloSpanner(a, b)
        t.numberOfMarks = 3
        p.insert(0, t)
        a2 = n.Note('G4', quarterLength=4)
        tr = m21.expressions.Tremolo()
        tr.numberOfMarks = 3
        a2.expressions.append(tr)
        p.append(measure(a2))
        return score(p)

    def voices():
        m = m44()
        for k in range(2):
            v = st.Voice(id=str(k + 1))
            for j in range(4):
                v.append(n.Note('CDEF'[j] + str(5 - k)))
            m.insert(0, v)
        return score(part(m))

    def meta():
        s = score(part(m44(n.Note('C4', quarterLength=4))))
        s.metadata = m21.metadata.Metadata()
        s.metadata.title, s.metadata.composer = 'A & B', 'Müller'
        s.metadata.add('dateCreated', '1900/01/02')
        s.metadata.addCustom('humdrum:XYZ', 'q')
        return s

    def lyr():
        x = n.Note('C4', quarterLength=4)
        x.lyric = 'la'
        return score(part(m44(x)))

    def inmeasures():
        s = score(part(m44(n.Note('C4', quarterLength=4)), measure(n.Note('D4', quarterLength=4))), part(m44(n.Note('E3', quarterLength=4)), measure(n.Note('D3', quarterLength=4))))
        s.insert(0, m21.layout.StaffGroup(list(s.parts), symbol='brace', barTogether=True))
        return s

    def dyn():
        p = part(m44(n.Note('C4'), n.Note('D4'), n.Note('E4'), n.Note('F4')))
        m = p.getElementsByClass(st.Measure)[0]
        m.insert(1, m21.dynamics.Dynamic('f'))
        ns = list(p.recurse().notes)
        p.insert(0, m21.dynamics.Crescendo(ns[0], ns[2]))
        m.insert(0, m21.tempo.MetronomeMark('Allegro', 120))
        m.insert(2, m21.expressions.TextExpression('dolce'))
        m.insert(0, m21.harmony.ChordSymbol('Cm7'))
        return score(p)

    def tup():
        els = []
        for j in range(3):
            x = n.Note('C4', quarterLength=Fraction(2, 3))
            els.append(x)
        return score(part(m44(*els, n.Note('D4', quarterLength=2))))

    def nested():
        # a part in two streams at the same time
        p = part(m44(n.Note('C4', quarterLength=4)))
        s = score(p)
        o = st.Opus()
        o.insert(0, p)
        s.other = o
        return s

    def flatpart():
        p = st.Part()
        for x in ('C4', 'D4', 'E4', 'F4', 'G4'):
            p.append(n.Note(x))
        return p

    def nomeasures():
        s = st.Score()
        s.insert(0, flatpart())
        return s

    return {
        'note': lambda: n.Note('C#4'), 'rest': lambda: n.Rest(), 'chord': lambda: c.Chord(['C4', 'E-4']),
        'note-long': lambda: n.Note('C4', quarterLength=5), 'note-odd': lambda: n.Note('C4', quarterLength=Fraction(5, 4)),
        'pitch': lambda: m21.pitch.Pitch('B-3'), 'duration': lambda: q(1.5), 'dynamic': lambda: m21.dynamics.Dynamic('mf'),
        'scale': lambda: m21.scale.MajorScale('D'),
        'measure': lambda: measure(n.Note('C4'), n.Note('D4')), 'voice': lambda: _voice(), 'part': lambda: part(m44(n.Note('C4', quarterLength=4))),
        'flat part': flatpart, 'stream': lambda: _stream(), 'score without measures': nomeasures,
        'hidden': lambda: score(part(m44(n.Note('C4', quarterLength=Fraction(3, 2)), hid(Fraction(5, 2))))),
        'hidden long': lambda: score(part(m44(hid(Fraction(5, 4)), n.Note('C4', quarterLength=Fraction(11, 4))))),
        'odd': lambda: score(part(m44(n.Note('C4', quarterLength=Fraction(5, 4)), n.Rest(quarterLength=Fraction(11, 4))))),
        'zero': lambda: score(part(m44(n.Note('C4', quarterLength=4)), measure())),
        'empty part': lambda: score(part(m44(n.Note('C4', quarterLength=4))), st.Part()),
        'written': with_sounding, 'sounding': sounding, 'ottava': ottava, 'tremolo': trem, 'voices': voices, 'metadata': meta, 'lyric': lyr,
        'group': inmeasures, 'marks': dyn, 'tuplet': tup, 'two sites': nested,
        'beams none': lambda: score(part(m44(*[n.Note('C4', quarterLength=Fraction(1, 2)) for _ in range(8)]))),
        'accidentals': lambda: score(part(m44(n.Note('C#4'), n.Note('C4'), n.Note('C#4'), n.Note('B-4')))),
        'no clef': lambda: score(part(measure(n.Note('C4', quarterLength=4)))),
        'over full': lambda: score(part(m44(n.Note('C4', quarterLength=4), n.Note('D4', quarterLength=1)))),
        'tied': lambda: _tied(score, part, m44, measure),
        'grace': lambda: score(part(m44(n.Note('C4').getGrace(), n.Note('D4', quarterLength=4)))),
        'repeat': lambda: _repeat(score, part, m44),
        'different': lambda: score(part(m44(n.Note('C4', quarterLength=4)), measure(n.Note('C4', quarterLength=4))), part(m44(n.Note('C4', quarterLength=4)))),
        'unpitched': lambda: score(part(m44(n.Unpitched(), n.Unpitched(), n.Rest(quarterLength=2)))),
    }


def _voice():
    v = m21.stream.Voice()
    v.append(m21.note.Note('C4'))
    v.append(m21.note.Note('D4', quarterLength=3))
    return v


def _stream():
    v = m21.stream.Stream()
    v.append(m21.note.Note('C4', quarterLength=5))
    v.append(m21.note.Note('D4', quarterLength=3))
    return v


def _tied(score, part, m44, measure):
    a, b = m21.note.Note('C4', quarterLength=4), m21.note.Note('C4', quarterLength=4)
    a.tie, b.tie = m21.tie.Tie('start'), m21.tie.Tie('stop')
    return score(part(m44(a), measure(b)))


def _repeat(score, part, m44):
    m = m44(m21.note.Note('C4', quarterLength=4))
    m.leftBarline, m.rightBarline = m21.bar.Repeat(direction='start'), m21.bar.Repeat(direction='end')
    return score(part(m))


SOURCES = {'built': S.build, 'novoice': lambda M: S.build(M, novoice=True),
           'humdrum': lambda M: kern_to_m21(S.to_kern(M)), 'mei': lambda M: mei_to_m21(S.to_mei(M))}


def make(case):
    if 'special' in case:
        return special()[case['special']]()
    return SOURCES[case['source']](case['model'])


def cases(tier, stats):
    q = tier == 'quick'
    n = 0
    for k in special():
        n += 1
        yield 'special/' + k, {'special': k, 'ops': 7}
    batch = []
    for key, M in pool.pool(6 if q else 50, 3 if q else 20):
        for src in SOURCES:
            if src == 'novoice' and hash_(key) % 4:
                continue
            n += 1
            c = {'model': M, 'source': src, 'ops': 4 if q else 7}
            yield f'{key}/{src}', c
        batch.append([key, M])
    for i in range(0, len(batch), 25):
        n += 1
        yield f'process/{i}', {'process': [{'model': M, 'source': 'built'} for k, M in batch[i:i + 25]],
                               'seeds': 3 if q else 6}
    yield 'process/special', {'process': [{'special': k} for k in special()], 'seeds': 3 if q else 6}
    stats.states, stats.transitions = n, n * len(walk(FOUR))


def hash_(s):
    return int(hashlib.md5(s.encode()).hexdigest()[:6], 16)


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return f'...{x[max(0, i - 40):i + 40]!r} became ...{y[max(0, i - 40):i + 40]!r}'
    return f'{len(a)} items became {len(b)}'


def run(case):
    disc = []
    if 'process' in case:
        outs = []
        for seed in range(case['seeds']):
            env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(case['process'], default=str), text=True,
                               capture_output=True, env=env, timeout=600, check=False)
            if p.returncode:
                raise RuntimeError('child process failed: ' + p.stderr[-300:])
            outs.append(json.loads(p.stdout))
        for s, o in enumerate(outs[1:]):
            for i, (a, b) in enumerate(zip(outs[0], o)):
                for op in a:
                    if a[op] != b[op]:
                        disc.append((f'process {op}', f'another process (hash seed {s + 1}) writes a different document for item {i}: '
                                     + first_diff(a[op].split('\n'), b[op].split('\n'))))
        return disc[:5], str(len(outs[0]))
    try:
        err = io.StringIO()
        with contextlib.redirect_stderr(err):
            obj = make(case)
    except Exception as e:   # pylint: disable=broad-except
        return [], 'no source'
    isscore = isinstance(obj, m21.stream.Score)
    ops = (SEVEN if case['ops'] == 7 else FOUR) if isscore else NONSCORE
    ref = {}
    for op in ops:
        ref[op] = write(make(case), op)
    before = fingerprint(obj)
    prev = 'start'
    for op in walk(ops):
        got = write(obj, op)
        if got != ref[op]:
            disc.append((f'{prev}>{op}', 'a different document than from a fresh object: ' + first_diff(ref[op].split('\n'), got.split('\n'))))
        now = fingerprint(obj)
        if now != before:
            disc.append((op, 'the object changed: ' + first_diff(before, now)))
        if disc:
            break
        prev = op
    return disc, str(sorted(ref))[:50] + hashlib.md5(str(before).encode()).hexdigest()


def traces_of(case):
    return len(walk(FOUR if case.get('ops') == 4 else SEVEN)) if 'process' not in case else len(case['process']) * case['seeds'] * 4


def main():
    out = []
    for case in json.loads(sys.stdin.read()):
        err = io.StringIO()
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            docs = {}
            for op in FOUR:
                try:
                    obj = make(case)
                except Exception:   # pylint: disable=broad-except
                    continue
                docs[op] = write(obj, op)
        out.append(docs)
    print(json.dumps(out))


if __name__ == '__main__':
    main()
