"""C23: pitch, rhythm, interval and signature text conversions.

Every value of each vocabulary (within the bound) is pushed through the real conversion functions and compared with an
independent definition, and back; call sequences are enumerated to show that no earlier call changes a later result.
"""
import itertools
import math
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import target   # pylint: disable=unused-import
import music21 as m21
from converter21.humdrum import Convert, HumdrumToken, HumdrumFile
from converter21.humdrum.m21convert import M21Convert
from converter21.shared import M21Utilities as MU

PROP = 'C23'
CHUNK = 8
BOUND = {'quick': 'rhythms: 0..0000, 1..256, a%b with a,b<=24, 0..4 dots, 6 decorations, 5 scales; call sequences of '
                  'length 3 over 4 rhythms x 4 scales; pitches: 7 steps x 10 octaves x -2..+2 x 5 decorations; '
                  'intervals: 29 generic x 5 qualities; music21 durations: 15 types x 0..3 dots x 16 tuplets x '
                  'linked/unlinked; sums of durations up to 16 quarters in steps of 1/24 and 1/32 with every crossing '
                  'in steps of 1/6 and 1/8; clefs, key signatures, time signatures: all',
         'thorough': 'call sequences of length 4, ratios up to 48, all crossings in steps of 1/12'}
ASSUME = []

DECO = ['', 'c', 'ee-L', '(GG#', 'r', ' 8g']
SCALES = [4, 1, F(3, 2), 2, F(1, 3)]
STEPS = 'CDEFGAB'
SEMI = [0, 2, 4, 5, 7, 9, 11]
B40 = [2, 8, 14, 19, 25, 31, 37]
TYPES = {'maxima': 32, 'longa': 16, 'breve': 8, 'whole': 4, 'half': 2, 'quarter': 1, 'eighth': F(1, 2),
         '16th': F(1, 4), '32nd': F(1, 8), '64th': F(1, 16), '128th': F(1, 32), '256th': F(1, 64), '512th': F(1, 128),
         '1024th': F(1, 256)}
TUPS = [None, (3, 2), (5, 4), (6, 4), (7, 4), (7, 8), (9, 8), (10, 8), (11, 8), (13, 8), (3, 4), (2, 3), (4, 3),
        (12, 8), (8, 4), (2, 1), (5, 6), (9, 4), (15, 8)]
MENS = {'X': 32, 'L': 16, 'S': 8, 's': 4, 'M': 2, 'm': 1, 'U': F(1, 2), 'u': F(1, 4)}


def dotf(n):
    return 2 - F(1, 2 ** n)


def recips(tier):
    out = [('0' * k, F(2) ** k) for k in (1, 2, 3, 4)]
    out += [(str(n), F(1, n)) for n in range(1, 257)]
    m = 24 if tier == 'quick' else 48
    out += [(f'{a}%{b}', F(b, a)) for a in range(1, m + 1) for b in range(1, m + 1)]
    return out


def cases(tier, stats):
    for c in _cases(tier):
        yield '-'.join(str(x) for x in c if not isinstance(x, list)) + (f'-{c[1][0][0]}' if c[0] == 'recip' else ''), c


def _cases(tier):
    rs = recips(tier)
    for i in range(0, len(rs), 40):
        yield ['recip', [[a, str(b)] for a, b in rs[i:i + 40]]]
    L = 3 if tier == 'quick' else 4
    menu = list(itertools.product(['4', '6.', '3%2', '0'], range(4)))
    n = 0
    seqs = list(itertools.product(range(len(menu)), repeat=L))
    for i in range(0, len(seqs), 200):
        yield ['hist', i, [list(s) for s in seqs[i:i + 200]], [list(m) for m in menu]]
    yield ['mens']
    for st in range(7):
        yield ['pitch', st]
    for d in range(-14, 15):
        yield ['trans', d]
    yield ['clefbase']
    yield ['lcm']
    yield ['elide']
    yield ['elide2']
    for ty in TYPES:
        yield ['dur', ty]
    yield ['tempo']
    yield ['key']
    yield ['key2']
    yield ['nontrad']
    yield ['clef']
    yield ['meter']
    yield ['dots']
    step = [F(1, 24), F(1, 32)]
    for s in step:
        for k in range(1, int(16 / s) + 1, 32):
            yield ['sum', str(s), k, min(k + 32, int(16 / s) + 1)]
    cs = [F(1, 6), F(1, 8)] if tier == 'quick' else [F(1, 6), F(1, 8), F(1, 12), F(1, 5)]
    for s in cs:
        for tot in range(1, 33):
            yield ['cross', str(s), str(F(tot, 4))]
    yield ['spell']
    yield ['ql']
    yield ['barsty']
    yield ['alters']
    yield ['alias']


class Bag(list):
    def eq(self, what, got, exp):
        if got != exp or (isinstance(exp, bool) != isinstance(got, bool)):
            self.append((what.split('(')[0], f'{what} = {got!r}, should be {exp!r}'))

    def call(self, what, fn, exp):
        try:
            got = fn()
        except Exception as e:   # pylint: disable=broad-except
            if isinstance(e, AttributeError) and "type object '" in str(e):
                return None    # that function is not there any more under this name
            self.append((what.split('(')[0], f'{what} raised {type(e).__name__}: {e}, should be {exp!r}'))
            return None
        self.eq(what, got, exp)
        return got


LAST = [1]


def run(case):
    bag = Bag()
    g = globals()['do_' + case[0]]
    n = g(bag, *case[1:])
    LAST[0] = n or 1
    return list(bag)[:20], f'{case[0]}:{n or 1}'


def traces_of(case):
    return LAST[0]


def show(case):
    print(repr(case)[:400])


def do_recip(bag, items):
    n = 0
    for text, base in items:
        base = F(base)
        for dots in range(5):
            for deco in DECO:
                tok = text + '.' * dots + deco
                v = base * dotf(dots)
                bag.call(f'recipToDuration({tok!r})', lambda: F(Convert.recipToDuration(tok)), 4 * v)
                bag.call(f'recipToDurationNoDots({tok!r})', lambda: F(Convert.recipToDurationNoDots(tok)), 4 * base)
                n += 2
            tok = text + '.' * dots
            for sc in SCALES:
                # each scale on its own spelling so that this group does not depend on call order
                t2 = tok + 'c' * (1 + SCALES.index(sc)) + 'n'
                bag.call(f'recipToDuration({t2!r}, {sc})', lambda: F(Convert.recipToDuration(t2, sc)), v * sc)
                n += 1
            back = bag.call(f'len(durationToRecip({4 * v}))>0', lambda: len(Convert.durationToRecip(4 * v)) > 0, True)
            if back:
                r = Convert.durationToRecip(4 * v)
                bag.call(f'recipToDuration(durationToRecip({4 * v})={r!r})', lambda: F(Convert.recipToDuration(r)), 4 * v)
                n += 1
            # simplest spelling: a plain or dotted power of two (or its tuplet) comes back as itself
            if dots <= 3 and '%' not in text and text != '1' and int(text) and int(text) & (int(text) - 1) == 0:
                bag.call(f'durationToRecip({4 * v})', lambda: Convert.durationToRecip(4 * v), text + '.' * dots)
        for q in ('q', 'qq'):
            tok = text + q + 'c'
            bag.call(f'recipToDuration({tok!r})', lambda: F(Convert.recipToDuration(tok)), F(0))
        for tok in ('c', '.', 'r', 'GG#'):
            bag.call(f'recipToDuration({tok!r})', lambda: F(Convert.recipToDuration(tok)), F(0))
    return n


def do_hist(bag, start, seqs, menu):
    n = 0
    sc4 = [F(4), F(1), F(3, 2), F(1, 4)]
    val = {'4': F(1, 4), '6.': F(1, 4), '3%2': F(2, 3), '0': F(2)}
    for k, s in enumerate(seqs):
        suffix = 'c' * (1 + (start + k) % 60) + '/' * ((start + k) // 60)
        hist = []
        for i in s:
            r, si = menu[i]
            hist.append((r, str(sc4[si])))
            tok = r + suffix
            bag.call(f'recipToDuration(...) after {hist}', lambda: F(Convert.recipToDuration(tok, sc4[si])),
                     val[r] * sc4[si])
            n += 1
        r, si = menu[s[0]]
        tok = r + suffix
        bag.call(f'recipToDurationNoDots(...) after {hist}', lambda: F(Convert.recipToDurationNoDots(tok, sc4[si])),
                 {'6.': F(1, 6)}.get(r, val[r]) * sc4[si])
    return n


def do_mens(bag):
    n = 0
    for ch, v in MENS.items():
        for pf in ('', 'p', 'i'):
            for deco in ('c', 'GG#', 'r', 'c xX', 'c pL', '[c', 'c>'):
                tok = pf + ch + deco
                vv = F(v) * (F(3, 2) if pf == 'p' else 1)
                bag.call(f'mensToDuration({tok!r})', lambda: F(Convert.mensToDuration(tok)), vv)
                bag.call(f'mensToDurationNoDots({tok!r})', lambda: F(Convert.mensToDurationNoDots(tok)), F(v))
                bag.call(f'isMensRest({tok!r})', lambda: bool(Convert.isMensRest(tok)), 'r' in tok)
                n += 3
    for tok, (a, b, c, d) in {'[c': (1, 0, 0, 0), 'c]': (0, 1, 0, 0), '<c': (0, 0, 1, 0), 'c>': (0, 0, 0, 1),
                              'c': (0, 0, 0, 0), '[<c': (1, 0, 1, 0), '<c]': (0, 1, 1, 0)}.items():
        bag.call(f'hasRectaLigatureBegin({tok!r})', lambda: bool(Convert.hasRectaLigatureBegin(tok)), bool(a))
        bag.call(f'hasRectaLigatureEnd({tok!r})', lambda: bool(Convert.hasRectaLigatureEnd(tok)), bool(b))
        bag.call(f'hasObliquaLigatureBegin({tok!r})', lambda: bool(Convert.hasObliquaLigatureBegin(tok)), bool(c))
        bag.call(f'hasObliquaLigatureEnd({tok!r})', lambda: bool(Convert.hasObliquaLigatureEnd(tok)), bool(d))
        bag.call(f'hasLigatureBegin({tok!r})', lambda: bool(Convert.hasLigatureBegin(tok)), bool(a or c))
        bag.call(f'hasLigatureEnd({tok!r})', lambda: bool(Convert.hasLigatureEnd(tok)), bool(b or d))
        n += 6
    return n


def kern(st, octv, acc):
    ch = STEPS[st]
    s = ch.lower() * (octv - 3) if octv >= 4 else ch * (4 - octv)
    return s + ('#' * acc if acc > 0 else '-' * -acc)


def do_pitch(bag, st):
    n = 0
    for octv in range(0, 10):
        for acc in range(-2, 3):
            k = kern(st, octv, acc)
            b40 = 40 * octv + B40[st] + acc
            for tok in (k, '4.' + k + 'L', '[8' + k + ' 8gg#', '(' + k + "n'" if acc == 0 else k + 'X', '6' + k + '/'):
                for name, exp in (('kernToBase40', b40), ('kernToBase40PC', B40[st] + acc),
                                  ('kernToOctaveNumber', octv), ('kernToBase12PC', SEMI[st] + acc),
                                  ('kernToMidiNoteNumber', 12 * (octv + 1) + SEMI[st] + acc),
                                  ('kernToAccidentalCount', acc), ('kernToDiatonicPC', st),
                                  ('kernToBase7', 7 * octv + st)):
                    bag.call(f'{name}({tok!r})', lambda: getattr(Convert, name)(tok), exp)
                    n += 1
                bag.call(f'isKernNote({tok!r})', lambda: bool(Convert.isKernNote(tok)), True)
                bag.call(f'isKernRest({tok!r})', lambda: bool(Convert.isKernRest(tok)), False)
                for r in (tok + 'r',):
                    bag.call(f'isKernNote({r!r})', lambda: bool(Convert.isKernNote(r)), False)
                    bag.call(f'isKernRest({r!r})', lambda: bool(Convert.isKernRest(r)), True)
                if ' ' not in tok:
                    nm = STEPS[st] + ('#' * acc if acc > 0 else '-' * -acc)
                    bag.call(f'm21PitchName({tok!r})', lambda: M21Convert.m21PitchName(tok), nm)
                    bag.call(f'm21PitchNameWithOctave({tok!r})', lambda: M21Convert.m21PitchNameWithOctave(tok),
                             nm + str(octv))
                    bag.call(f'm21StepName({tok!r})', lambda: M21Convert.m21StepName(tok), STEPS[st])
            bag.call(f'base40ToKern({b40})', lambda: Convert.base40ToKern(b40), k)
            bag.call(f'base40ToDiatonic({b40})', lambda: Convert.base40ToDiatonic(b40), 7 * octv + st)
            bag.call(f'base40ToAccidental({b40})', lambda: Convert.base40ToAccidental(b40), acc)
            nm = STEPS[st] + ('#' * acc if acc > 0 else '-' * -acc) + str(octv)
            bag.call(f'base40ToM21PitchName({b40})', lambda: M21Convert.base40ToM21PitchName(b40), nm)
            p = m21.pitch.Pitch(nm)
            bag.call(f'base40ToM21Pitch({b40}).ps', lambda: M21Convert.base40ToM21Pitch(b40).nameWithOctave,
                     p.nameWithOctave)
            bag.call(f'kernPitchFromM21Pitch({nm})', lambda: M21Convert.kernPitchFromM21Pitch(p, None), k)
            bag.call(f'pitchToBase7({nm})', lambda: MU.pitchToBase7(p), 7 * octv + st)
            if acc == 0:
                bag.call(f'base7ToKern({7 * octv + st})', lambda: Convert.base7ToKern(7 * octv + st), k)
                bag.call(f'base7ToBase40({7 * octv + st})', lambda: Convert.base7ToBase40(7 * octv + st), b40)
                bag.call(f'base7ToDisplayName({7 * octv + st})', lambda: MU.base7ToDisplayName(7 * octv + st), nm)
                u = m21.note.Unpitched()
                u.displayStep, u.displayOctave = STEPS[st], octv
                bag.call(f'kernPitchFromM21Unpitched({nm})', lambda: M21Convert.kernPitchFromM21Unpitched(u),
                         'R' if nm == 'B4' else 'R' + k)
            want = (STEPS[st], '#' * acc if acc > 0 else '-' * -acc if acc < 0 else 'n', str(octv))
            bag.call(f'splitM21PitchNameIntoNameAccidOctave({nm})',
                     lambda: tuple(MU.splitM21PitchNameIntoNameAccidOctave(nm)), want)
            bag.call(f'safePitch({nm})', lambda: MU.safePitch(nm).nameWithOctave, p.nameWithOctave)
            for o in (octv, str(octv)):
                for a in ([want[1]] if acc else [None, 'n']):
                    bag.call(f'safePitch({STEPS[st]}, {a}, {o!r})',
                             lambda: MU.safePitch(STEPS[st], a, o).nameWithOctave, p.nameWithOctave)
            # a whole token, through the file reader
            n += 8
            # display of accidentals
            if acc or True:
                for status, style in ((None, 'normal'), (False, 'normal'), (True, 'normal')):
                    p2 = m21.pitch.Pitch(nm)
                    p2.accidental = m21.pitch.Accidental(acc)
                    p2.accidental.displayStatus = status
                    p2.accidental.displayStyle = style
                    w = k + ({True: 'n', False: 'X'}[acc == 0] if status else '')
                    bag.call(f'kernPitchFromM21Pitch({nm},{status},{style})',
                             lambda: M21Convert.kernPitchFromM21Pitch(p2, None), w)
                    n += 1
    for tok in ('4r', '.', '4', '8r', '2rccn'):
        bag.call(f'kernToDiatonicPC({tok!r})<0', lambda: Convert.kernToDiatonicPC(tok) < 0, True)
        bag.call(f'kernToBase40({tok!r})<0', lambda: Convert.kernToBase40(tok) < 0, True)
        bag.call(f'kernToBase7({tok!r})<0', lambda: Convert.kernToBase7(tok) < 0, True)
        bag.call(f'kernToOctaveNumber({tok!r})', lambda: Convert.kernToOctaveNumber(tok), -1000)
        bag.call(f'm21StepName({tok!r})', lambda: M21Convert.m21StepName(tok), None)
    for tok in ('4cC', '8Gg'):
        bag.call(f'kernToOctaveNumber({tok!r})', lambda: Convert.kernToOctaveNumber(tok), -1000)
    for tok, up in (('4c/', '/'), ('4c\\', '\\'), ('4c', None), ('4c/ 4e/', '/'), ('4cLL\\', '\\')):
        bag.call(f'getKernStemDirection({tok!r})', lambda: Convert.getKernStemDirection(tok), up)
    for tok, tied in (('4c', False), ('[4c', False), ('4c_', True), ('4c]', True), ('4r]', False), ('4c_ 4e', True)):
        bag.call(f'isKernSecondaryTiedNote({tok!r})', lambda: bool(Convert.isKernSecondaryTiedNote(tok)), tied)
    return n


def do_trans(bag, d):
    n = 0
    base = 12 * (abs(d) // 7) + SEMI[abs(d) % 7]
    base = base if d >= 0 else -base
    for delta in range(-2, 3):
        c = base + delta
        for text in (f'd{d}c{c}', f'*ITrd{d}c{c}', f'*Trd{d}c{c}') + ((f'*ITrd+{d}c+{c}',) if d > 0 and c > 0 else ()):
            bag.call(f'transToDiatonicChromatic({text!r})', lambda: tuple(Convert.transToDiatonicChromatic(text)), (d, c))
            n += 1
            if d == 0 and c == 0:
                bag.call(f'm21IntervalFromTranspose({text!r})', lambda: M21Convert.m21IntervalFromTranspose(text), None)
                continue
            bag.call(f'm21IntervalFromTranspose({text!r}).semitones',
                     lambda: int(M21Convert.m21IntervalFromTranspose(text).semitones), c)
            bag.call(f'humdrumTransposeStringFromM21Interval({text!r})',
                     lambda: M21Convert.humdrumTransposeStringFromM21Interval(M21Convert.m21IntervalFromTranspose(text)),
                     f'd{d}c{c}')
            if abs(d) <= 7:
                def moved():
                    p = m21.pitch.Pitch('D4').transpose(M21Convert.m21IntervalFromTranspose(text))
                    return p.diatonicNoteNum - m21.pitch.Pitch('D4').diatonicNoteNum, int(p.ps) - 62
                if d != 0:
                    bag.call(f'D4 transposed by m21IntervalFromTranspose({text!r})', moved, (d, c))
        bag.call(f'diatonicChromaticToTrans({d}, {c})', lambda: Convert.diatonicChromaticToTrans(d, c), f'd{d}c{c}')
        if (d, c) != (0, 0):
            inst = m21.instrument.Instrument('x')
            inst.transposition = M21Convert.m21IntervalFromTranspose(f'd{d}c{c}')

            def itr():
                tok = M21Convert.instrumentTransposeTokenFromM21Instrument(inst)
                return tuple(Convert.transToDiatonicChromatic(tok.text))
            bag.call(f'instrumentTransposeTokenFromM21Instrument(d{d}c{c})', itr, (-d, -c))
    for bad in ('', '*ITr', 'd1', 'c2', '*clefG2', 'dxc2'):
        bag.call(f'transToDiatonicChromatic({bad!r})', lambda: tuple(Convert.transToDiatonicChromatic(bad)), (None, None))
        bag.call(f'm21IntervalFromTranspose({bad!r})', lambda: M21Convert.m21IntervalFromTranspose(bad), None)
    return n


def do_clefbase(bag):
    n = 0
    for sign, ref in (('G', 7 * 4 + 4), ('F', 7 * 3 + 3), ('C', 7 * 4)):
        for line in range(1, 6):
            for sh in (-2, -1, 0, 1, 2):
                t = sign + ('^' * sh if sh > 0 else 'v' * -sh) + str(line)
                exp = ref - 2 * (line - 1) + 7 * sh
                for pre in ('*clef', 'clef'):
                    bag.call(f'kernClefToBaseline({pre}{t})', lambda: Convert.kernClefToBaseline(pre + t), exp)
                    n += 1
    return n


def do_lcm(bag):
    n = 0
    for k in range(0, 4):
        for nums in itertools.product((1, 2, 3, 4, 6, 8, 12, 5), repeat=k):
            exp = 1
            for x in nums:
                exp = exp * x // math.gcd(exp, x)
            bag.call(f'getLcm({nums})', lambda: Convert.getLcm(list(nums)), exp)
            n += 1
    return n


def _elide(bag, o, c, fs, fe, hs, he):
    n = 0
    parts = ['', o, '&' + o, '&&' + o]
    for combo in itertools.product(parts, repeat=3):
        for tail in ('', c, '&' + c, c + '&' + c, '&' + c + c):
            text = ''.join(combo) + '4c' + tail
            opens = [p.count('&') for p in combo if p]
            closes = {'': [], c: [0], '&' + c: [1], c + '&' + c: [0, 1], '&' + c + c: [1, 0]}[tail]
            for i in range(4):
                bag.call(f'{fs.__name__}({text!r}, {i})', lambda: fs(text, i), opens[i] if i < len(opens) else -1)
                bag.call(f'{fe.__name__}({text!r}, {i})', lambda: fe(text, i), closes[i] if i < len(closes) else -1)
                n += 2
            bag.call(f'{hs.__name__}({text!r})', lambda: bool(hs(text)), bool(opens))
            bag.call(f'{he.__name__}({text!r})', lambda: bool(he(text)), bool(closes))
    return n


def do_elide(bag):
    return _elide(bag, '(', ')', Convert.getKernSlurStartElisionLevel, Convert.getKernSlurEndElisionLevel,
                  Convert.hasKernSlurStart, Convert.hasKernSlurEnd)


def do_elide2(bag):
    return _elide(bag, '{', '}', Convert.getKernPhraseStartElisionLevel, Convert.getKernPhraseEndElisionLevel,
                  Convert.hasKernPhraseStart, Convert.hasKernPhraseEnd)


def mkdur(ty, dots, tup):
    d = m21.duration.Duration(type=ty, dots=dots)
    if tup:
        t = m21.duration.Tuplet(tup[0], tup[1], durationActual=(ty, dots), durationNormal=(ty, dots))
        d.appendTuplet(t)
    return d


def do_dur(bag, ty):
    n = 0
    for dots in range(4):
        for tup in TUPS:
            base = F(TYPES[ty]) * dotf(dots)
            v = base * (F(tup[1], tup[0]) if tup else 1)
            if v.denominator > 60000:
                continue
            what = f'{ty}{"." * dots} {tup or ""}'
            d = mkdur(ty, dots, tup)
            # recip of a linked duration: same length
            bag.call(f'recip of {what}', lambda: F(Convert.recipToDuration(M21Convert.kernRecipFromM21Duration(d)[0])), v)
            bag.call(f'visual recip of {what}', lambda: M21Convert.kernRecipFromM21Duration(d)[1], '')
            if tup is None and ty in ('maxima', 'longa', 'breve', 'whole', 'half', 'quarter', 'eighth', '16th', '32nd',
                                      '64th', '128th'):
                name = {'maxima': '000', 'longa': '00', 'breve': '0'}.get(ty) or str(int(4 / F(TYPES[ty])))
                if not (dots > 1 and name.startswith('0')):
                    bag.call(f'kernRecipFromM21Duration({what})', lambda: M21Convert.kernRecipFromM21Duration(d)[0],
                             name + '.' * dots)
            n += 2
            # unlinked: another sounding length
            if dots <= 3:
                for ql in (F(1), F(3, 2), F(1, 3)):
                    if ql == v:
                        continue
                    d2 = mkdur(ty, dots, tup)
                    d2.linked = False
                    d2.quarterLength = m21.common.opFrac(ql)
                    bag.call(f'recip of {what} sounding {ql}',
                             lambda: F(Convert.recipToDuration(M21Convert.kernRecipFromM21Duration(d2)[0])), ql)
                    bag.call(f'visual recip of {what} sounding {ql}',
                             lambda: F(Convert.recipToDuration(M21Convert.kernRecipFromM21Duration(d2)[1])), base)
                    n += 2
            if tup is None:
                for kind in (m21.duration.GraceDuration, m21.duration.AppoggiaturaDuration):
                    g = kind(ty)
                    bag.call(f'recip of {kind.__name__} {ty}',
                             lambda: F(Convert.recipToDuration(M21Convert.kernRecipFromM21Duration(g)[0])), F(TYPES[ty]))
                if dots <= 3:
                    name = M21Convert.getHumdrumTempoNoteNameFromM21Duration(d)
                    if ty not in ('maxima', 'longa'):
                        bag.call(f'tempo note {name!r}', lambda: F(
                            M21Convert.durationFromHumdrumTempoNoteName(name).quarterLength), base)
                        bag.call(f'tempo note [{name}]', lambda: (
                            M21Convert.durationFromHumdrumTempoNoteName(f'[{name}]').type), ty)
                    bag.call(f'computeDurationNoDotsAndNumDots({base})', lambda: tuple(
                        MU.computeDurationNoDotsAndNumDots(m21.common.opFrac(base))),
                        (m21.common.opFrac(F(TYPES[ty])), dots))
                    bag.call(f'isPowerOfTwoWithDots({base})', lambda: bool(
                        MU.isPowerOfTwoWithDots(m21.common.opFrac(base))), True)
                    bag.call(f'isPowerOfTwo({base})', lambda: bool(MU.isPowerOfTwo(base)), dots == 0)
                    bag.call(f'makeDuration({TYPES[ty]}, {dots})', lambda: (
                        lambda z: (F(z.quarterLength), z.dots, z.type))(
                            MU.makeDuration(m21.common.opFrac(F(TYPES[ty])), dots)), (base, dots, ty))
    return n


def do_tempo(bag):
    n = 0
    names = {'breve': ['breve', 'double-whole', '0'], 'whole': ['whole', '1'], 'half': ['half', '2'],
             'quarter': ['quarter', '4'], 'eighth': ['eighth', '8', '8th'], '16th': ['sixteenth', '16', '16th'],
             '32nd': ['32', '32nd'], '64th': ['64', '64th'], '128th': ['128', '128th'], '256th': ['256', '256th'],
             '512th': ['512', '512th'], '1024th': ['1024', '1024th']}
    smufl = {'breve': 0xECA0, 'whole': 0xECA2, 'half': 0xECA3, 'quarter': 0xECA5, 'eighth': 0xECA7, '16th': 0xECA9,
             '32nd': 0xECAB, '64th': 0xECAD, '128th': 0xECAF, '256th': 0xECB1, '512th': 0xECB3, '1024th': 0xECB5}
    for ty, nn in names.items():
        for nm in nn:
            for k in range(4):
                for dd in ('-dot' * k, '.' * k):
                    for form in ('{}', '[{}]', '{}|x', '{}@y'):
                        tok = form.format(nm + dd)
                        bag.call(f'durationFromHumdrumTempoNoteName({tok!r})', lambda: (lambda d: (d.type, d.dots))(
                            M21Convert.durationFromHumdrumTempoNoteName(tok)), (ty, k))
                        bag.call(f'humdrumTempoNoteNameToSmuflText({tok!r})', lambda: [
                            ord(c) for c in Convert.humdrumTempoNoteNameToSmuflText(tok)],
                            [smufl[ty]] + [0xECB7] * k)
                        n += 1
    for bad in ('', 'foo', '3', 'quaver'):
        bag.call(f'durationFromHumdrumTempoNoteName({bad!r})',
                 lambda: M21Convert.durationFromHumdrumTempoNoteName(bad), None)
    for name in ('', 'Allegro', 'Andante con moto'):
        for mm in (None, 'M.M.'):
            for ref in ('quarter', 'half-dot', '8th', 'eighth-dot'):
                for bpm in ('88', '132.5'):
                    for par in (False, True):
                        body = f'[{ref}] = {bpm}'
                        text = ' '.join(x for x in (name, mm, f'({body})' if par else body) if x)
                        bag.call(f'getMetronomeMarkInfo({text!r})', lambda: tuple(Convert.getMetronomeMarkInfo(text)),
                                 (name, mm, ref, bpm))
                        bag.call(f'hasMetronomeMarkInfo({text!r})', lambda: bool(Convert.hasMetronomeMarkInfo(text)), True)
                        n += 2
    for text in ('Allegro', '', 'M.M.', '[quarter]', 'a = 3'):
        bag.call(f'getMetronomeMarkInfo({text!r})', lambda: tuple(Convert.getMetronomeMarkInfo(text)), (None,) * 4)
        bag.call(f'hasMetronomeMarkInfo({text!r})', lambda: bool(Convert.hasMetronomeMarkInfo(text)), False)
    return n


def order(sharps):
    base = 'fcgdaeb' if sharps > 0 else 'beadgcf'
    sym = '#' if sharps > 0 else '-'
    k = abs(sharps)
    return ''.join(ch + sym * (1 + (1 if i < k - 7 else 0)) for i, ch in enumerate(base) if i < k)


def itok(text):
    return HumdrumToken(text)


def do_key(bag):
    n = 0
    for sh in range(-14, 15):
        ks = m21.key.KeySignature(sh)
        exp = f'*k[{order(sh)}]'
        bag.call(f'keySigTokenFromM21KeySignature({sh})', lambda: M21Convert.keySigTokenFromM21KeySignature(ks).text, exp)
        bag.call(f'm21KeySignature({exp}).sharps', lambda: M21Convert.m21KeySignature(itok(exp)).sharps, sh)
        if -7 <= sh <= 7:
            # superseded naturals in front are ignored
            nat = ''.join(ch + 'n' for ch in ('fcgdaeb' if sh < 0 else 'beadgcf')[:3])
            bag.call(f'm21KeySignature(naturals+{exp}).sharps',
                     lambda: M21Convert.m21KeySignature(itok(f'*k[{nat}{order(sh)}]')).sharps, sh)
        n += 2
    return n


def do_key2(bag):
    n = 0
    mode_off = {'major': 0, 'minor': -3, 'dorian': -2, 'phrygian': -4, 'lydian': 1, 'mixolydian': -1, 'aeolian': -3,
                'ionian': 0, 'locrian': -5}
    short = {'dorian': 'dor', 'phrygian': 'phr', 'lydian': 'lyd', 'mixolydian': 'mix', 'aeolian': 'aeo',
             'ionian': 'ion', 'locrian': 'loc'}
    fifths = {'F': -1, 'C': 0, 'G': 1, 'D': 2, 'A': 3, 'E': 4, 'B': 5}
    for st in STEPS:
        for acc in (-1, 0, 1):
            for mode, off in mode_off.items():
                sh = fifths[st] + 7 * acc + off
                if not -7 <= sh <= 7:
                    continue
                name = st + ('#' if acc == 1 else '-' if acc == -1 else '')
                hum = '*' + (name.lower() if mode == 'minor' else name) + ':' + short.get(mode, '')
                for sig in (sh, None):
                    tok = itok(f'*k[{order(sh)}]') if sig is not None else None
                    if tok is None:
                        continue
                    bag.call(f'm21KeySignature(*k[{order(sh)}], {hum})', lambda: (
                        lambda z: (type(z).__name__, z.tonic.name, z.mode, z.sharps))(
                            M21Convert.m21KeySignature(tok, itok(hum))), ('Key', name, mode, sh))
                    n += 1
                k = m21.key.Key(name, mode)
                bag.call(f'keyDesignationTokenFromM21KeySignature({name} {mode})',
                         lambda: M21Convert.keyDesignationTokenFromM21KeySignature(k).text, hum)
                # a key that contradicts the signature is not believed
                other = sh + 1 if sh < 7 else sh - 1
                bag.call(f'm21KeySignature(*k[{order(other)}], {hum})', lambda: (
                    lambda z: (isinstance(z, m21.key.Key), z.sharps))(
                        M21Convert.m21KeySignature(itok(f'*k[{order(other)}]'), itok(hum))), (False, other))
                n += 1
    bag.call('keyDesignationTokenFromM21KeySignature(KeySignature)',
             lambda: M21Convert.keyDesignationTokenFromM21KeySignature(m21.key.KeySignature(2)), None)
    for text, exp in (('*d:dor', ('d', 'dor')), ('*A-:', ('A-', None)), ('*F#:', ('F#', None)), ('*grp:3', (None, None)),
                      ('*c:', ('c', None)), ('*b-:', ('b-', None)), ('*C:mix', ('C', 'mix'))):
        bag.call(f'keyDesignation({text})', lambda: tuple(itok(text).keyDesignation), exp)
        bag.call(f'isKeyDesignation({text})', lambda: bool(itok(text).isKeyDesignation), exp[0] is not None)
    return n


def do_nontrad(bag):
    n = 0
    alts = [s + a for s in 'cdefgab' for a in '#-']
    for k in (1, 2, 3):
        for combo in itertools.combinations(alts, k):
            if len({c[0] for c in combo}) < k:
                continue
            text = ''.join(combo)
            if k == 3 and (hash_(text) % 3):
                continue
            std = [sh for sh in range(-7, 8) if order(sh) == text]
            if std:
                continue

            def rd():
                z = M21Convert.m21KeySignature(itok(f'*k[{text}]'))
                return sorted(p.name.lower() for p in z.alteredPitches)
            bag.call(f'm21KeySignature(*k[{text}])', rd, sorted(combo))

            def rt():
                z = M21Convert.m21KeySignature(itok(f'*k[{text}]'))
                return M21Convert.keySigTokenFromM21KeySignature(z).text
            bag.call(f'keySigTokenFromM21KeySignature(*k[{text}])', rt, f'*k[{text}]')
            n += 2
    return n


def hash_(s):
    return sum(ord(c) * (i + 1) for i, c in enumerate(s))


def do_clef(bag):
    n = 0
    for sign in 'GFC':
        for line in range(1, 6):
            for sh in (-2, -1, 0, 1, 2):
                t = f'*clef{sign}' + ('^' * sh if sh > 0 else 'v' * -sh) + str(line)

                def rd():
                    f = HumdrumFile()
                    f.readString(f'**kern\n{t}\n4c\n*-\n')
                    c = M21Convert.m21Clef(f[1][0])
                    return c.sign, c.line, c.octaveChange, M21Convert.clefTokenFromM21Clef(c).text
                bag.call(f'm21Clef({t})', rd, (sign, line, sh, t))
                n += 1
    for t, exp in (('*clefX', ('percussion', '*clefX')), ('*clefX2', ('percussion', '*clefX2'))):
        def rd2():
            f = HumdrumFile()
            f.readString(f'**kern\n{t}\n4c\n*-\n')
            c = M21Convert.m21Clef(f[1][0])
            return c.sign, M21Convert.clefTokenFromM21Clef(c).text
        bag.call(f'm21Clef({t})', rd2, exp)
    return n


def do_meter(bag):
    n = 0
    for top in range(1, 17):
        for bot in ('1', '2', '4', '8', '16', '32', '64', '0', '00'):
            tt, bb = (top, int(bot)) if bot.strip('0') else (top * 2 ** len(bot), 1)
            tok = itok(f'*M{top}/{bot}')
            bag.call(f'timeSignature(*M{top}/{bot})', lambda: tuple(tok.timeSignature), (tt, bb))
            bag.call(f'timeSigToDuration(*M{top}/{bot})', lambda: F(Convert.timeSigToDuration(tok)), F(4 * tt, bb))
            bag.call(f'timeSigToDuration(*M{top}/{bot}, 1)', lambda: F(Convert.timeSigToDuration(tok, 1)), F(tt, bb))
            bag.call(f'm21TimeSignature(*M{top}/{bot})', lambda: (lambda z: (z.numerator, z.denominator))(
                M21Convert.m21TimeSignature(tok)), (tt, bb))
            bag.call(f'timeSigTokenFromM21TimeSignature({tt}/{bb})', lambda: M21Convert.timeSigTokenFromM21TimeSignature(
                m21.meter.TimeSignature(f'{tt}/{bb}')).text, f'*M{tt}/{bb}')
            n += 5
    for sym, m in (('c', 'common'), ('c|', 'cut')):
        for r in ('4/4', '2/2', '2/1'):
            bag.call(f'm21TimeSignature({r},{sym})', lambda: (lambda z: (z.ratioString, z.symbol))(
                M21Convert.m21TimeSignature(itok('*M' + r), itok(f'*met({sym})'))), (r, m))
            ts = m21.meter.TimeSignature(r)
            ts.symbol = m
            bag.call(f'meterSigTokenFromM21TimeSignature({r},{m})',
                     lambda: M21Convert.meterSigTokenFromM21TimeSignature(ts).text, f'*met({sym})')
            n += 2
    for text in ('*MM120', '*M', '*Mx/4', '*clefG2', '*met(c)'):
        bag.call(f'timeSigToDuration({text})', lambda: F(Convert.timeSigToDuration(itok(text))), F(0))
    return n


def do_dots(bag):
    """numbers that are not (dotted) powers of two are recognised as such"""
    n = 0
    good = {}
    for ty, v in TYPES.items():
        for k in range(4):
            good[F(v) * dotf(k)] = (F(v), k)
    for den in (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32):
        for num in range(1, 33):
            v = F(num, den)
            if v.denominator > 32:
                continue
            bag.call(f'isPowerOfTwoWithDots({v})', lambda: bool(MU.isPowerOfTwoWithDots(m21.common.opFrac(v))), v in good)
            e = good.get(v)
            if e:
                bag.call(f'computeDurationNoDotsAndNumDots({v})', lambda: (lambda a: (F(a[0]), a[1]))(
                    MU.computeDurationNoDotsAndNumDots(m21.common.opFrac(v))), e)
            else:
                bag.call(f'computeDurationNoDotsAndNumDots({v})[1]', lambda: MU.computeDurationNoDotsAndNumDots(
                    m21.common.opFrac(v))[1], None)
            n += 2
    return n


def plain(v):
    """is v a power of two with at most three dots?"""
    v = F(v)
    for k in range(4):
        w = v / dotf(k)
        a, b = w.numerator, w.denominator
        if a & (a - 1) == 0 and b & (b - 1) == 0 and (a == 1 or b == 1):
            return True
    return False


def do_sum(bag, s, lo, hi):
    n = 0
    s = F(s)
    for k in range(lo, hi):
        v = s * k
        simple = (v.denominator & (v.denominator - 1)) == 0
        n += 2

        def total():
            ds = MU.getPowerOfTwoDurationsWithDotsAddingTo(m21.common.opFrac(v))
            return sum((F(d.quarterLength) for d in ds), F(0)), all(plain(F(d.quarterLength)) for d in ds)
        bag.call(f'getPowerOfTwoDurationsWithDotsAddingTo({v})', total, (v if simple else F(0), True))

        def total2():
            ds = MU.getPowerOfTwoQuarterLengthsWithDotsAddingTo(m21.common.opFrac(v))
            return sum((F(d) for d in ds), F(0)), (all(plain(F(d)) for d in ds) if simple else True)
        bag.call(f'getPowerOfTwoQuarterLengthsWithDotsAddingTo({v})', total2, (v, True))
    return n


def do_cross(bag, s, tot):
    n = 0
    s, tot = F(s), F(tot)
    x = s
    while x < tot:
        x0 = x

        def rd():
            a, b = MU.getPowerOfTwoDurationsWithDotsAddingToAndCrossing(m21.common.opFrac(tot), m21.common.opFrac(x0))
            return (sum((F(d.quarterLength) for d in a), F(0)), sum((F(d.quarterLength) for d in b), F(0)),
                    all(len(d.components) == 1 for d in list(a) + list(b)))
        bag.call(f'getPowerOfTwoDurationsWithDotsAddingToAndCrossing({tot}, {x0})', rd, (x0, tot - x0, True))
        n += 1
        x += s
    return n


def do_spell(bag):
    n = 0
    words = ['a', 'music director', 'first second third', 'x y']
    for w in words:
        camel = w.split(' ')[0] + ''.join(p.capitalize() for p in w.split(' ')[1:])
        bag.call(f'spaceDelimitedToCamelCase({w!r})', lambda: MU.spaceDelimitedToCamelCase(w), camel)
        bag.call(f'camelCaseToSpaceDelimited({camel!r})', lambda: MU.camelCaseToSpaceDelimited(camel), w)
        n += 2
    return n


def do_ql(bag):
    for text, v in (('1', F(1)), ('0.5', F(1, 2)), ('1/3', F(1, 3)), ('7/8', F(7, 8)), ('4.0', F(4)), ('x', F(0)),
                    ('', F(0)), ('2/3', F(2, 3))):
        bag.call(f'getQLFromString({text!r})', lambda: F(MU.getQLFromString(text)), v)
    return 8


def do_barsty(bag):
    """every barline style string comes back from its own text"""
    n = 0
    seen = {}
    from converter21.humdrum import MeasureStyle, FermataStyle
    for ms in MeasureStyle:
        try:
            s = Convert.measureStyleToHumdrumBarlineStyleStr(ms)
        except KeyError:
            continue
        if s in seen:
            bag.append(('measureStyle', f'{ms} and {seen[s]} have the same text {s!r}'))
        seen[s] = ms
        n += 1
    seen = {}
    for fs in FermataStyle:
        s = Convert.fermataStyleToHumdrumFermataStyleStr(fs)
        if s in seen:
            bag.append(('fermataStyle', f'{fs} and {seen[s]} have the same text {s!r}'))
        seen[s] = fs
        n += 1
    return n


def do_alters(bag):
    n = 0
    for sh in range(-7, 8):
        exp = []
        o = order(sh)
        names = o[::2]
        for st in STEPS * 10:
            exp.append((1 if sh > 0 else -1) if st.lower() in names else 0)
        bag.call(f'getAltersForKey({sh})', lambda: list(MU.getAltersForKey(m21.key.KeySignature(sh))), exp)
        n += 1
    bag.call('getAltersForKey(None)', lambda: list(MU.getAltersForKey(None)), [0] * 70)
    return n


def do_alias(bag):
    """the objects handed out are the caller's own: changing one changes no later result"""
    n = 0
    for b40 in (162, 163, 161, 202):
        first = M21Convert.base40ToM21PitchName(b40)
        p = M21Convert.base40ToM21Pitch(b40)
        p.transpose(m21.interval.Interval('m3'), inPlace=True)
        bag.call(f'base40ToM21Pitch({b40}) again', lambda: M21Convert.base40ToM21Pitch(b40).nameWithOctave, first)
        n += 1
    for name in ('quarter', 'half-dot', '8'):
        d = M21Convert.durationFromHumdrumTempoNoteName(name)
        ql = d.quarterLength
        d.dots = 3
        bag.call(f'durationFromHumdrumTempoNoteName({name}) again',
                 lambda: M21Convert.durationFromHumdrumTempoNoteName(name).quarterLength, ql)
        n += 1
    for text in ('*k[]', '*k[b-]', '*k[f#c#]'):
        k = M21Convert.m21KeySignature(itok(text))
        sh = k.sharps
        k.sharps = 5
        bag.call(f'm21KeySignature({text}) again', lambda: M21Convert.m21KeySignature(itok(text)).sharps, sh)
        n += 1
    for text in ('d1c2', 'd-1c-2', 'd4c7'):
        iv = M21Convert.m21IntervalFromTranspose(text)
        se = iv.semitones
        bag.call(f'm21IntervalFromTranspose({text}) again', lambda: M21Convert.m21IntervalFromTranspose(text).semitones, se)
    ts = M21Convert.m21TimeSignature(itok('*M4/4'), itok('*met(c)'))
    ts.symbol = 'cut'
    bag.call('m21TimeSignature(*M4/4) again', lambda: M21Convert.m21TimeSignature(itok('*M4/4')).symbol, '')
    lst = MU.getAltersForKey(m21.key.KeySignature(1))
    lst[3] = 5
    bag.call('getAltersForKey(1) again', lambda: MU.getAltersForKey(m21.key.KeySignature(1))[3], 1)
    bag.call('getAltersForKey(None) again', lambda: sum(MU.getAltersForKey(None)), 0)
    ds = MU.getPowerOfTwoDurationsWithDotsAddingTo(2.5)
    ds[0].quarterLength = 9
    bag.call('getPowerOfTwoDurationsWithDotsAddingTo(2.5) again',
             lambda: sum(d.quarterLength for d in MU.getPowerOfTwoDurationsWithDotsAddingTo(2.5)), 2.5)
    return n
