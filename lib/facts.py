"""Observable facts of a music21 score, in a representation-independent normal form.

facts(score) -> {category: sorted list of strings}. Only music21's public API is used.
Where two music21 representations mean the same thing (one voice vs no Voice object, hidden rests vs
gaps, marks placed in a voice vs in the measure) they give the same facts.
"""
from fractions import Fraction
import re
import music21 as m21
from music21.common import opFrac


def fr(x):
    x = Fraction(opFrac(x)).limit_denominator(100000)
    return str(x)


def pitchname(p):
    return p.nameWithOctave


def tuplet_ratio(d):
    n = Fraction(1)
    for t in d.tuplets:
        n *= Fraction(t.numberNotesActual, t.numberNotesNormal)
    return str(n)


def measures_of(part):
    return list(part.getElementsByClass(m21.stream.Measure))


def is_note(e):
    return isinstance(e, m21.note.GeneralNote) and not isinstance(e, m21.harmony.Harmony)


class Index:
    """walks a score once, giving each note a stable human-readable address"""

    def __init__(self, score):
        self.score = score
        self.parts = list(score.parts)
        self.rows = []      # (addr, pi, mi, vi, off(in measure), abs, el)
        self.addr = {}      # id(el) -> addr
        self.abs = {}       # id(el) -> absolute offset
        self.container = {}
        self.meas = []      # (pi, mi, measure, absOffset)
        self.others = []    # (pi, mi, offInMeasure, abs, el)  everything not a note
        for pi, part in enumerate(self.parts):
            for mi, m in enumerate(measures_of(part)):
                moff = Fraction(opFrac(m.getOffsetBySite(part)))
                self.meas.append((pi, mi, m, moff))
                voices = list(m.voices)
                conts = [(vi, v, Fraction(opFrac(v.getOffsetBySite(m)))) for vi, v in enumerate(voices)]
                loose = [e for e in m if is_note(e)]
                if not voices:
                    conts = [(0, m, Fraction(0))]
                elif loose:
                    conts.append((len(voices), m, Fraction(0)))
                # voices with nothing visible in them do not count
                vnum = 0
                for vi, v, voff in conts:
                    gns = [e for e in v if is_note(e)]
                    gns.sort(key=lambda e: Fraction(opFrac(e.getOffsetBySite(v))))
                    gcount = {}
                    vis = False
                    for e in gns:
                        off = voff + Fraction(opFrac(e.getOffsetBySite(v)))
                        hidden = isinstance(e, m21.note.Rest) and e.style.hideObjectOnPrint
                        ab = moff + off
                        self.abs[id(e)] = ab
                        if hidden:
                            a = f's{pi}m{mi}v{vnum}@{fr(off)}'
                            self.addr[id(e)] = a + 'h'
                            continue
                        vis = True
                        a = f's{pi}m{mi}v{vnum}@{fr(off)}'
                        if e.duration.isGrace:
                            k = gcount.get(off, 0)
                            gcount[off] = k + 1
                            a += f'g{k}'
                        self.addr[id(e)] = a
                        if isinstance(e, m21.chord.Chord):
                            for n in e.notes:
                                self.addr[id(n)] = a + '/' + pitchname(n.pitch)
                                self.abs[id(n)] = ab
                        self.rows.append((a, pi, mi, vnum, off, ab, e))
                    if vis or not voices:
                        vnum += 1
                    for e in v:
                        if not is_note(e) and not isinstance(e, m21.stream.Voice):
                            off = voff + Fraction(opFrac(e.getOffsetBySite(v)))
                            self.others.append((pi, mi, off, moff + off, e))
                            self.abs[id(e)] = moff + off
                if voices:
                    for e in m:
                        if not is_note(e) and not isinstance(e, m21.stream.Voice):
                            off = Fraction(opFrac(e.getOffsetBySite(m)))
                            self.others.append((pi, mi, off, moff + off, e))
                            self.abs[id(e)] = moff + off

    def noteaddr(self, el):
        if isinstance(el, m21.spanner.SpannerAnchor):
            # stands for the (first) note of its staff at that time
            st, t = staff_of(self, el), self.abs.get(id(el))
            for a, pi, mi, vi, off, ab, e in self.rows:
                if pi == st and ab == t and not e.duration.isGrace:
                    return a
        return self.addr.get(id(el), '?' + repr(type(el).__name__))


def kind(e):
    if isinstance(e, m21.note.Rest):
        return 'R'
    if isinstance(e, m21.chord.Chord):
        return 'C'
    if isinstance(e, m21.note.Unpitched):
        return 'U'
    return 'N'


def slashed(d):
    """a grace note is slashed (unaccented) unless it says otherwise"""
    if isinstance(d, m21.duration.AppoggiaturaDuration):
        return False
    if getattr(d, 'stealTimePrevious', None) is not None:
        return True
    if getattr(d, 'stealTimeFollowing', None) is not None:
        return False
    return getattr(d, 'slash', True) is not False


def core(ix):
    notes = []
    for a, pi, mi, vi, off, ab, e in ix.rows:
        d = e.duration
        if kind(e) == 'R':
            what = 'rest'
        elif kind(e) == 'C':
            what = 'chord[' + ' '.join(sorted(pitchname(p) for p in e.pitches)) + ']'
        elif kind(e) == 'U':
            what = 'unpitched'
        else:
            what = 'note[' + pitchname(e.pitch) + ']'
        if d.isGrace:
            g = 'grace' + ('/slash' if slashed(d) else '')
            notes.append(f'{a} {what} {g} {d.type}.{d.dots}')
        else:
            notes.append(f'{a} {what} ql={fr(d.quarterLength)} {d.type}.{d.dots} x{tuplet_ratio(d)}')
    return notes


def measures(ix):
    out = []
    for pi, mi, m, moff in ix.meas:
        ln = Fraction(0)
        conts = list(m.voices) or [m]
        for v in conts:
            for e in v:
                if is_note(e):
                    ln = max(ln, Fraction(opFrac(e.getOffsetBySite(v))) + Fraction(opFrac(e.quarterLength)))
        out.append(f's{pi}m{mi} start={fr(moff)} len={fr(ln)}')
    return out


def measnums(ix):
    return [f's{pi}m{mi} n={m.measureNumberWithSuffix()}' for pi, mi, m, moff in ix.meas]


def ties(ix):
    out = []
    for a, *_, e in ix.rows:
        if kind(e) == 'C':
            for n in e.notes:
                if n.tie is not None:
                    out.append(f'{a}/{pitchname(n.pitch)} tie={n.tie.type}')
        elif kind(e) == 'N' and e.tie is not None:
            out.append(f'{a}/{pitchname(e.pitch)} tie={e.tie.type}')
    return out


def tieplace(ix):
    out = []
    for a, *_, e in ix.rows:
        ns = e.notes if kind(e) == 'C' else [e] if kind(e) == 'N' else []
        for n in ns:
            if n.tie is not None and n.tie.placement:
                out.append(f'{a}/{pitchname(n.pitch)} tieplace={n.tie.placement}')
            if n.tie is not None and n.tie.style and n.tie.style not in ('normal', 'solid'):
                out.append(f'{a}/{pitchname(n.pitch)} tiestyle={n.tie.style}')
    return out


def _spanners(ix, cls):
    return [s for s in ix.score.recurse().getElementsByClass(cls)] if not hasattr(ix, '_sp') else None


def spanners(ix, cls):
    if not hasattr(ix, 'allspanners'):
        seen = set()
        ix.allspanners = []
        for s in ix.score.recurse().getElementsByClass(m21.spanner.Spanner):
            if id(s) not in seen:
                seen.add(id(s))
                ix.allspanners.append(s)
    return [s for s in ix.allspanners if isinstance(s, cls)]


def slurs(ix):
    out = []
    for s in spanners(ix, m21.spanner.Slur):
        els = s.getSpannedElements()
        if not els:
            continue
        pl = f' {s.placement}' if s.placement else ''
        lt = f' {s.lineType}' if getattr(s, 'lineType', None) not in (None, 'solid') else ''
        out.append(f'slur {ix.noteaddr(els[0])} -> {ix.noteaddr(els[-1])}{pl}{lt}')
    return out


def arts(ix):
    out = []
    for a, *_, e in ix.rows:
        for x in e.articulations:
            if isinstance(x, m21.articulations.Fingering):
                out.append(f'{a} Fingering {x.fingerNumber}')
                continue
            extra = ''
            if isinstance(x, m21.articulations.StringIndication):
                extra = ' ' + str(getattr(x, 'number', ''))
            pl = f' {x.placement}' if getattr(x, 'placement', None) else ''
            out.append(f'{a} {type(x).__name__}{extra}{pl}')
    return out


def artsnp(ix):
    """articulations without placement"""
    out = []
    for a, *_, e in ix.rows:
        for x in e.articulations:
            extra = ''
            if isinstance(x, m21.articulations.Fingering):
                extra = ' ' + str(x.fingerNumber)
            out.append(f'{a} {type(x).__name__}{extra}')
    return out


def _acc(x):
    return x.name if x is not None else None


def ornpitch(p):
    if p is None:
        return 'unresolved'
    return p.nameWithOctave + (' shown' if p.accidental is not None and p.accidental.displayStatus else '')


def expr_str(x):
    n = type(x).__name__
    s = n
    if isinstance(x, m21.expressions.Fermata):
        s += f' type={x.type} shape={x.shape}'
    elif isinstance(x, m21.expressions.ArpeggioMark):
        s += f' {x.type}'
    elif isinstance(x, m21.expressions.Trill) or isinstance(x, m21.expressions.GeneralMordent):
        s += ' ' + ornpitch(x.ornamentalPitch)
    elif isinstance(x, m21.expressions.Turn):
        s += f' up={ornpitch(x.upperOrnamentalPitch)} lo={ornpitch(x.lowerOrnamentalPitch)}'
        if getattr(x, 'isDelayed', False):
            s += ' delayed'
    elif isinstance(x, m21.expressions.Tremolo):
        s += f' {x.numberOfMarks}'
    return s


def exprs(ix):
    out = []
    for a, *_, e in ix.rows:
        for x in e.expressions:
            if isinstance(x, (m21.expressions.TextExpression, m21.expressions.RehearsalMark)):
                continue
            if type(x).__name__ == 'TrillExtension':
                continue
            out.append(f'{a} {expr_str(x)}')
        if kind(e) == 'C':
            for n in e.notes:
                for x in n.expressions:
                    out.append(f'{a}/{pitchname(n.pitch)} {expr_str(x)}')
    for pi, mi, m, moff in ix.meas:
        for nm, b in (('left', m.leftBarline), ('right', m.rightBarline)):
            if b is not None and b.pause is not None:
                out.append(f's{pi}m{mi} barline-{nm} {expr_str(b.pause)}')
    return out


def exprplace(ix):
    out = []
    for a, *_, e in ix.rows:
        for x in e.expressions:
            pl = getattr(x, 'placement', None)
            if pl:
                out.append(f'{a} {type(x).__name__} {pl}')
    return out


def trillext(ix):
    out = []
    for s in spanners(ix, m21.expressions.TrillExtension):
        els = s.getSpannedElements()
        if els:
            out.append(f'trillext {ix.noteaddr(els[0])} -> {ix.noteaddr(els[-1])}')
    for s in spanners(ix, m21.expressions.ArpeggioMarkSpanner):
        els = sorted(ix.noteaddr(x) for x in s.getSpannedElements())
        out.append(f'arpspan {s.type} ' + ' '.join(els))
    for s in spanners(ix, m21.spanner.Glissando):
        els = s.getSpannedElements()
        if els:
            out.append(f'gliss {ix.noteaddr(els[0])} -> {ix.noteaddr(els[-1])}')
    return out


def beams(ix):
    out = []
    for a, *_, e in ix.rows:
        if not hasattr(e, 'beams'):
            continue
        bl = e.beams.beamsList
        if bl:
            out.append(f'{a} beams ' + ' '.join(
                f'{b.number}{b.type}' + (f'-{b.direction}' if b.direction else '') for b in bl))
    return out


def tuplets(ix):
    out = []
    for a, *_, e in ix.rows:
        for t in e.duration.tuplets:
            out.append(f'{a} tup {t.numberNotesActual}:{t.numberNotesNormal} {t.type}')
    return out


def lyrics(ix):
    """text, hyphen before/after, label of every verse; an elision and a space in the text look the same"""
    out = []
    for a, *_, e in ix.rows:
        for ly in e.lyrics:
            first = last = ly
            if ly.isComposite:
                first, last = ly.components[0], ly.components[-1]
            pre = '-' if first.syllabic in ('middle', 'end') else ''
            post = '-' if last.syllabic in ('middle', 'begin') else ''
            lab = f' label={ly.identifier!r}' if ly.identifier != ly.number else ''
            out.append(f'{a} lyr{ly.number} {pre}{ly.text!r}{post}{lab}')
    return out


def dynamics(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.dynamics.Dynamic):
            out.append(f's{pi}m{mi}@{fr(off)} dyn {" ".join(e.value.split())!r}')
    return out


def dynplace(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.dynamics.Dynamic) and e.placement:
            out.append(f's{pi}m{mi}@{fr(off)} dyn {" ".join(e.value.split())!r} {e.placement}')
    return out


def el_staff(ix, el):
    a = ix.addr.get(id(el), '')
    return a.split('m')[0] if a else '?'


def wedge_extent(ix, s):
    els = s.getSpannedElements()
    starts = [ix.abs.get(id(x)) for x in els]
    starts = [x for x in starts if x is not None]
    ends = [ix.abs[id(x)] + (Fraction(opFrac(x.quarterLength))) for x in els if id(x) in ix.abs]
    return (starts[0] if starts else None, ends[-1] if ends else None)


def wedges(ix):
    out = []
    anchors = {}
    for s in spanners(ix, m21.dynamics.DynamicWedge):
        els = s.getSpannedElements()
        if not els:
            out.append(f'{type(s).__name__} empty')
            continue
        stf = staff_of(ix, els[0])
        a = wedge_extent(ix, s)
        out.append(f'{type(s).__name__} s{stf} {a[0]}..{a[1]}')
    return out


def wedgeplace(ix):
    out = []
    for s in spanners(ix, m21.dynamics.DynamicWedge):
        els = s.getSpannedElements()
        if els and s.placement:
            stf = staff_of(ix, els[0])
            a = wedge_extent(ix, s)
            out.append(f'{type(s).__name__} s{stf} {a[0]}..{a[1]} {s.placement}')
    return out


def staff_of(ix, el):
    """index of the part that contains el"""
    if not hasattr(ix, 'stfmap'):
        ix.stfmap = {}
        for pi, p in enumerate(ix.parts):
            for x in p.recurse():
                ix.stfmap[id(x)] = pi
                if id(x) not in ix.abs:
                    try:
                        ix.abs[id(x)] = Fraction(opFrac(x.getOffsetInHierarchy(p)))
                    except Exception:   # pylint: disable=broad-except
                        pass
    return ix.stfmap.get(id(el), '?')


def clefs(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.clef.Clef):
            out.append(f's{pi}m{mi}@{fr(off)} clef {e.sign}{e.line}{e.octaveChange:+d}')
    return list(set(out))    # the same clef may be given in each voice


def keys(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.key.KeySignature):
            if e.isNonTraditional:
                s = 'nontrad ' + ','.join(sorted(p.name for p in e.alteredPitches))
            else:
                s = f'{e.sharps}'
            out.append(f's{pi}m{mi}@{fr(off)} key {s}')
    return out


def meters(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.meter.TimeSignature):
            sym = e.symbol if e.symbol in ('common', 'cut') else ''
            out.append(f's{pi}m{mi}@{fr(off)} meter {e.ratioString} {sym}')
    return out


BARMAP = {'regular': 'regular', None: 'regular'}


def barstr(b):
    if b is None:
        return 'regular'
    if isinstance(b, m21.bar.Repeat):
        return f'repeat-{b.direction}' + (f' x{b.times}' if b.times not in (None, 2) else '')
    return b.type


def barlines(ix):
    """canonical: the style of each boundary (right of measure k + left of measure k+1)"""
    out = []
    bypart = {}
    for pi, mi, m, moff in ix.meas:
        bypart.setdefault(pi, []).append(m)
    for pi, ms in bypart.items():
        for k in range(len(ms) + 1):
            right = barstr(ms[k - 1].rightBarline) if k > 0 else 'regular'
            left = barstr(ms[k].leftBarline) if k < len(ms) else 'regular'
            st = sorted({right, left} - {'regular'}) or ['regular']
            if any('repeat' in x for x in st):       # there is only one barline to draw: a repeat wins
                st = [x for x in st if 'repeat' in x]
            out.append(f's{pi} boundary{k} {"+".join(st)}')
    return out


def endings(ix):
    out = set()
    midx = {id(m): f'm{mi}' for pi, mi, m, _ in ix.meas}
    for s in spanners(ix, m21.spanner.RepeatBracket):
        els = [midx.get(id(x), '?') for x in s.getSpannedElements()]
        out.add(f'ending {s.number!r} ' + ','.join(sorted(els)))
    return list(out)


MET = {0xECA0: 'double-whole', 0xECA1: 'double-whole', 0xECA2: 'whole', 0xECA3: 'half', 0xECA4: 'half', 0xECA5: 'quarter',
       0xECA6: 'quarter', 0xECA7: 'eighth', 0xECA8: 'eighth', 0xECA9: '16th', 0xECAA: '16th', 0xECAB: '32nd', 0xECAC: '32nd',
       0xECAD: '64th', 0xECAE: '64th'}


def plain_text(t):
    """music symbols by name, runs of spaces as one"""
    if t is None:
        return None
    out = ''
    for ch in t:
        n = MET.get(ord(ch))
        if n:
            out += f'[{n}]'
        elif ord(ch) == 0xECB7 and out.rstrip().endswith(']'):
            out = out.rstrip()[:-1] + '-dot]'
        else:
            out += ch
    return re.sub(r'[ \t\u00a0\u2009]+', ' ', out.replace('\u200a', '')).strip()


def tempos(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.tempo.MetricModulation):
            e = e.newMetronome
        if isinstance(e, m21.tempo.MetronomeMark):
            t = plain_text(e.text) if not e.textImplicit else None
            bpm = e.getQuarterBPM() if e.number is not None else None
            out.append(f's{pi}m{mi}@{fr(off)} tempo {t!r} bpm={None if bpm is None else fr(Fraction(bpm).limit_denominator(1000))}')
        elif isinstance(e, m21.tempo.TempoText):
            out.append(f's{pi}m{mi}@{fr(off)} tempo {plain_text(e.text)!r} bpm=None')
    return out


def tempoplace(ix):
    return [f's{pi}m{mi}@{fr(off)} tempo {e.placement}' for pi, mi, off, ab, e in ix.others if isinstance(e, m21.tempo.MetronomeMark)]


def texts(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.expressions.TextExpression):
            st = (e.style.fontStyle or ''), (e.style.fontWeight or '')
            fs = 'italic' if 'italic' in st[0] else ''
            fw = 'bold' if ('bold' in st[1] or 'bold' in st[0]) else ''
            out.append(f's{pi}m{mi}@{fr(off)} text {plain_text(e.content)!r} {fs}{fw}')
    return out


def textplace(ix):
    return [f's{pi}m{mi}@{fr(off)} text {plain_text(e.content)!r} {e.placement}' for pi, mi, off, ab, e in ix.others
            if isinstance(e, m21.expressions.TextExpression)]


def rehs(ix):
    out = []
    for pi, mi, off, ab, e in ix.others:
        if isinstance(e, m21.expressions.RehearsalMark):
            out.append(f's{pi}m{mi}@{fr(off)} reh {plain_text(e.content)!r}')
    return out


def rehplace(ix):
    return [f's{pi}m{mi}@{fr(off)} reh {plain_text(e.content)!r} {e.style.placement}' for pi, mi, off, ab, e in ix.others
            if isinstance(e, m21.expressions.RehearsalMark)]


def chordsyms(ix):
    out = []
    for pi, p in enumerate(ix.parts):
        for mi, m in enumerate(measures_of(p)):
            for e in m.recurse().getElementsByClass(m21.harmony.Harmony):
                off = Fraction(opFrac(e.getOffsetInHierarchy(m)))
                out.append(f's{pi}m{mi}@{fr(off)} ' + chordsym_str(e))
    return out


def deg_number(d):
    return int(d.strip('#b'))


def chord_degrees(kind, mods):
    """degrees over the root (as alterations of the major scale) of a chord kind with added, omitted and altered degrees;
    None for an unknown kind"""
    if kind not in m21.harmony.CHORD_TYPES:
        return None
    degs = set(m21.harmony.CHORD_TYPES[kind][0].replace('-', 'b').split(','))
    for t, d, a in mods:
        if t == 'add':
            degs.add(('#' * a if a > 0 else 'b' * -a) + str(d))
        elif t == 'subtract':
            degs = {x for x in degs if deg_number(x) != d}
        else:
            for x in list(degs):
                if deg_number(x) == d:
                    degs.remove(x)
                    n = x.count('#') - x.count('b') + a
                    degs.add(('#' * n if n > 0 else 'b' * -n) + str(d))
    return degs


def chord_fact(root, degs, bass):
    ds = '?' if degs is None else ' '.join(sorted(degs, key=lambda x: (deg_number(x), x)))
    return f'chord {root} ({ds})' + (f' bass={bass}' if bass and bass != root else '')


def chordsym_str(e):
    if isinstance(e, m21.harmony.NoChord):
        return 'nochord'
    mods = [(x.modType, x.degree, x.interval.semitones if x.interval is not None else 0) for x in e.chordStepModifications]
    r, b = e.root(find=False), e.bass(find=False)
    return chord_fact(r.name.replace('-', 'b') if r else None, chord_degrees(e.chordKind, mods), b.name.replace('-', 'b') if b else None)


def acc(ix):
    """written accidental of every note: alteration + displayed or not"""
    out = []
    for a, *_, e in ix.rows:
        ns = e.notes if kind(e) == 'C' else [e] if kind(e) == 'N' else []
        for n in ns:
            x = n.pitch.accidental
            nm = x.name if x is not None else 'natural'
            disp = bool(x is not None and x.displayStatus)
            sty = ''
            if x is not None and disp and x.displayStyle not in (None, 'normal'):
                sty = ' ' + x.displayStyle
            if x is not None and disp and x.displayLocation != 'normal':
                sty += ' ' + x.displayLocation
            out.append(f'{a}/{pitchname(n.pitch)} {nm} shown={disp}{sty}')
    return out


CATS = dict(core=core, measures=measures, measnums=measnums, ties=ties, tieplace=tieplace, slurs=slurs, arts=arts,
            artsnp=artsnp, exprs=exprs, exprplace=exprplace, trillext=trillext, beams=beams,
            tuplets=tuplets, lyrics=lyrics, dynamics=dynamics, dynplace=dynplace, wedges=wedges, wedgeplace=wedgeplace,
            clefs=clefs, keys=keys, meters=meters, barlines=barlines, endings=endings,
            tempos=tempos, tempoplace=tempoplace, texts=texts, textplace=textplace, rehs=rehs, rehplace=rehplace, chordsyms=chordsyms, acc=acc,
            pitches=lambda ix: pitches(ix), groups=lambda ix: groups(ix), names=lambda ix: names(ix), abbrs=lambda ix: abbrs(ix),
            groupnames=lambda ix: groupnames(ix), partkinds=lambda ix: partkinds(ix))


def staffgroups(ix):
    pos = {id(p): i for i, p in enumerate(ix.parts)}
    out = []
    for g in spanners(ix, m21.layout.StaffGroup):
        st = sorted(pos[id(p)] for p in g.getSpannedElements() if id(p) in pos)
        out.append((st, g))
    return out


def groups(ix):
    out = []
    for st, g in staffgroups(ix):
        sym = g.symbol if g.symbol != 'none' else None
        bar = {'Mensurstrich': 'mensur', 'mensurstrich': 'mensur'}.get(g.barTogether, bool(g.barTogether))
        if sym or (bar and len(st) > 1):
            out.append(f'group {"+".join(map(str, st))} sym={sym} bar={bar}')
    return out


def partkinds(ix):
    return [f's{i} {"PartStaff" if isinstance(p, m21.stream.PartStaff) else "Part"}' for i, p in enumerate(ix.parts)]


def _own_names(p):
    for inst in p.recurse().getElementsByClass(m21.instrument.Instrument):
        return inst.partName or inst.instrumentName or '', inst.partAbbreviation or inst.instrumentAbbreviation or ''
    return '', ''


def part_names(ix):
    """effective name and abbreviation of every staff: its own or (several staves of one part) that of the part"""
    out = []
    gs = staffgroups(ix)
    for i, p in enumerate(ix.parts):
        nm, ab = p.partName or '', p.partAbbreviation or ''
        n2, a2 = _own_names(p)
        nm, ab = nm or n2, ab or a2
        if isinstance(p, m21.stream.PartStaff):
            mine = [(st, g) for st, g in gs if i in st and all(isinstance(ix.parts[k], m21.stream.PartStaff) for k in st)]
            mine.sort(key=lambda x: len(x[0]))
            for st, g in mine:
                nm = nm or g.name or ''
                ab = ab or g.abbreviation or ''
                for k in st:
                    n2, a2 = _own_names(ix.parts[k])
                    nm, ab = nm or n2, ab or a2
        out.append((nm, ab))
    return out


def names(ix):
    return [f's{i} name {nm!r}' for i, (nm, ab) in enumerate(part_names(ix))]


def abbrs(ix):
    return [f's{i} abbreviation {ab!r}' for i, (nm, ab) in enumerate(part_names(ix))]


def groupnames(ix):
    out = []
    pn = part_names(ix)
    for st, g in staffgroups(ix):
        if len(st) > 1 and (g.name or g.abbreviation):
            nm, ab = g.name or '', g.abbreviation or ''
            if all(isinstance(ix.parts[k], m21.stream.PartStaff) for k in st):
                continue
            if all(pn[k][0] in ('', nm) for k in st):
                continue                 # the common name of its parts
            out.append(f'group {"+".join(map(str, st))} name {nm!r} abbreviation {ab!r}')
    return out


OCTAVES = {'8va': 1, '8vb': -1, '15ma': 2, '15mb': -2, '22da': 3, '22db': -3}


def _shift(p, dia, chroma):
    """(step, alter, octave) name of a pitch moved by steps and semitones"""
    i = 'CDEFGAB'.index(p.step) + 7 * p.implicitOctave + dia
    semi = int(round(p.ps)) + chroma - 12        # C0 = 0
    a = semi - ([0, 2, 4, 5, 7, 9, 11][i % 7] + 12 * (i // 7))
    return 'CDEFGAB'[i % 7] + ('#' * a if a > 0 else '-' * -a) + str(i // 7)


def pitches(ix):
    """written and sounding pitch of every note"""
    regions = []
    for s in spanners(ix, m21.spanner.Ottava):
        els = [e for e in s.getSpannedElements() if id(e) in ix.abs]
        if not els:
            continue
        st = {staff_of(ix, e) for e in els}
        a = min(ix.abs[id(e)] for e in els)
        b = max(ix.abs[id(e)] + Fraction(opFrac(e.duration.quarterLength)) for e in els)
        n = OCTAVES[s.type]
        regions.append((st, a, b, n, bool(s.transposing)))
    out = []
    for a, pi, mi, vi, off, ab, e in ix.rows:
        if kind(e) not in 'NC':
            continue
        part = ix.parts[pi]
        dia = chroma = 0
        for inst in part.recurse().getElementsByClass(m21.instrument.Instrument):
            if inst.transposition is not None:
                g = inst.transposition.generic.value
                dia, chroma = g - 1 if g > 0 else g + 1, int(inst.transposition.semitones)
        hit = [r for r in regions if pi in r[0] and r[1] <= ab < r[2]]
        wd = wc = sd = sc = 0
        for st, x, y, n, tr in hit:
            if tr:
                sd, sc = sd + 7 * n, sc + 12 * n
            else:
                wd, wc = wd - 7 * n, wc - 12 * n
        if part.atSoundingPitch is True:
            wd, wc = wd - dia, wc - chroma
        else:
            sd, sc = sd + dia, sc + chroma
        for p in (e.pitches if kind(e) == 'C' else [e.pitch]):
            out.append(f'{a} written {_shift(p, wd, wc)} sounding {_shift(p, sd, sc)}')
    return out


def facts(score, cats):
    ix = Index(score)
    return {c: sorted(CATS[c](ix)) for c in cats}


def diff(exp, got):
    """list of '<cat> -missing' / '<cat> +extra' strings"""
    out = []
    for c in exp:
        a, b = list(exp[c]), list(got.get(c, []))
        for x in list(a):
            if x in b:
                a.remove(x)
                b.remove(x)
        out += [f'{c}: missing <{x}>' for x in a]
        out += [f'{c}: unexpected <{x}>' for x in b]
    return out
