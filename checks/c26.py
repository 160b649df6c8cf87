"""C26: tremolos.

The model is a small score of plain notes, bowed tremolos (one note or chord, repeated) and fingered tremolos (two notes or
chords, alternating).  It is written by renderers of this check as Humdrum (spelled out between *tremolo and *Xtremolo, and
with the short form @16@ / @@16@@), as MEI (bTrem/fTrem with unitdur, and with stem.mod/beams) and built as a music21 score.
Facts: for every note or tremolo its measure, onset, length, pitches, kind and speed, for tremolos the number of strokes per
note and the notes that sound; slurs, ties and accents at their notes; beams over the notes.
"""
from fractions import Fraction
import math
import re

from target import m21, kern_to_m21, m21_to_kern, mei_to_m21, m21_to_mei
from explore import Prune
import featlib as F
import routes

PROP = 'C26'
BOUND = {'quick': 'all tremolos (bowed/fingered, 11 values, 4 speeds) alone, every case with at most 2 deviations over up to 6 options per choice; '
                  '4 imports, 3 exports, 6 chains (7 of these routes for 2 deviations), expanded exports also read note by note',
         'thorough': 'all tremolos with one further deviation, every case with at most 3 deviations over the full vocabulary'}
ASSUME = ['a speed is the number of strokes of the notes that sound (flags of the note plus marks); all values divide into such notes',
          'Humdrum: no beamed plain notes of one pitch and no beamed groups of equal notes while the staff has a tremolo (the format '
          'cannot tell them from a tremolo); fingered tremolos in tuplets are not asserted']

KERNP = {'C': 'c', 'D': 'd', 'E': 'e', 'F': 'f', 'G': 'g', 'A': 'a', 'B': 'b'}


def kp(p):
    m = re.match(r'([A-G])([#-]*)(\d)', p)
    s, a, o = m.group(1).lower(), m.group(2), int(m.group(3))
    return (s * (o - 3) if o >= 4 else s.upper() * (4 - o)) + a


def ql(e):
    q = Fraction(4, e['d']) * (2 - Fraction(1, 2 ** e.get('dots', 0)))
    if e.get('tup'):
        q = q * e['tup'][1] / e['tup'][0]
    return q


def unit_ql(e):
    q = Fraction(4, e['u'])
    if e.get('tup'):
        q = q * e['tup'][1] / e['tup'][0]
    return q


def strokes(u):
    return int(math.log2(u)) - 2


def recip(q):
    """Humdrum recip of a length in quarters, dots only if needed"""
    for dots in (0, 1, 2):
        d = Fraction(4) * (2 - Fraction(1, 2 ** dots)) / q
        if d.denominator == 1:
            return f'{d.numerator}' + '.' * dots
    raise Prune()


def tok(r, ps, pre='', post=''):
    return ' '.join((pre if i == 0 else pre.replace('(', '')) + r + kp(p) + (post if i == 0 else re.sub(r"[LJ)@^\d]", '', post)) for i, p in enumerate(ps))


def tie_pre(e):
    return '[' if e.get('tie') == 's' else ''


def tie_post(e):
    return ']' if e.get('tie') == 'e' else ''


def subtokens(e, form):
    """[(offset, token)] of one event"""
    sl, acc = e.get('sl', ''), '^' if e.get('acc') else ''
    pre = ('(' if '(' in sl else '') + tie_pre(e)
    post = acc + (')' if ')' in sl else '') + tie_post(e)
    if e['k'] == 'r':
        return [(Fraction(0), recip(ql(e)) + 'r')]
    if e['k'] == 'n':
        g = e.get('beam', '')
        return [(Fraction(0), tok(recip(ql(e)), e['p'], pre, post + g))]
    n = ql(e) / unit_ql(e)
    if n.denominator != 1 or n < 2:
        raise Prune()
    n = int(n)
    r, b = recip(unit_ql(e)), strokes(e['u'])
    out = []
    if e['k'] == 'b':
        if form == 'u':
            g = e.get('beam', '')
            return [(Fraction(0), tok(recip(ql(e)), e['p'], pre, post + f'@{r}@' + g))]
        g = e.get('beam')
        for i in range(n):
            beam = 'L' * b if i == 0 and g in (None, 'L') else 'J' * b if i == n - 1 and g in (None, 'J') else ''
            p0, q0 = '', ''
            if i == 0:
                p0, q0 = pre, acc + tie_post(e)
            if i == n - 1 and ')' in sl:
                q0 += ')'
            out.append((i * unit_ql(e), tok(r, e['p'], p0, q0 + beam)))
        return out
    # fingered
    if form == 'u':
        h = recip(ql(e) / 2)
        return [(Fraction(0), tok(h, e['p'], pre.replace(')', ''), acc + tie_post(e) + f'@@{r}@@')),
                (ql(e) / 2, tok(h, e['p2'], '', (')' if ')' in sl else '') + f'@@{r}@@'))]
    if n % 2:
        raise Prune()
    for i in range(n):
        beam = 'L' * b if i == 0 else 'J' * b if i == n - 1 else ''
        p0, q0 = '', ''
        if i == 0:
            p0, q0 = pre, acc + tie_post(e)
        if i == n - 1 and ')' in sl:
            q0 += ')'
        out.append((i * unit_ql(e), tok(r, e['p'] if i % 2 == 0 else e['p2'], p0, q0 + beam)))
    return out


def kern(M, form):
    """form 'x': spelled out, 'u': short form"""
    st = M['st']
    order = list(range(len(st)))[::-1]
    nv = [max(len(ms) for ms in st[s]) for s in order]
    cols = [(s, v) for s, n in zip(order, nv) for v in range(n)]
    L = ['\t'.join('**kern' for _ in order), '\t'.join(f'*staff{s + 1}' for s in order),
         '\t'.join('*clefF4' if s and s == len(st) - 1 else '*clefG2' for s in order), '\t'.join('*M4/4' for _ in order)]
    if max(nv) > 1:
        L.append('\t'.join('*^' if n > 1 else '*' for n in nv))
    w = len(cols)
    if form == 'x':
        L.append('\t'.join('*tremolo' for _ in range(w)))
    for m in range(len(st[0])):
        L.append('\t'.join(f'={m + 1}' for _ in range(w)))
        rows = {}
        for c, (s, v) in enumerate(cols):
            if v >= len(st[s][m]):
                rows.setdefault(Fraction(0), {})[c] = '1ryy'
                continue
            off = Fraction(0)
            for e in st[s][m][v]:
                for g in e.get('grace', []):
                    rows.setdefault((off, -1), {})[c] = '8' + kp(g) + 'q'
                for o, t in subtokens(e, form):
                    rows.setdefault(off + o, {})[c] = t
                off += ql(e)
        for o in sorted(rows, key=lambda x: x if isinstance(x, tuple) else (x, 0)):
            L.append('\t'.join(rows[o].get(c, '.') for c in range(w)))
    if form == 'x':
        L.append('\t'.join('*Xtremolo' for _ in range(w)))
    L.append('\t'.join('==' for _ in range(w)))
    if max(nv) > 1:
        L.append('\t'.join('\t'.join(['*v'] * n) if n > 1 else '*' for n in nv))
        L = [x for x in L]
    L.append('\t'.join('*-' for _ in order))
    return '\n'.join(L) + '\n'


ACC = {'': '', '#': 's', '-': 'f', '##': 'x'}


def mei_note(p, attrs):
    m = re.match(r'([A-G])([#-]*)(\d)', p)
    a = f' accid="{ACC[m.group(2)]}"' if m.group(2) else ''
    return f'<note {attrs} pname="{m.group(1).lower()}" oct="{m.group(3)}"{a}/>'


def mei_nc(i, ps, d, dots, extra):
    a = f'xml:id="{i}" dur="{d}"' + (f' dots="{dots}"' if dots else '') + extra
    if len(ps) == 1:
        return mei_note(ps[0], a)
    t = re.search(r' tie="."', a)       # ties on the notes of the chord (the reader does not use tie="t" of a chord)
    t = t.group(0) if t else ''
    return f'<chord {a.replace(t, "")}>' + ''.join(mei_note(p, f'xml:id="{i}c{k}"{t}') for k, p in enumerate(ps)) + '</chord>'


def mei(M, form):
    """form 'u': unitdur, 's': stem.mod and beams"""
    st = M['st']
    out = ['<mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0"><meiHead><fileDesc><titleStmt><title/></titleStmt><pubStmt/></fileDesc></meiHead>'
           '<music><body><mdiv><score><scoreDef meter.count="4" meter.unit="4"><staffGrp>']
    for s in range(len(st)):
        c = 'shape="F" line="4"' if s and s == len(st) - 1 else 'shape="G" line="2"'
        out.append(f'<staffDef n="{s + 1}" lines="5"><clef {c}/></staffDef>')
    out.append('</staffGrp></scoreDef><section>')
    after = []
    sl = {}
    for m in range(len(st[0])):
        out.append(f'<measure n="{m + 1}">')
        for s in range(len(st)):
            out.append(f'<staff n="{s + 1}">')
            for v, vo in enumerate(st[s][m]):
                out.append(f'<layer n="{v + 1}">')
                intup = False
                for j, e in enumerate(vo):
                    i = f'n{s}x{m}x{v}x{j}'
                    if e.get('tup') and not intup:
                        out.append('<tuplet num="3" numbase="2">')
                        intup, tq = True, Fraction(0)
                    if e.get('beam') == 'L':
                        out.append('<beam>')
                    for k, g in enumerate(e.get('grace', [])):
                        out.append(mei_note(g, f'xml:id="{i}g{k}" dur="8" grace="unacc" stem.mod="1slash"'))
                    x = ''
                    if e.get('acc'):
                        x += ' artic="acc"'
                    if e.get('tie'):
                        x += ' tie="%s"' % {'s': 'i', 'e': 't'}[e['tie']]
                    if e['k'] == 'r':
                        out.append(f'<rest dur="{e["d"]}"' + (f' dots="{e["dots"]}"' if e.get('dots') else '') + '/>')
                    elif e['k'] == 'n':
                        out.append(mei_nc(i, e['p'], e['d'], e.get('dots'), x))
                    elif e['k'] == 'b':
                        flags = max(0, strokes(e['d']))
                        if form == 'u':
                            out.append(f'<bTrem unitdur="{e["u"]}">' + mei_nc(i, e['p'], e['d'], e.get('dots'), x) + '</bTrem>')
                        else:
                            x += f' stem.mod="{strokes(e["u"]) - flags}slash"'
                            out.append('<bTrem>' + mei_nc(i, e['p'], e['d'], e.get('dots'), x) + '</bTrem>')
                    else:
                        a = f'unitdur="{e["u"]}"' if form == 'u' else f'beams="{strokes(e["u"])}"'
                        out.append(f'<fTrem {a}>' + mei_nc(i, e['p'], e['d'], e.get('dots'), x)
                                   + mei_nc(i + 'b', e['p2'], e['d'], e.get('dots'), '') + '</fTrem>')
                    if '(' in e.get('sl', ''):
                        sl[(s, v)] = i
                    if ')' in e.get('sl', ''):
                        if e['sl'] == '()' and e['k'] != 'f':
                            raise Prune()
                        after.append(f'<slur startid="#{sl.pop((s, v))}" endid="#{i + ("b" if e["k"] == "f" else "")}"/>')
                    if e.get('beam') == 'J':
                        out.append('</beam>')
                    if intup:
                        tq += ql(e)
                        if (tq * 3 / 2).denominator in (1, 2) and e.get('tupend'):
                            out.append('</tuplet>')
                            intup = False
                out.append('</layer>')
            out.append('</staff>')
        out += after
        after = []
        out.append('</measure>')
    out.append('</section></score></mdiv></body></music></mei>')
    return ''.join(out)


def build(M):
    sc = m21.stream.Score()
    spn = []
    open_ = {}
    for s, ms in enumerate(M['st']):
        part = m21.stream.Part()
        for m, vs in enumerate(ms):
            me = m21.stream.Measure(number=m + 1)
            if m == 0:
                me.append(m21.clef.BassClef() if s and s == len(M['st']) - 1 else m21.clef.TrebleClef())
                me.append(m21.meter.TimeSignature('4/4'))
            for v, vo in enumerate(vs):
                cont = me
                if len(vs) > 1:
                    cont = m21.stream.Voice(id=str(v + 1))
                    me.insert(0, cont)
                off = Fraction(0)
                tupn = 0
                for j, e in enumerate(vo):
                    def nc(ps):
                        n = m21.note.Rest() if ps is None else m21.note.Note(ps[0]) if len(ps) == 1 else m21.chord.Chord(ps)
                        n.duration = m21.duration.Duration(type=m21.duration.typeFromNumDict[e['d']], dots=e.get('dots', 0))
                        if e.get('tup'):
                            t = m21.duration.Tuplet(3, 2, e['d'])
                            t.type = 'start' if tupn == 0 and not second else 'stop' if e.get('tupend') and (e['k'] != 'f' or second) else None
                            n.duration.appendTuplet(t)
                        return n
                    second = False
                    for g in e.get('grace', []):
                        gn = m21.note.Note(g, type='eighth').getGrace()
                        cont.insert(off, gn)
                    n = nc(e.get('p'))
                    cont.insert(off, n)
                    last = n
                    if e['k'] == 'b':
                        t = m21.expressions.Tremolo()
                        t.numberOfMarks = strokes(e['u']) - max(0, strokes(e['d']))
                        n.expressions.append(t)
                    elif e['k'] == 'f':
                        second = True
                        n2 = nc(e['p2'])
                        h = ql(e) / 2
                        for x in (n, n2):
                            x.duration.linked = False
                            x.duration.quarterLength = m21.common.opFrac(h)
                        cont.insert(off + h, n2)
                        t = m21.expressions.TremoloSpanner(n, n2)
                        t.numberOfMarks = strokes(e['u']) - max(0, strokes(e['d']))
                        spn.append(t)
                        last = n2
                    if e.get('beam'):
                        for k in range(max(0, strokes(e['d']))):
                            n.beams.append({'L': 'start', 'J': 'stop', '': 'continue'}[e['beam']])
                    if e.get('acc'):
                        n.articulations.append(m21.articulations.Accent())
                    if e.get('tie'):
                        n.tie = m21.tie.Tie({'s': 'start', 'e': 'stop'}[e['tie']])
                    if '(' in e.get('sl', ''):
                        open_[(s, v)] = n
                    if ')' in e.get('sl', ''):
                        if (s, v) not in open_:
                            raise Prune()
                        spn.append(m21.spanner.Slur(open_.pop((s, v)), last))
                    tupn = 0 if e.get('tupend') else tupn + 1 if e.get('tup') else 0
                    off += ql(e)
            part.append(me)
        sc.insert(0, part)
    for x in spn:
        sc.insert(0, x)
    return sc


def expected(M):
    """(notes, slurs, ties, accents, beams): facts of the model, without music21"""
    notes, slurs, ties, accs = [], [], [], []
    for s, ms in enumerate(M['st']):
        op = {}
        for m, vs in enumerate(ms):
            for v, vo in enumerate(vs):
                off = Fraction(0)
                for e in vo:
                    q = ql(e)
                    for g in e.get('grace', []):
                        notes.append(f's{s} m{m} {off} grace {g}')
                    if e['k'] != 'r':
                        P = ' '.join(sorted(e['p']))
                        a = f's{s} m{m} {off} {P}'
                        if e['k'] == 'n':
                            notes.append(f's{s} m{m} {off} {q} plain {P}')
                            z = a
                        elif e['k'] == 'b':
                            notes.append(f's{s} m{m} {off} {q} bowed {P} strokes {strokes(e["u"])}')
                            z = a
                        else:
                            P2 = ' '.join(sorted(e['p2']))
                            notes.append(f's{s} m{m} {off} {q} fingered {P} / {P2} strokes {strokes(e["u"])}')
                            z = f's{s} m{m} {off + q / 2} {P2}'
                        if '(' in e.get('sl', ''):
                            op[v] = a
                        if ')' in e.get('sl', ''):
                            slurs.append(op.pop(v) + ' - ' + z)
                        if e.get('tie') == 's':
                            ties.append(f's{s} m{m} {off} start')
                        if e.get('tie') == 'e':
                            ties.append(f's{s} m{m} {off} stop')
                        if e.get('acc'):
                            accs.append(a)
                    off += q
    return {'notes': sorted(notes), 'slurs': sorted(slurs), 'ties': sorted(ties), 'accents': sorted(accs)}


def flags_of(n):
    return max(0, strokes({'whole': 1, 'half': 2, 'quarter': 4, 'eighth': 8, '16th': 16, '32nd': 32, '64th': 64, '128th': 128}.get(n.duration.type, 1)))


def names(n):
    return ' '.join(sorted(p.nameWithOctave for p in n.pitches))


def facts(sc):
    notes, ties, accs, addr = [], [], [], {}
    tr1, tr2 = {}, {}
    for sp in sc.recurse().getElementsByClass(m21.expressions.TremoloSpanner):
        el = sp.getSpannedElements()
        if len(el) != 2:
            notes.append(f'fingered tremolo of {len(el)} notes')
            continue
        tr1[id(el[0])] = (sp, el[1])
        tr2[id(el[1])] = el[0]
    for s, part in enumerate(sc.parts):
        for m, me in enumerate(part.getElementsByClass(m21.stream.Measure)):
            for n in me.recurse().notes:
                o = Fraction(m21.common.opFrac(n.getOffsetInHierarchy(me)))
                P = names(n)
                addr[id(n)] = f's{s} m{m} {o} {P}'
                q = Fraction(m21.common.opFrac(n.duration.quarterLength))
                vq = Fraction(4, {'whole': 1, 'half': 2, 'quarter': 4, 'eighth': 8, '16th': 16, '32nd': 32, '64th': 64, '128th': 128}.get(n.duration.type, 1))
                vq = vq * (2 - Fraction(1, 2 ** n.duration.dots))
                for t in n.duration.tuplets:
                    vq = vq * t.numberNotesNormal / t.numberNotesActual
                bow = [e for e in n.expressions if isinstance(e, m21.expressions.Tremolo)]
                if n.tie is not None:
                    ties.append(f's{s} m{m} {o} {n.tie.type}')
                if any(isinstance(a, m21.articulations.Accent) for a in n.articulations):
                    accs.append(addr[id(n)])
                if n.duration.isGrace:
                    notes.append(f's{s} m{m} {o} grace {P}')
                elif id(n) in tr1:
                    sp, n2 = tr1[id(n)]
                    q2 = Fraction(m21.common.opFrac(n2.duration.quarterLength))
                    extra = ''
                    if vq != q + q2:
                        extra = f' (shown length {vq})'
                    notes.append(f's{s} m{m} {o} {q + q2} fingered {P} / {names(n2)} strokes {sp.numberOfMarks + flags_of(n)}' + extra)
                elif id(n) in tr2:
                    pass
                elif bow:
                    extra = '' if vq == q else f' (shown length {vq})'
                    notes.append(f's{s} m{m} {o} {q} bowed {P} strokes {bow[0].numberOfMarks + flags_of(n)}' + extra)
                    if len(bow) > 1:
                        notes.append(f's{s} m{m} {o} {len(bow)} bowed tremolos')
                else:
                    extra = '' if vq == q else f' (shown length {vq})'
                    notes.append(f's{s} m{m} {o} {q} plain {P}' + extra)
    slurs = []
    for sl in sc.recurse().getElementsByClass(m21.spanner.Slur):
        slurs.append(addr.get(id(sl.getFirst()), '?') + ' - ' + addr.get(id(sl.getLast()), '?'))
    return {'notes': sorted(notes), 'slurs': sorted(slurs), 'ties': sorted(ties), 'accents': sorted(accs)}


def spelled(M):
    """the notes of the spelled-out score: (staff, measure, onset, length, pitches)"""
    out = []
    for s, ms in enumerate(M['st']):
        for m, vs in enumerate(ms):
            for vo in vs:
                off = Fraction(0)
                for e in vo:
                    if e['k'] == 'n':
                        out.append(f's{s} m{m} {off} {ql(e)} {" ".join(sorted(e["p"]))}')
                    elif e['k'] != 'r':
                        u = unit_ql(e)
                        for i in range(int(ql(e) / u)):
                            p = e['p2'] if e['k'] == 'f' and i % 2 else e['p']
                            out.append(f's{s} m{m} {off + i * u} {u} {" ".join(sorted(p))}')
                    off += ql(e)
    return sorted(out)


def played(sc):
    out = []
    for s, part in enumerate(sc.parts):
        for m, me in enumerate(part.getElementsByClass(m21.stream.Measure)):
            for n in me.recurse().notes:
                if not n.duration.isGrace:
                    out.append(f's{s} m{m} {Fraction(m21.common.opFrac(n.getOffsetInHierarchy(me)))} {Fraction(m21.common.opFrac(n.duration.quarterLength))} {names(n)}')
    return sorted(out)


def diff(a, b):
    x = [f'missing {i}' for i in a if i not in b] + [f'unexpected {i}' for i in b if i not in a]
    if not x and a != b:
        x = [f'{len(a)} expected, {len(b)} found']
    return '; '.join(x[:4])


ROUTES = ['hx', 'hu', 'mu', 'ms', 'H', 'HU', 'M', 'hx>M', 'hu>H', 'mu>H', 'ms>M', 'hx>H', 'mu>HU']

ROUTES2 = ['hx', 'hu', 'mu', 'H', 'M', 'hx>M', 'mu>H']


def source(r, M):
    f = r.split('>')[0]
    if f == 'hx':
        return kern_to_m21(kern(M, 'x'))
    if f == 'hu':
        return kern_to_m21(kern(M, 'u'))
    if f == 'mu':
        return mei_to_m21(mei(M, 'u'))
    if f == 'ms':
        return mei_to_m21(mei(M, 's'))
    return build(M)


def usable(r, M):
    """can the formats on this route express the case?"""
    if r.startswith('hx'):
        # under one beam two tremolos of the same notes cannot be told from one
        for ms in M['st']:
            for vs in ms:
                for vo in vs:
                    for a, b in zip(vo, vo[1:]):
                        if a['k'] == b['k'] == 'b' and b.get('beam', 'L') != 'L' and a['p'] == b['p']:
                            return False
    return True


def plan(M):
    return [r for r in (ROUTES if M.get('dev', 0) < 2 else ROUTES2) if usable(r, M)]


def run(M):
    disc, outc = [], None
    exp = expected(M)
    for r in plan(M):
        try:
            sc = source(r, M)
            to = r.split('>')[-1]
            if to in ('H', 'HU'):
                t = m21_to_kern(sc, expandTremolos=to == 'H')
                sc = kern_to_m21(t)
                if to == 'H':
                    if '@' in t:
                        disc.append((r, 'a tremolo is left unexpanded'))
                    got = played(kern_to_m21(t.replace('*tremolo', '*').replace('*Xtremolo', '*')))
                    if got != spelled(M):
                        disc.append((r, 'spelled out: ' + diff(spelled(M), got)))
                elif '*tremolo' in t:
                    disc.append((r, 'a tremolo is expanded'))
            elif to == 'M':
                sc = mei_to_m21(m21_to_mei(sc))
            got = facts(sc)
        except Prune:
            raise
        except Exception as e:   # pylint: disable=broad-except
            disc.append((r, routes.short_exc(e)))
            continue
        if outc is None:
            outc = got
        for k in exp:
            if exp[k] != got[k]:
                disc.append((r, f'{k}: ' + diff(exp[k], got[k])))
    return disc, str(outc)


def traces_of(M):
    return len(plan(M))


VALUES = [(4, 0), (2, 0), (1, 0), (2, 1), (4, 1), (8, 0), (8, 1), (16, 0), (1, 1), (2, 2), (4, 2)]


def fill(q, off, kind='n', p=('C5', 'D5', 'E5', 'F5', 'B4')):
    out = []
    q = Fraction(q)
    for d, dots in [(4, 0), (8, 0), (16, 0), (32, 0), (64, 0)] * 20:
        l = ql({'d': d})
        while l <= q and (off + l <= (off.numerator // off.denominator) + 1):
            out.append({'k': kind, 'd': d, 'p': [p[len(out) % len(p)]]} if kind == 'n' else {'k': 'r', 'd': d})
            q -= l
            off += l
    if q:
        raise Prune()
    return out


def legal(M):
    kern(M, 'x'), kern(M, 'u'), mei(M, 'u'), expected(M)    # raise Prune when the case cannot be written
    return M


def driver(c, cost=1):
    k = c.choose('kind', ['b', 'f'], 0)
    d, dots = c.choose('val', VALUES, cost)
    st = c.choose('marks', [2, 1, 3, 4], cost)
    flags = max(0, strokes(d))
    u = 2 ** (2 + flags + st)
    if u > 256:
        raise Prune()
    e = {'k': k, 'd': d, 'dots': dots, 'u': u, 'p': ['G4'], 'p2': ['B4']}
    if k == 'b':
        del e['p2']
    n = ql(e) / unit_ql(e)
    if n.denominator != 1 or n < 2 or ql(e) > 4 or k == 'f' and (n % 2 or n < 4):
        raise Prune()
    ps = c.choose('pitch', [None, 'chord', 'sharp', 'chord3', 'mixed', 'mixed2', 'low', 'same', 'fund'])
    if ps == 'chord':
        e['p'] = ['E4', 'G4']
        if k == 'f':
            e['p2'] = ['F4', 'A4']
    elif ps == 'sharp':
        e['p'] = ['F#4']
    elif ps == 'chord3':
        e['p'] = ['E-4', 'G4', 'B-4']
        if k == 'f':
            e['p2'] = ['F#4', 'A4', 'C5']
    elif ps in ('mixed', 'mixed2'):
        if k != 'f':
            raise Prune()
        e['p' if ps == 'mixed' else 'p2'] = ['E4', 'G4'] if ps == 'mixed' else ['A4', 'C5']
    elif ps == 'low':
        e['p'] = ['C3']
        if k == 'f':
            e['p2'] = ['C4']
    elif ps == 'same':
        if k != 'f':
            raise Prune()
        e['p2'] = ['G#4']
    elif ps == 'fund':
        if k != 'f':
            raise Prune()
        e['p'], e['p2'] = ['E4', 'G4'], ['G4', 'B4']
    before = c.choose('before', [0, '1', '1/2', '3', '2', '3/4', 'r1'])
    pre = [] if not before else fill(1, Fraction(0), 'r') if before == 'r1' else fill(Fraction(before), Fraction(0), p=('A4', 'F4', 'D5'))
    off = sum((ql(x) for x in pre), Fraction(0))
    vo = pre + [e]
    off += ql(e)
    nxt = c.choose('next', [None, 'b', 'f', 'b8', 'rest', 'b4b4', 'samepitch', 'f4'])
    more = []
    if nxt == 'b':
        more = [{'k': 'b', 'd': 4, 'u': 16, 'p': ['E5']}]
    elif nxt == 'samepitch':
        more = [{'k': 'b', 'd': 4, 'u': 32, 'p': list(e['p'])}]
    elif nxt == 'b4b4':
        more = [{'k': 'b', 'd': 4, 'u': 16, 'p': ['E5']}, {'k': 'b', 'd': 4, 'u': 32, 'p': ['F5']}]
    elif nxt == 'f':
        more = [{'k': 'f', 'd': 2, 'u': 16, 'p': ['E5'], 'p2': ['C5']}]
    elif nxt == 'f4':
        more = [{'k': 'f', 'd': 4, 'u': 32, 'p': ['E5'], 'p2': ['C5']}]
    elif nxt == 'b8':
        more = [{'k': 'b', 'd': 8, 'u': 32, 'p': ['E5']}]
    for x in more:
        vo.append(x)
        off += ql(x)
    if off > 4:
        raise Prune()
    vo = vo + fill(4 - off, off, 'r' if nxt == 'rest' else 'n')
    m2 = [{'k': 'n', 'd': 1, 'p': ['C5']}]
    ms = c.choose('m2', [None, 'b', 'f', 'same', 'first'])
    if ms == 'b':
        m2 = [{'k': 'b', 'd': 2, 'u': 32, 'p': ['C5']}, {'k': 'n', 'd': 2, 'p': ['D5']}]
    elif ms == 'f':
        m2 = [{'k': 'f', 'd': 1, 'u': 32, 'p': ['C5'], 'p2': ['E5']}]
    elif ms == 'same':
        m2 = [dict(x) for x in vo]
    measures = [[vo], [m2]]
    if ms == 'first':
        measures = [[m2], [vo]]
    mi = 1 if ms == 'first' else 0
    ex = c.choose('extra', [None, 'slurin', 'slurout', 'slurself', 'tiein', 'tieout', 'acc', 'grace', 'graceafter', 'slurover'])
    i = len(pre)
    if ex == 'slurin':
        if i == 0 or pre[-1]['k'] == 'r':
            raise Prune()
        pre[-1]['sl'], e['sl'] = '(', ')'
    elif ex == 'slurout':
        if i + 1 >= len(vo) or vo[i + 1]['k'] == 'r':
            raise Prune()
        e['sl'], vo[i + 1]['sl'] = '(', ')'
    elif ex == 'slurself':
        if k != 'f':
            raise Prune()
        e['sl'] = '()'
    elif ex == 'slurover':
        if i == 0 or pre[-1]['k'] == 'r' or i + 1 >= len(vo) or vo[i + 1]['k'] == 'r':
            raise Prune()
        pre[-1]['sl'], vo[i + 1]['sl'] = '(', ')'
    elif ex == 'tiein':
        if i == 0 or pre[-1]['k'] == 'r' or k == 'f':
            raise Prune()
        pre[-1]['p'], pre[-1]['tie'], e['tie'] = list(e['p']), 's', 'e'
    elif ex == 'tieout':
        if i + 1 >= len(vo) or vo[i + 1]['k'] != 'n' or k == 'f':
            raise Prune()
        vo[i + 1]['p'], e['tie'], vo[i + 1]['tie'] = list(e['p']), 's', 'e'
    elif ex == 'acc':
        e['acc'] = True
    elif ex == 'grace':
        e['grace'] = ['A4']
    elif ex == 'graceafter':
        if i + 1 >= len(vo):
            raise Prune()
        vo[i + 1]['grace'] = ['A4']
    staves = [measures]
    ov = c.choose('voice', [None, 'whole', 'halves', 'quarters', 'b', 'f', 'above', 'sameb'])
    other = {'whole': [{'k': 'n', 'd': 1, 'p': ['D4']}], 'halves': [{'k': 'n', 'd': 2, 'p': ['D4']}, {'k': 'n', 'd': 2, 'p': ['C4']}],
             'quarters': [{'k': 'n', 'd': 4, 'p': [p]} for p in ('D4', 'C4', 'E4', 'D4')],
             'b': [{'k': 'b', 'd': 2, 'u': 16, 'p': ['D4']}, {'k': 'n', 'd': 2, 'p': ['C4']}],
             'f': [{'k': 'n', 'd': 2, 'p': ['C4']}, {'k': 'f', 'd': 2, 'u': 32, 'p': ['D4'], 'p2': ['C4']}],
             'sameb': [{'k': 'b', 'd': 4, 'u': 32, 'p': ['D4']}, {'k': 'b', 'd': 2, 'dots': 1, 'u': 16, 'p': ['C4']}],
             'above': [{'k': 'n', 'd': 4, 'p': [p]} for p in ('G5', 'A5', 'G5', 'B5')]}
    if ov:
        o = other[ov]
        if ov == 'above':
            measures[mi].insert(0, o)
        else:
            measures[mi].append(o)
    os_ = c.choose('staff', [None, 'whole', 'eighths', 'b', 'f', 'top', 'fast'])
    if os_:
        o = {'whole': [{'k': 'n', 'd': 1, 'p': ['C3']}], 'eighths': [{'k': 'n', 'd': 8, 'p': [p]} for p in ('C3', 'D3', 'E3', 'F3') * 2],
             'b': [{'k': 'n', 'd': 2, 'p': ['C3']}, {'k': 'b', 'd': 2, 'u': 32, 'p': ['D3']}],
             'f': [{'k': 'f', 'd': 2, 'u': 16, 'p': ['C3'], 'p2': ['E3']}, {'k': 'n', 'd': 2, 'p': ['D3']}],
             'top': [{'k': 'n', 'd': 2, 'p': ['C5']}, {'k': 'n', 'd': 2, 'p': ['D5']}],
             'fast': [{'k': 'n', 'd': 16, 'p': [p]} for p in ('C3', 'D3', 'E3', 'F3') * 4]}[os_]
        w = [{'k': 'n', 'd': 1, 'p': ['C3']}]
        st2 = [[w], [o]] if mi else [[o], [w]]
        if os_ == 'top':
            staves.insert(0, st2)
        else:
            staves.append(st2)
    return legal({'st': staves})


def groups(c):
    """several bowed tremolos under one beam, and tremolos in tuplets"""
    what = c.choose('what', ['beam', 'tuplet'], 0)
    u = c.choose('u', [16, 32, 64], 0)
    n = c.choose('n', [2, 3, 4], 0)
    k = c.choose('kind', ['b', 'mixed'], 0)
    lead = c.choose('lead', [False, True])
    ps = c.choose('p', [['G4', 'A4', 'B4', 'C5'], ['G4', 'G4', 'A4', 'A4'], ['F#4', 'G4', 'F#4', 'G4'], ['C5', 'A4', 'F4', 'D4']])
    ch = c.choose('ch', [False, True])
    vo = [{'k': 'n', 'd': 4, 'p': ['D4']}] if lead else []
    if what == 'beam':
        d = c.choose('d', [8, 16], 0)
        if u <= d:
            raise Prune()
        for i in range(n):
            x = {'k': 'b', 'd': d, 'u': u, 'p': [ps[i]], 'beam': 'L' if i == 0 else 'J' if i == n - 1 else ''}
            if k == 'mixed':
                raise Prune()
            if ch and i == 1:
                x['p'] = ['E4', 'G4']
            vo.append(x)
    else:
        d = c.choose('d', [4, 8, 2], 0)
        if n != 3 or u <= d:
            raise Prune()
        for i in range(3):
            x = {'k': k if k != 'mixed' else ('b' if i == 1 else 'n'), 'd': d, 'u': u, 'p': [ps[i]], 'tup': [3, 2]}
            if x['k'] == 'n':
                del x['u']
            if ch and i == 0:
                x['p'] = ['E4', 'G4']
            if i == 2:
                x['tupend'] = True
            vo.append(x)
    off = sum((ql(e) for e in vo), Fraction(0))
    if off > 4:
        raise Prune()
    vo += fill(4 - off, off)
    ms = [[vo], [[{'k': 'n', 'd': 1, 'p': ['C5']}]]]
    ov = c.choose('voice', [None, 'whole', 'quarters'])
    if ov:
        ms[0].append([{'k': 'n', 'd': 1, 'p': ['D4']}] if ov == 'whole' else [{'k': 'n', 'd': 4, 'p': [p]} for p in ('D4', 'C4', 'E4', 'D4')])
    return legal({'st': [ms]})


def cases(tier, stats):
    seen = set()
    t = tier != 'quick'
    yield from F.enum(stats, lambda c: driver(c, 0), int(t), 'all', seen)
    yield from F.enum(stats, groups, 1 + t, 'group', seen)
    yield from F.enum(stats, driver, 2 + t, 'one', seen, trim=None if t else 6)
    yield from F.enum(stats, groups, 2 + t, 'group3', seen, trim=3)


def show(M):
    print(kern(M, 'x'))
    print(kern(M, 'u'))
    print(mei(M, 'u'))
