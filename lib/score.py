"""Abstract score model and its independent renderings (Humdrum text, MEI text, music21 objects).

A model is a JSON-able dict:
 parts:  list of lists of staff indices (top to bottom)
 meas:   list of {'n': number-string, 'len': quarterLength, 'ts': '4/4'|None, 'right': style, 'left': style}
 v:      v[staff][measure] = list of voices; a voice is a list of events
 event:  {'k': 'n'|'c'|'r'|'s', 'p': [pitch names], 'd': '4', 'dots': 0, 'tup': [a, n]|None,
          'g': None|'q'|'qq', ...features}
 further keys: see the feature sections of the renderers.
"""
from fractions import Fraction
import copy
import json
import re
from xml.sax.saxutils import escape, quoteattr

import music21 as m21
from music21.common import opFrac

TYPE_QL = {'000': 32, '00': 16, '0': 8, '1': 4, '2': 2, '4': 1, '8': Fraction(1, 2), '16': Fraction(1, 4),
           '32': Fraction(1, 8), '64': Fraction(1, 16), '128': Fraction(1, 32)}
M21_TYPE = {'000': 'maxima', '00': 'longa', '0': 'breve', '1': 'whole', '2': 'half', '4': 'quarter',
            '8': 'eighth', '16': '16th', '32': '32nd', '64': '64th', '128': '128th'}
MEI_DUR = {'000': 'maxima', '00': 'long', '0': 'breve'}


def ql(ev):
    if ev.get('g'):
        return Fraction(0)
    q = Fraction(TYPE_QL[ev['d']])
    tot = q
    for i in range(ev.get('dots', 0)):
        q /= 2
        tot += q
    if ev.get('tup'):
        a, n = ev['tup'][:2]
        tot = tot * Fraction(n, a)
    return tot


def N(d, p='C4', dots=0, **kw):
    e = {'k': 'n', 'p': [p], 'd': d, 'dots': dots, 'tup': None, 'g': None}
    e.update(kw)
    return e


def R(d, dots=0, **kw):
    e = {'k': 'r', 'p': [], 'd': d, 'dots': dots, 'tup': None, 'g': None}
    e.update(kw)
    return e


def S(d, dots=0, **kw):
    e = R(d, dots, **kw)
    e['k'] = 's'
    return e


def Ch(d, p=('C4', 'E4'), dots=0, **kw):
    e = N(d, 'C4', dots, **kw)
    e['k'] = 'c'
    e['p'] = list(p)
    return e


TS_LEN = {}


def tslen(ts):
    a, b = ts.split('/')
    return Fraction(sum(int(x) for x in a.split('+')) * 4, int(b))


def base(nstaves=1, nmeas=2, ts='4/4', parts=None):
    L = tslen(ts)
    clefs = ['G2'] * nstaves
    if nstaves > 1:
        clefs[-1] = 'F4'
    M = {'parts': parts or [[i] for i in range(nstaves)],
         'meas': [{'n': str(i + 1), 'len': str(L), 'ts': ts if i == 0 else None, 'right': None, 'left': None}
                  for i in range(nmeas)],
         'v': [[[[]] for _ in range(nmeas)] for _ in range(nstaves)],
         'clef': clefs, 'key': [0] * nstaves,
         'sigs': [],        # later changes: {'s','m','off','clef'|'key'|'ts'}
         'slurs': [], 'dyn': [], 'wedge': [], 'tempo': [], 'text': [], 'reh': [], 'cs': [], 'ott': [],
         'endings': [], 'trext': []}
    M['meas'][-1]['right'] = 'final'
    return M


def events(M, s, m, v):
    """[(onset, gpos, event)]; gpos<0: grace notes, counted towards the following main note"""
    out = []
    t = Fraction(0)
    pend = []
    for e in M['v'][s][m][v]:
        if e.get('g'):
            pend.append(e)
            continue
        for i, g in enumerate(pend):
            out.append((t, i - len(pend), g))
        pend = []
        out.append((t, 0, e))
        t += ql(e)
    for i, g in enumerate(pend):
        out.append((t, i - len(pend), g))
    return out


def nvoices(M, s, m):
    return len(M['v'][s][m])


def nstaves(M):
    return len(M['v'])


# ------------------------------------------------------------------ pitches
_PRE = re.compile(r'^([A-G])([#\-]*|n)(-?\d)$')


def splitp(p):
    """'F#4' -> ('F', '#', 4);  negative octaves are not used; flats are '-' """
    m = re.match(r'^([A-G])([#\-]*)(\d)$', p)
    return m.group(1), m.group(2), int(m.group(3))


def kern_pitch(p):
    step, acc, octv = splitp(p)
    if octv >= 4:
        return step.lower() * (octv - 3) + acc
    return step * (4 - octv) + acc


OTT = {'8va': 1, '8vb': -1, '15ma': 2, '15mb': -2, '22da': 3, '22db': -3}
STEPS = 'CDEFGAB'
SEMI = [0, 2, 4, 5, 7, 9, 11]


def transpose(p, dia, chroma):
    """pitch name moved by so many steps of the scale and so many semitones"""
    step, acc, octv = splitp(p)
    i = STEPS.index(step) + 7 * octv
    midi = SEMI[i % 7] + 12 * octv + {'': 0, '#': 1, '-': -1}.get(acc[:1], 0) * len(acc) + chroma
    j = i + dia
    a = midi - (SEMI[j % 7] + 12 * (j // 7))
    return STEPS[j % 7] + ('#' * a if a > 0 else '-' * -a) + str(j // 7)


def in_ott(M, s, m, t):
    """octaves that the notes of staff s starting at (m, t) sound above what is written"""
    for x in M['ott']:
        if x['s'] == s and (x['m'], Fraction(x['off'])) <= (m, Fraction(t)) < (x['m2'], Fraction(x['off2'])):
            return OTT[x['t']]
    return 0


def ott_refs(M, x):
    """the notes under an ottava: [(onset key, end key, ref)] in order"""
    out = []
    for m in range(len(M['meas'])):
        for v in range(nvoices(M, x['s'], m)):
            for j, (t, g, e) in enumerate(events(M, x['s'], m, v)):
                if e['k'] in ('nc' + ('r' if x.get('rests') else '')) and (x['m'], Fraction(x['off'])) <= (m, t) < (x['m2'], Fraction(x['off2'])):
                    out.append(((m, t, g, v), (m, t + ql(e), t, v), (x['s'], m, v, j)))
    return sorted(out)


def sounding(M, s, m, t, p):
    o = in_ott(M, s, m, t)
    tr = (M.get('trans') or {}).get(str(s))
    if o:
        p = transpose(p, 7 * o, 12 * o)
    if tr:
        p = transpose(p, *tr)
    return p


def sounding_key(M, s, k):
    """key signature at sounding pitch: sharps of the transposed tonic"""
    tr = (M.get('trans') or {}).get(str(s))
    if not tr:
        return k
    return k + (7 * tr[1] - 12 * tr[0])


def kern_recip(ev):
    if ev.get('rec'):
        return ev['rec']
    d = ev['d']
    base_ = Fraction(1, TYPE_QL[d]) * 4      # e.g. 4 for quarter
    if ev.get('tup'):
        a, n = ev['tup'][:2]
        base_ = base_ * Fraction(a, n)
    if base_.denominator == 1:
        r = str(base_)
    elif base_ == Fraction(1, 2):
        r = '0'
    elif base_ == Fraction(1, 4):
        r = '00'
    elif base_ == Fraction(1, 8):
        r = '000'
    else:
        r = f'{base_.numerator}%{base_.denominator}'
    return r + '.' * ev.get('dots', 0)


KERN_CLEF = {'G2': 'clefG2', 'F4': 'clefF4', 'C3': 'clefC3', 'C4': 'clefC4', 'C1': 'clefC1', 'C2': 'clefC2',
             'C5': 'clefC5', 'F3': 'clefF3', 'F5': 'clefF5', 'G1': 'clefG1', 'G2-8': 'clefGv2', 'G2+8': 'clefG^2',
             'F4-8': 'clefFv4', 'F4+8': 'clefF^4', 'G2-15': 'clefGvv2', 'G2+15': 'clefG^^2', 'X': 'clefX',
             'F4-15': 'clefFvv4', 'F4+15': 'clefF^^4', 'C4-8': 'clefCv4'}
SHARPS = 'fcgdaeb'
FLATS = 'beadgcf'


def kern_key(k):
    if k >= 0:
        return '*k[' + ''.join(x + '#' for x in SHARPS[:k]) + ']'
    return '*k[' + ''.join(x + '-' for x in FLATS[:-k]) + ']'


KERN_BAR = {None: '', 'regular': '', 'double': '||', 'final': '=', 'dashed': ':', 'dotted': '.',
            'hidden': '-', 'none': '-', 'heavy': '!', 'tick': '`', 'short': "'", 'heavy-light': '!|',
            'heavy-heavy': '!!', 'end': ':|!', 'start': '!|:', 'both': ':|!|:'}


# ------------------------------------------------------------------ Humdrum
KERN_ART = {'Staccato': "'", 'Tenuto': '~', 'Accent': '^', 'StrongAccent': '^^', 'Staccatissimo': '`',
            'Pizzicato': '"', 'DownBow': 'u', 'UpBow': 'v', 'BreathMark': ',', 'Harmonic': 'o'}


def kern_token(M, ref, ev, dec):
    """one event to a kern token; dec: per-token decorations from spanners"""
    k = ev['k']
    rec = kern_recip(ev)
    g = ev.get('g') or ''
    pre, post = '', ''
    d = dec.get(ref, {})
    pre += d.get('pre', '')
    post += d.get('post', '')
    a = ''
    if ev.get('kart'):
        a += ev['kart']
    for x in ev.get('art', []) if not ev.get('kart') else []:
        a += KERN_ART.get(x, '') if isinstance(x, str) else KERN_ART.get(x[0], '') + {'above': '>', 'below': '<'}[x[1]]
    for x in ev.get('kx', []):     # raw kern signifiers
        a += x
    bm = ev.get('kbeam', '')
    if k in 'rs':
        return pre + rec + g + 'r' + ('yy' if k == 's' else '') + a + bm + post
    ties = ev.get('tie')      # None | 's'|'c'|'e' | list per pitch
    toks = []
    when = None
    if M['ott'] or M.get('trans'):
        when = events(M, *ref[:3])[ref[3]][0]
    for i, p in enumerate(ev['p']):
        if when is not None:
            p = sounding(M, ref[0], ref[1], when, p)
        t = ties[i] if isinstance(ties, (list, tuple)) else ties
        s = ''
        tp = d.get('tie', '')
        if t == 's':
            s += '[' + tp
        if M.get('kopt', {}).get('order') == 'pitchfirst':
            s += kern_pitch(p) + rec + g
        elif M.get('kopt', {}).get('order') == 'glast':
            s += rec + kern_pitch(p) + g
        elif M.get('kopt', {}).get('order') == 'nat':
            kp = kern_pitch(p)
            s += rec + g + kp + ('' if kp[-1] in '#-' else 'n')
        else:
            s += rec + g + kern_pitch(p)
        s += (ev.get('kacc') or [''] * len(ev['p']))[i]
        if t == 'c':
            s += '_'
        if t == 'e':
            s += ']'
        if t == 'c':
            s += tp
        if i == 0:
            s = pre + s
        s += a if (i == 0) else ''
        if i == len(ev['p']) - 1:
            s += bm + post
        toks.append(s)
    return ' '.join(toks)


class Kern:
    def __init__(self, M):
        self.M = M
        self.lines = []
        S_ = nstaves(M)
        # columns left to right: lowest staff first
        self.cols = []           # (kind, staff, arg)
        self.nverse = [0] * S_
        self.hasdyn = [False] * S_
        self.hascs = [False] * S_
        for s in range(S_):
            for m in range(len(M['meas'])):
                for v in range(nvoices(M, s, m)):
                    for e in M['v'][s][m][v]:
                        self.nverse[s] = max([self.nverse[s]] + [ly[0] for ly in e.get('lyr', [])])
        for x in M['dyn'] + M['wedge']:
            if not x.get('kz'):
                self.hasdyn[x['s']] = True
        for x in M['cs']:
            self.hascs[x['s']] = True
        for s in reversed(range(S_)):
            self.cols.append(('kern', s, None))
            for n in range(1, self.nverse[s] + 1):
                self.cols.append(('text', s, n))
            if self.hasdyn[s]:
                self.cols.append(('dynam', s, None))
            if self.hascs[s]:
                self.cols.append((M.get('cskind', 'mxhm'), s, None))
        self.ko = M.get('kopt', {})
        xs = self.ko.get('extra')
        if xs:
            kind, pos = xs
            at = {'left': 0, 'right': len(self.cols), 'mid': 1}[pos]
            self.cols.insert(at, (kind, None, None))
        self.dec = {}
        self.rdf = False
        self.nv = {s: 1 for s in range(S_)}
        self.wedge_ends()
        self.decorate()

    def decorate(self):
        M = self.M
        # where several slurs start on a note the one that ends last is opened first
        for sl in sorted(M['slurs'], key=lambda x: (x['b'][1], x['b'][3]), reverse=True):
            a, b = tuple(sl['a']), tuple(sl['b'])
            el = '&' * sl.get('elide', 0)
            pl = {'above': '>', 'below': '<', None: ''}[sl.get('place')]
            if pl:
                self.rdf = True
            self.dec.setdefault(a, {}).setdefault('pre', '')
            self.dec[a]['pre'] += el + '(' + pl
            self.dec.setdefault(b, {}).setdefault('post', '')
            self.dec[b]['post'] += el + ')'
        for s in range(nstaves(M)):
            for m in range(len(M['meas'])):
                for v in range(nvoices(M, s, m)):
                    for j, (t, g, e) in enumerate(events(M, s, m, v)):
                        st = e.get('tiestyle')
                        if st in ('above', 'below'):
                            self.rdf = True
                            self.dec.setdefault((s, m, v, j), {})['tie'] = {'above': '>', 'below': '<'}[st]
                        elif st == 'hidden':
                            self.dec.setdefault((s, m, v, j), {})['tie'] = 'y'
                        elif st:
                            self.dec.setdefault((s, m, v, j), {})['lo'] = '!LO:T:' + {'dotted': 'dot', 'dashed': 'dash'}[st]

    def width(self, col):
        return self.nv[col[1]] if col[0] == 'kern' else 1

    def line(self, f):
        """f(col, voice) -> token"""
        out = []
        for c in self.cols:
            for v in range(self.width(c)):
                out.append(f(c, v))
        self.lines.append('\t'.join(out))

    def interp(self, f):
        """interpretation line, skipped if all null"""
        n = len(self.lines)
        self.line(f)
        if set(self.lines[-1].split('\t')) <= {'*', '!'}:
            self.lines = self.lines[:n]

    def staffinterp(self, vals, allvoices=True):
        self.interp(lambda c, v: vals.get(c[1], '*') if c[0] == 'kern' else '*')

    def header(self):
        M = self.M
        part_of = {s: i + 1 for i, p in enumerate(M['parts']) for s in p}
        self.line(lambda c, v: '**' + (self.ko.get('textkind', 'text') if c[0] == 'text' else self.ko.get('dynkind', 'dynam') if c[0] == 'dynam' else c[0]))
        if any(len(p) > 1 for p in M['parts']) or M.get('grp'):
            self.line(lambda c, v: f'*part{part_of[c[1]]}' if c[1] is not None else '*')
        if not self.ko.get('nostaff'):
            self.line(lambda c, v: f'*staff{c[1] + 1}' if c[1] is not None else '*')
        for k in ('iname', 'iabbr', 'icode', 'itrans'):
            if M.get(k):
                self.interp(lambda c, v, k=k: (
                    {'iname': '*I"', 'iabbr': "*I'", 'icode': '*I', 'itrans': '*ITr'}[k] + M[k][c[1]]
                    if c[0] == 'kern' and M[k][c[1]] else '*'))
        for k, tag in (('pname', '*I"'), ('pabbr', "*I'")):
            if M.get(k):
                def nm(c, v, k=k, tag=tag):
                    if c[0] != 'kern':
                        return '*'
                    pi = part_of[c[1]] - 1
                    first = M['parts'][pi][{'high': 0}.get(self.ko.get('names'), -1)]
                    if not M[k][pi] or (c[1] != first and self.ko.get('names') != 'all'):
                        return '*'
                    return tag + M[k][pi]
                self.interp(nm)
        if self.ko.get('btinterp'):
            self.interp(lambda c, v: self.ko['btinterp'] if c[0] == 'kern' else '*')
        self.staffinterp({s: '*' + KERN_CLEF[c] for s, c in enumerate(M['clef']) if c})
        self.staffinterp({s: kern_key(sounding_key(M, s, c)) for s, c in enumerate(M['key']) if c is not None})
        if M.get('trans'):
            self.staffinterp({int(s): f'*ITrd{-x[0]}c{-x[1]}' for s, x in M['trans'].items()})
        for x in M['ott']:
            if x.get('khead') and (x['m'], Fraction(x['off'])) == (0, 0):
                self.ottava(x, True)

    def ottava(self, x, start):
        tok = ('*' if start else '*X') + {'8va': '8va', '8vb': '8ba', '15ma': '15ma', '15mb': '15ba'}[x['t']]
        n = self.nv[x['s']]
        on = {'first': [0], 'all': range(n), 'last': [n - 1]}[x.get('kv', 'all')]
        self.interp(lambda c, v: tok if c[0] == 'kern' and c[1] == x['s'] and v in on else '*')

    def ottavas(self, i, t):
        for x in self.M['ott']:
            if (i, t) == self.ottend(x):
                self.ottava(x, False)
        for x in self.M['ott']:
            if (i, t) == (x['m'], Fraction(x['off'])) and not (x.get('khead') and (i, t) == (0, 0)):
                self.ottava(x, True)

    def ottend(self, x):
        e = (x['m2'], Fraction(x['off2']))
        if e[1] >= Fraction(self.M['meas'][e[0]]['len']) and x.get('kend') == 'after' and e[0] + 1 < len(self.M['meas']):
            e = (e[0] + 1, Fraction(0))
        return e

    def ts(self, ts, sym=None):
        self.interp(lambda c, v: '*M' + ts if c[0] == 'kern' else '*')
        if sym:
            x = {'common': '*met(c)', 'cut': '*met(c|)'}[sym]
            self.interp(lambda c, v: x if c[0] == 'kern' else '*')

    def split(self, target):
        for s in range(nstaves(self.M)):
            while self.nv[s] < target[s]:
                last = self.nv[s] - 1
                self.line(lambda c, v: '*^' if c[0] == 'kern' and c[1] == s and v == last else '*')
                self.nv[s] += 1

    def merge(self, target=None):
        for s in reversed(range(nstaves(self.M))):
            t = 1 if target is None else target[s]
            if self.nv[s] > t:
                lo = t - 1
                self.line(lambda c, v: '*v' if c[0] == 'kern' and c[1] == s and v >= lo else '*')
                self.nv[s] = t

    def barline(self, i):
        """barline before measure i (i == len: final)"""
        M = self.M
        ms = M['meas']
        right = ms[i - 1].get('right') if i > 0 else None
        left = ms[i].get('left') if i < len(ms) else None
        n = ms[i]['n'] if i < len(ms) else ''
        if i < len(ms) and ms[i].get('nonum'):
            n = ''
        key = right if right else None
        if left == 'start' and right == 'end':
            st = self.ko.get('rboth') or KERN_BAR['both']
        elif left == 'start':
            st = self.ko.get('rstart') or KERN_BAR['start']
        elif right == 'end' and self.ko.get('rend'):
            st = self.ko['rend']
        else:
            st = KERN_BAR[key]
        ferm = ms[i - 1].get('barferm', '') if i > 0 else ''
        if st == '=':
            tok = '=='
            if i < len(ms):
                tok = '==' + n
        else:
            tok = '=' + n + st
        if i == 0 and self.ko.get('firstbar'):
            tok += self.ko['firstbar']
        self.line(lambda c, v: tok + ferm)

    def render(self):
        M = self.M
        for x in M.get('refs_before', []):
            self.lines.append(x)
        if M.get('grp') and not self.ko.get('nodeco'):
            deco = '!!!system-decoration: ' + kern_deco(M['grp'], self.ko.get('deco'), M)
            if not self.ko.get('decoend'):
                self.lines.append(deco)
        self.header()
        nm = len(M['meas'])
        for i in range(nm):
            if i == 0 and M['meas'][0]['ts']:
                for t in M['tempo']:
                    if t['m'] == 0 and Fraction(t['off']) == 0 and t.get('k') in ('gtx', 'omd', 'omdmm'):
                        self.tempo_text(t)
                self.ts(M['meas'][0]['ts'], M['meas'][0].get('tssym'))
                for t in M['tempo']:
                    if t['m'] == 0 and Fraction(t['off']) == 0:
                        self.tempo(t, text=t.get('k') not in ('gtx', 'omd', 'omdmm'))
            for x in M['reh']:
                if x['m'] == i:
                    qo = Fraction(x['off'])
                    self.lines.append('!!LO:REH' + (':place=s%d' % (x['s'] + 1) if x.get('s') else '')
                                      + {'above': ':a', 'below': ':b', None: ''}[x.get('place')] + x.get('kx', '')
                                      + ':t=' + kern_lotext(x['t']) + (f':qo={x.get("qo") or (int(qo) if qo == int(qo) else float(qo))}' if qo else ''))
            if i > 0 or M['meas'][0].get('left') or not ((M.get('pickup') and M['meas'][0]['n'] == '0') or self.ko.get('firstbar') == 'none'):
                self.barline(i)
            sec = self.section(i)
            if sec:
                self.line(lambda c, v: '*>' + sec)
            if i > 0 and M['meas'][i]['ts']:
                self.ts(M['meas'][i]['ts'], M['meas'][i].get('tssym'))
            self.measure(i)
        self.barline(nm)
        self.line(lambda c, v: '*-')
        if self.rdf or M.get('rdf'):
            self.lines += M['rdf'] if isinstance(M.get('rdf'), list) else ['!!!RDF**kern: > = above', '!!!RDF**kern: < = below']
        if M.get('grp') and self.ko.get('decoend') and not self.ko.get('nodeco'):
            self.lines.append(deco)
        for x in M.get('refs_after', []):
            self.lines.append(x)
        return '\n'.join(self.lines) + '\n'

    def section(self, i):
        M = self.M
        if not M['endings']:
            return None
        # a new section starts after the last of a run of endings
        secs = {0: 'A'}
        name = 'A'
        inend = {m for en in M['endings'] for m in en['ms']}
        for k in range(len(M['meas'])):
            if k > 0 and k not in inend and k - 1 in inend:
                name = chr(ord(name) + 1)
                secs[k] = name
            for en in M['endings']:
                if en['ms'][0] == k:
                    if k > 0 and k - 1 in inend and en['n'] == '1':     # endings directly after endings
                        name = chr(ord(name) + 1)
                    secs[k] = name + en['n']
        return secs.get(i)

    def tempo_text(self, t):
        if not t.get('t'):
            return
        k = t.get('k')
        if k in ('omd', 'omdmm'):
            self.lines.append('!!!OMD: ' + t['t'])
        elif k == 'gtx':
            self.lines.append('!!LO:TX:omd:t=' + kern_lotext(t['t']))
        elif k == 'gtempo':
            self.lines.append('!!LO:TX:a:t=' + kern_lotext(t['t']))
        elif k in ('lotempo', 'lotx'):
            self.lo(0, 0, '!LO:TX' + (':tempo' if k == 'lotempo' else '') + {'above': ':a', 'below': ':b', None: ''}[t.get('place')] + ':t=' + kern_lotext(t['t']))

    def tempo(self, t, text=True):
        if text and t.get('k') in ('omd', 'gtx'):
            self.tempo_text(t)
        if t.get('k') == 'mmname':
            self.interp(lambda c, v: f'*MM[{t["t"]}]' if c[0] == 'kern' else '*')
        elif t.get('bpm') and not t.get('nomm'):
            self.interp(lambda c, v: f'*MM{t.get("kmm", t["bpm"])}' if c[0] == 'kern' and not (t.get('mmtop') and c[1]) else '*')
        if text and t.get('k') == 'omdmm':
            self.tempo_text(t)

    def measure(self, i):
        M = self.M
        S_ = nstaves(M)
        target = {s: nvoices(M, s, i) for s in range(S_)}
        grid = {}     # (t, g) -> {(s, v): (ref, ev)}
        for s in range(S_):
            for v in range(target[s]):
                evs = events(M, s, i, v)
                for j, (t, g, e) in enumerate(evs):
                    grid.setdefault((t, g), {})[(s, v)] = ((s, i, v, j), e)
        times = {}
        for x in M['dyn'] + M['wedge'] + M['text'] + M['tempo'] + M['reh'] + M['cs'] + M['sigs']:
            if x.get('m') == i:
                times.setdefault(Fraction(x['off']), 1)
        for x in M['wedge']:
            if x['m2'] == i:
                times.setdefault(Fraction(x['off2']), 1)
        mlen = Fraction(M['meas'][i]['len'])
        for t in times:
            if t < mlen:
                grid.setdefault((t, 0), {})
        # changes at the start of the measure, before the split
        early = [x for x in M['sigs'] if x['m'] == i and Fraction(x['off']) == 0]
        for x in early:
            self.sig(x)
        mid = self.ko.get('split') == 'mid'
        spans = {}
        if mid:
            # a voice exists only from its first to the end of its last visible event (voice 0 always)
            for s in range(S_):
                for v in range(1, target[s]):
                    evs = events(M, s, i, v)
                    vis = [(t, t + ql(e)) for t, g, e in evs if e['k'] != 's']
                    spans[(s, v)] = (vis[0][0], vis[-1][1]) if vis else (Fraction(0), Fraction(0))
                    if vis:
                        # a spine splits where its note starts, never in the middle of a note
                        on0 = {t for t, g, e in events(M, s, i, 0)}
                        on = [t for t, g, e in evs if t in on0 and t <= vis[0][0]]
                        spans[(s, v)] = (max(on), vis[-1][1])
                if target[s] > 2:
                    lo = min(spans[(s, v)][0] for v in range(1, target[s]))
                    hi = max(spans[(s, v)][1] for v in range(1, target[s]))
                    for v in range(1, target[s]):
                        spans[(s, v)] = (lo, hi)
        else:
            self.split(target)
        for (t, g) in sorted(grid):
            row = grid[(t, g)]
            if mid:
                now = {s: 1 + sum(1 for v in range(1, target[s]) if spans[(s, v)][0] <= t < spans[(s, v)][1]
                                  or (t == spans[(s, v)][1] and g < 0 and False)) for s in range(S_)}
                self.merge({s: min(now[s], self.nv[s]) for s in now})
                self.split(now)
                row = {(s, v): x for (s, v), x in row.items() if v < self.nv[s]}
                if not row:
                    continue
            first_g = min(gg for (tt, gg) in grid if tt == t)
            if g == first_g and t > 0:
                for x in M['sigs']:
                    if x['m'] == i and Fraction(x['off']) == t:
                        self.sig(x)
            if g == first_g:
                self.ottavas(i, t)
                for x in M['tempo']:
                    if x['m'] == i and Fraction(x['off']) == t and not (i == 0 and t == 0):
                        self.tempo(x)
            for (s, v), (ref, e) in sorted(row.items()):
                for ly in e.get('lyr', []):
                    if len(ly) > 3 and ly[3]:
                        self.line(lambda c, vv, s=s, ly=ly: '*v:' + ly[3] if c[0] == 'text' and c[1] == s
                                  and c[2] == ly[0] else '*')
            if g == 0:
                self.layout(i, t, row)
            else:
                for (s, v), (ref, e) in sorted(row.items()):
                    for x in e.get('klo', []):
                        self.lo(s, v, x)
            self.row(i, t, g, row)
            cm = self.ko.get('comments')
            if cm == 'global':
                self.lines.append('!! a comment')
            elif cm == 'empty':
                self.lines.append('!!')
            elif cm == 'local':
                self.line(lambda c, v: '! x' if v == 0 and c[0] == 'kern' else '!')
            elif cm == 'nullinterp':
                self.line(lambda c, v: '*')
            elif cm == 'ref':
                self.lines.append('!!!ONB: a note')
            elif cm == 'nullrow':
                self.line(lambda c, v: '.')
            elif cm == 'blank':
                self.lines.append('')
        for x in M['ott']:
            if self.ottend(x) == (i, mlen):
                self.ottava(x, False)
        if self.ko.get('split') == 'keep':
            nxt = {s: (nvoices(M, s, i + 1) if i + 1 < len(M['meas']) else 1) for s in range(S_)}
            self.merge({s: min(self.nv[s], nxt[s]) for s in nxt})
        else:
            self.merge()

    def sig(self, x):
        if 'clef' in x:
            tok = '*' + KERN_CLEF[x['clef']]
        elif 'key' in x:
            return self.interp(lambda c, v: kern_key(sounding_key(self.M, c[1], x['key']))
                               if c[0] == 'kern' and (x['s'] is None or c[1] == x['s']) else '*')
        else:
            tok = '*M' + x['ts']
        self.interp(lambda c, v: tok if c[0] == 'kern' and (x['s'] is None or c[1] == x['s']) else '*')

    def lo(self, s, v, text):
        """local layout comment on kern column of staff s voice v"""
        self.line(lambda c, vv: text if c[0] == 'kern' and c[1] == s and vv == v else '!')

    def layout(self, i, t, row):
        M = self.M
        for (s, v), (ref, e) in sorted(row.items()):
            for x in e.get('klo', []) + ([self.dec[ref]['lo']] if self.dec.get(ref, {}).get('lo') else []):
                self.lo(s, v, x)
        for x in M['text']:
            if x['m'] == i and Fraction(x['off']) == t:
                st = {'': '', 'italic': ':i', 'bold': ':B', 'bolditalic': ':Bi'}[x.get('style', '')]
                st = x.get('kst', st)
                pl = {'above': ':a', 'below': ':b', None: ''}[x.get('place')]
                if x.get('kglobal'):
                    self.lines.append(f'!!LO:TX{pl}{st}:t=' + kern_lotext(x['t']))
                else:
                    tx = f':t={kern_lotext(x["t"])}'
                    self.lo(x['s'], x.get('v', 0), f'!LO:TX{tx}{pl}{st}' if x.get('korder') else f'!LO:TX{pl}{st}{tx}')
        for x in M['tempo']:
            if x['m'] == i and Fraction(x['off']) == t and x.get('k') in ('lotempo', 'lotx', 'gtempo'):
                self.tempo_text(x)
        for x in M['dyn']:
            if x['m'] == i and Fraction(x['off']) == t:
                lo = ([x['klo']] if x.get('klo') else []) + ([x['place'][0]] if x.get('place') and not x.get('kpos') else [])
                if lo:
                    self.line(lambda c, v: ('!LO:DY:' + ':'.join(lo)) if c[0] == 'dynam' and c[1] == x['s'] else '!')
        for x in M['wedge']:
            if x['m'] == i and Fraction(x['off']) == t and x.get('place') and not x.get('kpos'):
                self.line(lambda c, v: ('!LO:HP:' + x['place'][0]) if c[0] == 'dynam' and c[1] == x['s'] else '!')
        for x in M['dyn'] + M['wedge']:
            if x['m'] == i and Fraction(x['off']) == t and x.get('place') and x.get('kpos'):
                self.line(lambda c, v: ('*' + x['place']) if c[0] == 'dynam' and c[1] == x['s'] else '*')

    def wsame(self, x, i, t):
        return self.wend.get((x['s'], x['m'], x['off'])) == (i, t) == (x['m'], Fraction(x['off']))

    def wedge_ends(self):
        """(m, t) of the row where the hairpin's end is written: where it ends, or (if there is no row, at the end of
        the last measure, or if asked for) the last row before"""
        M = self.M
        self.wend = {}
        for x in M['wedge']:
            e = (x['m2'], Fraction(x['off2']))
            if e[1] >= Fraction(M['meas'][e[0]]['len']):
                nxt = (e[0] + 1, Fraction(0))
                if nxt[0] < len(M['meas']) and not x.get('kdouble'):
                    e = nxt
                    x['m2'], x['off2'] = e[0], str(e[1])
                else:
                    e = None
            elif x.get('kdouble'):
                e = None
            if e is None:
                # the row whose line ends at the end of the hairpin
                end = (x['m2'], Fraction(x['off2']))
                rows = [(m, t) for m in range(len(M['meas'])) for t in self.rowtimes(m) if (m, t) < end]
                e = max(rows)
            self.wend[(x['s'], x['m'], x['off'])] = e

    def rowtimes(self, i):
        M = self.M
        ts = {t for s in range(nstaves(M)) for v in range(nvoices(M, s, i)) for t, g, e in events(M, s, i, v) if g == 0}
        for x in M['dyn'] + M['wedge'] + M['text'] + M['tempo'] + M['reh'] + M['cs'] + M['sigs']:
            if x.get('m') == i:
                ts.add(Fraction(x['off']))
        for x in M['wedge']:
            if x['m2'] == i:
                ts.add(Fraction(x['off2']))
        return {t for t in ts if t < Fraction(M['meas'][i]['len'])}

    def row(self, i, t, g, row):
        M = self.M

        def tok(c, v):
            kind, s, arg = c
            if kind == 'kern':
                if (s, v) in row:
                    ref, e = row[(s, v)]
                    return kern_token(M, ref, e, self.dec)
                return '.'
            if s is None:
                return '.'
            if kind == 'text':
                for v2 in range(nvoices(M, s, i)):
                    if (s, v2) in row:
                        for ly in row[(s, v2)][1].get('lyr', []):
                            if ly[0] == arg:
                                return kern_syl(ly)
                return '.'
            if g != 0:
                return '.'
            if kind == 'dynam':
                out = []
                for x in M['wedge']:
                    if x['s'] == s and self.wend.get((x['s'], x['m'], x['off'])) == (i, t) and not self.wsame(x, i, t):
                        m2, o2 = x['m2'], Fraction(x['off2'])
                        end = {'cresc': '[', 'dim': ']'}[x['w']]
                        out.append(end if (m2, o2) == (i, t) else end * 2)
                for x in M['dyn']:
                    if x['s'] == s and x['m'] == i and Fraction(x['off']) == t and not x.get('kz'):
                        out.append(x.get('kt', x['t']))
                for x in M['wedge']:
                    if x['s'] == s and x['m'] == i and Fraction(x['off']) == t:
                        out.append({'cresc': '<', 'dim': '>'}[x['w']])
                        if self.wsame(x, i, t):
                            out[-1] += {'cresc': '[', 'dim': ']'}[x['w']]
                if not out and self.ko.get('wcont'):
                    for x in M['wedge']:
                        a, b = (x['m'], Fraction(x['off'])), (x['m2'], Fraction(x['off2']))
                        if x['s'] == s and a < (i, t) < b and self.wend.get((x['s'], x['m'], x['off']), b) > (i, t):
                            out.append({'cresc': '(', 'dim': ')'}[x['w']])
                return ('' if self.ko.get('dynjoin') else ' ').join(out) or '.'
            cs = [x for x in M['cs'] if x['s'] == s and x['m'] == i and Fraction(x['off']) == t]
            if kind == 'mxhm':
                return cs[0]['mxhm'] if cs else '.'
            return ' '.join(x['harte'] for x in cs) or '.'
        self.line(tok)


def kern_syl(ly):
    verse, text, syl = ly[:3]
    if text[0] in '!*' and syl in (None, 'single', 'begin'):
        text = '\\' + text
    return {'single': text, 'begin': text + '-', 'middle': '-' + text + '-', 'end': '-' + text, None: text}[syl]


def to_kern(M):
    return Kern(M).render()


# ------------------------------------------------------------------ MEI
MEI_ACC = {'#': 's', '-': 'f', '##': 'ss', '--': 'ff', '': None, '###': 'ts', '---': 'tf'}
MEI_BAR = {None: None, 'regular': 'single', 'double': 'dbl', 'final': 'end', 'dashed': 'dashed', 'dotted': 'dotted',
           'hidden': 'invis', 'none': 'invis', 'end': 'rptend', 'start': 'rptstart', 'both': 'rptboth',
           'heavy-light': None, 'heavy': 'heavy', 'tick': None, 'short': None, 'heavy-heavy': None}
MEI_ART = {'Staccato': 'stacc', 'Tenuto': 'ten', 'Accent': 'acc', 'StrongAccent': 'marc',
           'Staccatissimo': 'stacciss', 'DownBow': 'dnbow', 'UpBow': 'upbow', 'Spiccato': 'spicc',
           'Harmonic': 'harm', 'Doit': 'doit', 'Plop': 'plop', 'Falloff': 'fall', 'SnapPizzicato': 'snap',
           'Stopped': 'stop', 'OpenString': 'open', 'DoubleTongue': 'dbltongue', 'TripleTongue': 'trpltongue',
           'OrganToe': 'toe', 'OrganHeel': 'heel'}


def attrs(d):
    return ''.join(f' {k}={quoteattr(str(v))}' for k, v in d.items() if v is not None)


class Mei:
    """options in M['meiopt']: accid 'attr'|'child', dots 'attr'|'child', tie 'attr'|'elem', artic 'attr'|'child',
    sig 'attr'|'child', slur 'ids'|'tstamp', gracegrp bool"""

    def __init__(self, M):
        self.M = M
        self.o = M.get('meiopt', {})
        self.ids = {}
        self.out = []

    def id(self, ref):
        return 'e' + '-'.join(str(x) for x in ref)

    def nid(self, ref, i):
        return self.id(ref) + f'-n{i}'

    def mkacc(self, p, key):
        step, acc, octv = splitp(p)
        return MEI_ACC[acc]

    def note_xml(self, ref, e, i, inchord):
        step, acc, octv = splitp(e['p'][i])
        at = {'xml:id': self.nid(ref, i) if inchord else self.id(ref), 'pname': step.lower(), 'oct': octv}
        if self.M['ott'] and self.o.get('octges'):
            o = in_ott(self.M, ref[0], ref[1], events(self.M, *ref[:3])[ref[3]][0])
            if o:
                at['oct.ges'] = octv + o
        child = ''
        av = MEI_ACC[acc]
        mode = (e.get('macc') or [None] * len(e['p']))[i]     # None | 'accid' | 'ges' | ('accid', func)
        if mode is None:
            mode = self.o.get('accid', 'ges')
        if mode == 'accid':
            at['accid'] = av or 'n'
        elif mode == 'child':
            child += f'<accid accid="{av or "n"}"/>'
        elif mode == 'gesp':
            pass
        elif mode == 'childges':
            if av:
                child += f'<accid accid.ges="{av}"/>'
        elif mode == 'both':
            at['accid'] = at['accid.ges'] = av or 'n'
        elif mode == 'childboth':
            child += f'<accid accid="{av or "n"}" accid.ges="{av or "n"}"/>'
        elif mode == 'gesn':
            at['accid.ges'] = av or 'n'
        elif isinstance(mode, (list, tuple)) and mode[0] == 'alt':    # another spelling of the same accidental
            at['accid'] = mode[1]
        elif isinstance(mode, (list, tuple)):
            child += f'<accid accid="{av or "n"}" ' + ' '.join(f'{k}="{v}"' for k, v in mode[1].items()) + '/>'
        elif av:
            at['accid.ges'] = av
        ties = e.get('tie')
        t = ties[i] if isinstance(ties, (list, tuple)) else ties
        if t and self.o.get('tie', 'attr') == 'attr':
            at['tie'] = {'s': 'i', 'c': 'm', 'e': 't'}[t]
        if not inchord:
            self.common(ref, e, at)
            child += self.children(ref, e)
        return f'<note{attrs(at)}' + (f'>{child}</note>' if child else '/>')

    def common(self, ref, e, at):
        at['dur'] = MEI_DUR.get(e['d'], e['d'])
        if e.get('dots') and (self.o.get('dots', 'attr') == 'attr' or e['k'] == 's'):
            at['dots'] = e['dots']
        if e.get('g'):
            at['grace'] = {'q': 'unacc', 'qq': 'acc'}[e['g']]
            if e['g'] == 'q' and self.o.get('slash'):
                at['stem.mod'] = '1slash'
        if e.get('mart'):
            pass
        elif e.get('art') and self.o.get('artic', 'attr') == 'attr' and all(isinstance(x, str) for x in e['art']):
            at['artic'] = ' '.join(MEI_ART[x] for x in e['art'] if x in MEI_ART)
        if e.get('mtup'):
            at['tuplet'] = e['mtup']
        if e.get('breaksec') is not None:
            at['breaksec'] = e['breaksec']
        for k, v in (e.get('mat') or {}).items():
            at[k] = v
        sl = self.slurattr.get(ref)
        if sl:
            at['slur'] = ' '.join(sl)

    def children(self, ref, e):
        c = ''
        if e.get('dots') and self.o.get('dots', 'attr') != 'attr' and e['k'] != 's':
            c += '<dot/>' * e['dots']
        if e.get('mart'):
            c += e['mart']
        elif e.get('art') and not (self.o.get('artic', 'attr') == 'attr' and all(isinstance(x, str) for x in e['art'])):
            for x in e['art']:
                nm, pl = (x, None) if isinstance(x, str) else x
                c += f'<artic{attrs({"artic": MEI_ART.get(nm), "place": pl})}/>'
        for ly in e.get('lyr', []):
            c += mei_syl(ly, self.o)
        c += ''.join(e.get('mch', []))
        return c

    def event(self, ref, e):
        k = e['k']
        if k == 'n':
            return self.note_xml(ref, e, 0, False)
        if k == 'c':
            at = {'xml:id': self.id(ref)}
            self.common(ref, e, at)
            inner = ''.join(self.note_xml(ref, e, i, True) for i in range(len(e['p'])))
            return f'<chord{attrs(at)}>{inner}{self.children(ref, e)}</chord>'
        at = {'xml:id': self.id(ref)}
        self.common(ref, e, at)
        tag = 'rest' if k == 'r' else 'space'
        c = self.children(ref, e)
        return f'<{tag}{attrs(at)}' + (f'>{c}</{tag}>' if c else '/>')

    def layer(self, s, m, v):
        M = self.M
        evs = events(M, s, m, v)
        out = []
        i = 0
        sigs = [x for x in M['sigs'] if x['m'] == m and (x['s'] is None or x['s'] == s)
                and v == x.get('v', 0) and Fraction(x['off']) > 0]
        grp = False
        opens, closes = self.nests(evs, s, m, v)
        for j, (t, g, e) in enumerate(evs):
            ref = (s, m, v, j)
            for x in list(sigs):
                if Fraction(x['off']) <= t and 'clef' in x:
                    out.append(mei_clef(x['clef']))
                    sigs.remove(x)
            if not e.get('g') and grp:
                out.append('</graceGrp>')
                grp = False
            out += opens.get(j, [])
            if e.get('g') and self.o.get('gracegrp') and not grp:
                out.append('<graceGrp>')
                grp = True
            xml = self.event(ref, e)
            w = M.get('meiwrap')
            if w and tuple(w['ref']) == ref:
                xml = mei_wrap(w['tag'], xml)
            if len(evs) == 1 and self.o.get('mrest') and e['k'] in 'rs' and not e.get('tup'):
                xml = xml.replace('<rest', '<mRest').replace('<space', '<mSpace')
                xml = re.sub(r' (dur|dots)="[^"]*"', '', xml)
            out.append(xml)
            out += closes.get(j, [])
        if grp:
            out.append('</graceGrp>')
        for x in sigs:
            if 'clef' in x:
                out.append(mei_clef(x['clef']))
        return f'<layer n="{v + 1}">' + ''.join(out) + '</layer>'

    def nests(self, evs, s, m, v):
        """opening and closing tags of beams and tuplets by event index"""
        bt = self.o.get('bt')
        spans = []
        j = 0
        start = None
        for j, (t, g, e) in enumerate(evs):
            if e.get('mb') in ('start', 'both'):
                start = j
            if e.get('mb') in ('stop', 'both'):
                ref = [(s, m, v, i) for i in range(start, j + 1) if evs[i][2]['k'] in 'nc' and evs[i][2].get('mbeam')]
                if bt == 'beamspan' and len(ref) > 1 and len({evs[x[3]][2]['d'] for x in ref}) == 1 \
                        and not any(evs[x[3]][2].get('breaksec') for x in ref):
                    self.spans.append((m, f'<beamSpan startid="#{self.id(ref[0])}" endid="#{self.id(ref[-1])}" plist="'
                                       + ' '.join('#' + self.id(r) for r in ref) + '"/>'))
                else:
                    spans.append((start, j, 'beam', '<beam>'))
        j = 0
        while j < len(evs):
            e = evs[j][2]
            if e.get('tup') and not e.get('g'):
                a, n = e['tup'][:2]
                need = tuplen(evs, j)
                k = j
                mem = []
                while True:
                    if not evs[k][2].get('g'):
                        need -= 1
                        mem.append((s, m, v, k))
                        if need == 0:
                            break
                    k += 1
                if bt == 'tupspan':
                    self.spans.append((m, f'<tupletSpan num="{a}" numbase="{n}" startid="#{self.id(mem[0])}" endid="#{self.id(mem[-1])}" plist="'
                                       + ' '.join('#' + self.id(r) for r in mem) + '"/>'))
                elif bt == 'tupspanids':
                    self.spans.append((m, f'<tupletSpan num="{a}" numbase="{n}" startid="#{self.id(mem[0])}" endid="#{self.id(mem[-1])}"/>'))
                elif bt == 'tupattr' and (a, n) == (3, 2) and len(mem) > 1:
                    for r in mem:
                        evs[r[3]][2]['mtup'] = 'i1' if r == mem[0] else 't1' if r == mem[-1] else 'm1'
                elif bt == 'nonumbase' and (a, n) == (3, 2):
                    spans.append((j, k, 'tuplet', f'<tuplet xml:id="t{s}-{m}-{v}-{j}">'))
                else:
                    spans.append((j, k, 'tuplet', f'<tuplet xml:id="t{s}-{m}-{v}-{j}" num="{a}" numbase="{n}">'))
                j = k
            j += 1
        first = 'beam' if bt == 'tupin' else 'tuplet'
        opens, closes = {}, {}
        for a, b, tag, x in sorted(spans, key=lambda y: (y[0], -y[1], y[2] != first)):
            opens.setdefault(a, []).append(x)
        for a, b, tag, x in sorted(spans, key=lambda y: (-y[0], y[1], y[2] == first)):
            closes.setdefault(b, []).append(f'</{tag}>')
        return opens, closes

    def tstamp(self, m, off):
        ts = self.curts
        unit = int(ts.split('/')[1])
        b = Fraction(off) * unit / 4 + 1
        return fdec(b)

    def where(self, x, m):
        a = {'staff': x.get('s', 0) + 1}
        r = find_at(self.M, x.get('s', 0), m, x['off']) if x.get('mids') == 'ids' else None
        if r:
            a['startid'] = '#' + self.id(r)
        else:
            a['tstamp'] = self.tstamp(m, x['off'])
        if x.get('mids') == 'nostaff':
            del a['staff']
        return a

    def ctrl(self, m):
        M = self.M
        out = []
        if self.o.get('tie') == 'elem':
            out += self.tie_elems(m)
        for sl in M['slurs']:
            if sl['a'][1] == m and not self.o.get('slur') == 'attr':
                out.append(f'<slur{attrs({"startid": "#" + self.id(sl["a"]), "endid": "#" + self.id(sl["b"]), "curvedir": sl.get("place")})}/>')
        for x in M['dyn']:
            if x['m'] == m:
                a = {"place": x.get("place")}
                r = find_at(M, x['s'], m, x['off']) if x.get('mids') else None
                if x.get('mids') and r:
                    a['startid'] = '#' + self.id(r)
                    if x['mids'] != 'nostaff':
                        a['staff'] = x['s'] + 1
                else:
                    a.update({"staff": x["s"] + 1, "tstamp": self.tstamp(m, x["off"])})
                out.append(f'<dynam{attrs(a)}>{x.get("mx") or escape(x["t"])}</dynam>')
        for x in M['wedge']:
            if x['m'] == m:
                a = {"staff": x["s"] + 1, "form": {"cresc": "cres", "dim": "dim"}[x["w"]], "place": x.get("place")}
                how = x.get('mids') or ''
                r, r2 = find_at(M, x['s'], m, x['off']), find_end(M, x['s'], x['m'], x['off'], x['m2'], x['off2'])
                if 's' in how and r:
                    a['startid'] = '#' + self.id(r)
                else:
                    a['tstamp'] = self.tstamp(m, x["off"])
                if 'e' in how and r2:
                    a['endid'] = '#' + self.id(r2)
                else:
                    a['tstamp2'] = (f'{x["m2"] - m}m+' if not (x.get('mshort') and x['m2'] == m) else '') + self.tstamp(x['m2'], x['off2'])
                if x.get('nostaff') and 's' in how and r:
                    del a['staff']
                out.append(f'<hairpin{attrs(a)}/>')
        for x in M['text']:
            if x['m'] == m:
                t = mei_text(x['t'])
                st = x.get('style', '')
                if st:
                    a = {}
                    if 'italic' in st:
                        a['fontstyle'] = 'italic'
                    if 'bold' in st:
                        a['fontweight'] = 'bold'
                    t = f'<rend{attrs(a)}>{t}</rend>'
                a = self.where(x, m)
                a['place'] = x.get('place')
                out.append(f'<dir{attrs(a)}>{x.get("mx", "%s") % t}</dir>')
        for x in M['tempo']:
            if x['m'] == m:
                out.append(mei_tempo(x, self.where(x, m)))
        for x in M['reh']:
            if x['m'] == m:
                a = {'staff': x.get('s', 0) + 1, 'tstamp': self.tstamp(m, x['off']), 'place': x.get('place')}
                if x.get('mids') == 'nostaff':
                    del a['staff']
                if x.get('mids') == 'nots' and Fraction(x['off']) == 0:
                    del a['tstamp']
                out.append(f'<reh{attrs(a)}>{x.get("mx", "%s") % mei_text(x["t"])}</reh>')
        for x in M['ott']:
            if x['m'] == m:
                n = OTT[x['t']]
                a = {'staff': x['s'] + 1, 'dis': {1: 8, 2: 15, 3: 22}[abs(n)], 'dis.place': 'above' if n > 0 else 'below'}
                refs = ott_refs(M, x)
                if 's' in x.get('mids', 'se'):
                    a['startid'] = '#' + self.id(refs[0][2])
                else:
                    a['tstamp'] = self.tstamp(m, x['off'])
                last = max(refs, key=lambda r: r[1])
                if 'e' in x.get('mids', 'se'):
                    a['endid'] = '#' + self.id(last[2])
                else:
                    a['tstamp2'] = f'{last[0][0] - m}m+' + self.tstamp(last[0][0], (last[0][1] + last[1][1]) / 2)
                if x.get('mnostaff'):
                    del a['staff']
                out.append(f'<octave{attrs(a)}/>')
        for x in M['cs']:
            if x['m'] == m:
                a = {'staff': x['s'] + 1, 'tstamp': self.tstamp(m, x['off'])}
                if x.get('reg', 'harte') == 'harte':
                    a['type'] = 'harte-no-commas:' + x['harte'].replace(',', '.')
                elif x['reg'] == 'm21':
                    a['type'] = 'music21-no-spaces:' + x['m21reg']
                if x.get('nostaff'):
                    del a['staff']
                out.append(f'<harm{attrs(a)}>{escape(x.get("print", x["harte"]))}</harm>')
        for s in range(nstaves(M)):
            for v in range(nvoices(M, s, m)):
                for j, (t, g, e) in enumerate(events(M, s, m, v)):
                    for c in e.get('mctl', []):
                        out.append(c.replace('@ID', '#' + self.id((s, m, v, j))).replace('@STAFF', str(s + 1))
                                   .replace('@TSTAMP+', self.tstamp(m, t + ql(e) / 2))
                                   .replace('@TSTAMP', self.tstamp(m, t)))
        for x in M.get('mctl', []):
            if x['m'] == m:
                out.append(x['xml'])
        bf = M['meas'][m].get('barferm')
        if bf:
            out.append(f'<fermata{attrs({"staff": " ".join(str(s + 1) for s in range(nstaves(M))), "tstamp": self.tstamp(m, M["meas"][m]["len"]), "place": "below" if "<" in bf else "above"})}/>')
        return ''.join(out)

    def tie_elems(self, m):
        """<tie> elements for ties starting in measure m: from each s/c to the next note of that pitch in the voice"""
        M = self.M
        out = []
        for s in range(nstaves(M)):
            seq = []
            maxv = max(nvoices(M, s, k) for k in range(len(M['meas'])))
            for v in range(maxv):
                flat = []
                for k in range(len(M['meas'])):
                    if v < nvoices(M, s, k):
                        for j, (t, g, e) in enumerate(events(M, s, k, v)):
                            flat.append(((s, k, v, j), e))
                for q, (ref, e) in enumerate(flat):
                    if ref[1] != m or not e.get('tie'):
                        continue
                    for i, p in enumerate(e['p']):
                        t = e['tie'][i] if isinstance(e['tie'], (list, tuple)) else e['tie']
                        if t not in ('s', 'c'):
                            continue
                        for ref2, e2 in flat[q + 1:]:
                            if p in e2['p']:
                                i2 = e2['p'].index(p)
                                a = self.nid(ref, i) if e['k'] == 'c' else self.id(ref)
                                b = self.nid(ref2, i2) if e2['k'] == 'c' else self.id(ref2)
                                out.append(f'<tie startid="#{a}" endid="#{b}"/>')
                                break
        return out

    def staffdef(self, s):
        M = self.M
        a = {'n': s + 1, 'lines': 5}
        child = ''
        ts = M['meas'][0]['ts']
        sym = M['meas'][0].get('tssym')
        if self.o.get('sig', 'child') == 'attr':
            shape, line, dis, place = clef_parts(M['clef'][s])
            a.update({'clef.shape': shape, 'clef.line': line, 'clef.dis': dis, 'clef.dis.place': place})
            a['keysig'] = mei_key(M['key'][s])
            if ts:
                a['meter.count'], a['meter.unit'] = ts.split('/')
            if sym:
                a['meter.sym'] = sym
        else:
            child += mei_clef(M['clef'][s])
            child += f'<keySig sig="{mei_key(M["key"][s])}"/>'
            if ts:
                c, u = ts.split('/')
                child += f'<meterSig{attrs({"count": c, "unit": u, "sym": sym})}/>'
        if M.get('iname') and M['iname'][s]:
            child = f'<label>{escape(M["iname"][s])}</label>' + child
        if M.get('iabbr') and M['iabbr'][s]:
            child = child.replace('</label>', f'</label><labelAbbr>{escape(M["iabbr"][s])}</labelAbbr>', 1)
        if M.get('pname'):
            pi = [i for i, p in enumerate(M['parts']) if s in p][0]
            name, abbr = M['pname'][pi], M['pabbr'][pi]
            if len(M['parts'][pi]) > 1 and M.get('mname', 'group') == 'group':
                name = abbr = None
            if self.o.get('labels') == 'attr':
                a['label'], a['label.abbr'] = name, abbr
            else:
                child = ((f'<label>{escape(name)}</label>' if name else '')
                         + (f'<labelAbbr>{escape(abbr)}</labelAbbr>' if abbr else '') + child)
        tr = (M.get('trans') or {}).get(str(s))
        if tr:
            a['trans.diat'], a['trans.semi'] = tr
        for k, v in (M.get('sdattr') or {}).items():
            if k.split(':')[0] == str(s):
                a[k.split(':')[1]] = v
        return f'<staffDef{attrs(a)}>{child}</staffDef>'

    def staffgrp(self):
        M = self.M
        if M.get('grp'):
            return self.grp_tree(M['grp'])
        inner = ''
        for p in M['parts']:
            if len(p) > 1:
                inner += '<staffGrp symbol="brace" bar.thru="true">' + ''.join(self.staffdef(s) for s in p) + '</staffGrp>'
            else:
                inner += self.staffdef(p[0])
        return f'<staffGrp>{inner}</staffGrp>'

    def grp_tree(self, t, top=True):
        M = self.M
        inner = ''.join(self.staffdef(x) if isinstance(x, int) else self.grp_tree(x, False) for x in t['k'])
        a = {'symbol': {'square': 'bracketsq'}.get(t.get('sym'), t.get('sym') or self.o.get('nosym'))}
        if t.get('bar') == 'mensur':
            a['bar.method'] = 'mensur'
        elif t.get('bar') is not None:
            a['bar.thru'] = 'true' if t['bar'] else 'false'
        name, abbr = t.get('name'), t.get('abbr')
        pi = [i for i, p in enumerate(M['parts']) if len(p) > 1 and p == grp_staves(t)]
        if pi and M.get('pname') and not t.get('dup') and M.get('mname', 'group') in ('group', 'both'):
            name, abbr = M['pname'][pi[0]], M['pabbr'][pi[0]]
        lab = ''
        if self.o.get('labels') == 'attr':
            a['label'], a['label.abbr'] = name, abbr
        else:
            lab = (f'<label>{escape(name)}</label>' if name else '') + (f'<labelAbbr>{escape(abbr)}</labelAbbr>' if abbr else '')
        return f'<staffGrp{attrs(a)}>{lab}{inner}</staffGrp>'

    def render(self):
        M = self.M
        self.slurattr = {}
        self.spans = []
        if M.get('beamspan'):
            r = [tuple(x) for x in M['beamspan']]
            self.spans.append((r[0][1], f'<beamSpan startid="#{self.id(r[0])}" endid="#{self.id(r[-1])}" plist="'
                               + ' '.join('#' + self.id(x) for x in r) + '"/>'))
        if self.o.get('slur') == 'attr':
            for k, sl in enumerate(M['slurs']):
                self.slurattr.setdefault(tuple(sl['a']), []).append(f'i{k + 1}')
                self.slurattr.setdefault(tuple(sl['b']), []).append(f't{k + 1}')
        body = []
        self.curts = M['meas'][0]['ts'] or '4/4'
        nm = len(M['meas'])
        ending_open = None
        for m in range(nm):
            for en in M['endings']:
                if en['ms'][0] == m:
                    body.append(f'<ending n={quoteattr(en["n"])}>')
            sd = ''
            if m > 0:
                x = M['meas'][m]
                if x['ts']:
                    self.curts = x['ts']
                    c, u = x['ts'].split('/')
                    if self.o.get('sig', 'child') == 'attr':
                        sd += f'<scoreDef{attrs({"meter.count": c, "meter.unit": u, "meter.sym": x.get("tssym")})}/>'
                    else:
                        sd += f'<scoreDef><meterSig{attrs({"count": c, "unit": u, "sym": x.get("tssym")})}/></scoreDef>'
                for y in M['sigs']:
                    if y['m'] == m and Fraction(y['off']) == 0:
                        for s in ([y['s']] if y['s'] is not None else range(nstaves(M))):
                            if 'key' in y:
                                if self.o.get('sig', 'child') == 'attr':
                                    sd += f'<staffDef n="{s + 1}" keysig="{mei_key(y["key"])}"/>'
                                else:
                                    sd += f'<staffDef n="{s + 1}"><keySig sig="{mei_key(y["key"])}"/></staffDef>'
                            elif 'clef' in y:
                                if self.o.get('sig', 'child') == 'attr':
                                    shape, line, dis, place = clef_parts(y['clef'])
                                    sd += f'<staffDef{attrs({"n": s + 1, "clef.shape": shape, "clef.line": line, "clef.dis": dis, "clef.dis.place": place})}/>'
                                else:
                                    sd += f'<staffDef n="{s + 1}">{mei_clef(y["clef"])}</staffDef>'
            body.append(sd)
            x = M['meas'][m]
            right = MEI_BAR[x.get('right')]
            left = MEI_BAR[x.get('left')]
            if self.o.get('both') and right == 'rptend' and m + 1 < nm and M['meas'][m + 1].get('left') == 'start':
                right = 'rptboth'
            if self.o.get('both') and left == 'rptstart' and m > 0 and M['meas'][m - 1].get('right') == 'end':
                left = None
            a = {'n': x['n'], 'right': right, 'left': left}
            if x.get('metcon') is not None:
                a['metcon'] = x['metcon']
            body.append(f'<measure{attrs(a)}>')
            for s in range(nstaves(M)):
                body.append(f'<staff n="{s + 1}">' + ''.join(
                    self.layer(s, m, v) for v in range(nvoices(M, s, m))) + '</staff>')
            body.append(self.ctrl(m))
            body += [x for mm, x in self.spans if mm == m]
            body.append('</measure>')
            for en in M['endings']:
                if en['ms'][-1] == m:
                    body.append('</ending>')
        head = M.get('meihead') or '<fileDesc><titleStmt><title/></titleStmt><pubStmt/></fileDesc>'
        return ('<?xml version="1.0" encoding="UTF-8"?>\n'
                '<mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0">'
                f'<meiHead>{head}</meiHead><music><body><mdiv><score><scoreDef>'
                + self.staffgrp() + '</scoreDef><section>' + ''.join(body)
                + '</section></score></mdiv></body></music></mei>')


def find_at(M, s, m, off):
    """the first note/rest/chord of the staff that starts there"""
    for v in range(nvoices(M, s, m)):
        for j, (t, g, e) in enumerate(events(M, s, m, v)):
            if g == 0 and t == Fraction(off) and e['k'] != 's':
                return (s, m, v, j)
    return None


def find_end(M, s, m, off, m2, off2):
    """the first note/rest/chord of the staff that ends there (and does not start before (m, off))"""
    off, off2 = Fraction(off), Fraction(off2)
    if off2 == 0 and m2 > 0:
        m2, off2 = m2 - 1, Fraction(M['meas'][m2 - 1]['len'])
    for v in range(nvoices(M, s, m2)):
        for j, (t, g, e) in enumerate(events(M, s, m2, v)):
            if g == 0 and t + ql(e) == off2 and e['k'] != 's' and (m2, t) >= (m, off):
                return (s, m2, v, j)
    return None


OTHER = '<note pname="g" oct="7" dur="64"/>'


def mei_wrap(tag, xml):
    if tag == 'app':
        return f'<app><lem>{xml}</lem><rdg>{OTHER}</rdg></app>'
    if tag == 'apprdg':
        return f'<app><rdg>{xml}</rdg><rdg>{OTHER}</rdg></app>'
    if tag == 'choice':
        return f'<choice><sic>{OTHER}</sic><corr>{xml}</corr></choice>'
    if tag == 'choice2':
        return f'<choice><orig>{OTHER}</orig><reg>{xml}</reg></choice>'
    if tag == 'twice':
        return f'<supplied><unclear>{xml}</unclear></supplied>'
    return f'<{tag}>{xml}</{tag}>'


def fdec(b):
    s = f'{float(b):.6f}'.rstrip('0').rstrip('.')
    return s


def tuptypes(evs):
    out = {}
    j = 0
    while j < len(evs):
        e = evs[j][2]
        if e.get('tup') and not e.get('g'):
            need = tuplen(evs, j)
            k, mem = j, []
            while need:
                if not evs[k][2].get('g'):
                    need -= 1
                    mem.append(k)
                k += 1
            for i in mem:
                out[i] = None
            out[mem[0]] = 'start'
            out[mem[-1]] = 'stop' if len(mem) > 1 else 'startStop'
            j = k - 1
        j += 1
    return out


def tuplen(evs, j):
    """number of non-grace events, from j, that make up the tuplet group starting there: the shortest run of
    events with the same ratio whose written length is a multiple of actual units (or until the ratio ends)"""
    e0 = evs[j][2]
    a, n = e0['tup'][:2]
    gid = e0['tup'][2] if len(e0['tup']) > 2 else None
    cnt = 0
    for t, g, e in evs[j:]:
        if e.get('g'):
            continue
        if not e.get('tup') or tuple(e['tup'][:2]) != (a, n):
            break
        if gid is not None and (len(e['tup']) < 3 or e['tup'][2] != gid):
            break
        cnt += 1
    if gid is not None:
        return cnt
    # unit = shortest duration type of the run; group closes when sum is a*unit
    run = []
    for t, g, e in evs[j:]:
        if e.get('g'):
            continue
        if not e.get('tup') or tuple(e['tup'][:2]) != (a, n):
            break
        run.append(ql(e) * Fraction(a, n))
    unit = min(run[:1] + [x for x in run])
    tot = Fraction(0)
    for c, x in enumerate(run):
        tot += x
        if tot == a * unit:
            return c + 1
    return len(run)


def clef_parts(c):
    m = re.match(r'^([GFCX])(\d?)([+-]\d+)?$', c)
    shape, line, dis = m.group(1), m.group(2) or None, m.group(3)
    d = p = None
    if dis:
        d = dis[1:]
        p = 'above' if dis[0] == '+' else 'below'
    if shape == 'X':
        shape, line = 'perc', None
    return shape, line, d, p


def mei_clef(c):
    shape, line, dis, place = clef_parts(c)
    return f'<clef{attrs({"shape": shape, "line": line, "dis": dis, "dis.place": place})}/>'


def mei_key(k):
    return '0' if k == 0 else f'{abs(k)}{"s" if k > 0 else "f"}'


def lyr_parts(text, syl):
    """the elided syllables of a lyric: [(text, syllabic)]"""
    ps = text.split(' ')
    if len(ps) == 1:
        return [(text, syl)]
    out = [[p, 'single'] for p in ps]
    if syl in ('middle', 'end'):
        out[0][1] = 'end'
    if syl in ('middle', 'begin'):
        out[-1][1] = 'begin'
    return [tuple(x) for x in out]


def mei_syl(ly, o=None):
    verse, text, syl = ly[:3]
    label = ly[3] if len(ly) > 3 else None
    o = o or {}
    mode = o.get('syl')
    inner = ''
    for tx, sy in lyr_parts(text, syl) if mode == 'elide' else [(text, syl)]:
        a = {'wordpos': {'begin': 'i', 'middle': 'm', 'end': 't', 'single': 's', None: None}[sy]}
        if sy in ('begin', 'middle'):
            a['con'] = 'd'
        if mode == 'hyphen':
            a = {}
            tx = {'begin': tx + '-', 'middle': '-' + tx + '-', 'end': '-' + tx}.get(sy, tx)
        if mode == 'nosingle' and sy == 'single':
            a.pop('wordpos')
        tx = escape(tx)
        if mode == 'rend':
            tx = f'<rend fontstyle="italic">{tx}</rend>'
        if mode == 'space':
            tx = '\n   ' + tx + ' '
        inner += f'<syl{attrs(a)}>{tx}</syl>'
    if mode == 'bare' and verse == 1 and not label:
        return inner
    at = {'n': verse if mode != 'non' else None}
    if label and mode == 'labelattr':
        at['label'] = label
    elif label:
        inner = f'<label>{escape(label)}</label>' + inner
    return f'<verse{attrs(at)}>{inner}</verse>'


def kern_lotext(t):
    return t.replace(':', '&colon;').replace('\n', '\\n')


SMUFL = {'double-whole': '\uECA0', 'whole': '\uECA2', 'half': '\uECA3', 'quarter': '\uECA5', 'eighth': '\uECA7', '16th': '\uECA9',
         '32nd': '\uECAB', '64th': '\uECAD'}


def smufl(name):
    base = name.replace('-dot', '')
    return SMUFL[base] + '\uECB7' * name.count('-dot')


def mei_text(t):
    return escape(t).replace('\n', '<lb/>')


def mei_tempo(x, a):
    a = dict(a)
    if x.get('bpm'):
        a['midi.bpm'] = x.get('mmm', x['bpm'])
    if x.get('place'):
        a['place'] = x['place']
    form = x.get('mt')
    out = ''
    last = 0
    t = x.get('t') or ''
    for r in re.finditer(r'\[([a-z0-9-]+)\]', t):
        out += escape(t[last:r.start()])
        g = smufl(r.group(1))
        if form == 'plain':
            out += g
        elif form == 'symbol':
            out += ''.join(f'<symbol glyph.auth="smufl" glyph.num="U+{ord(ch):04X}"/>' for ch in g)
        else:
            out += f'<rend fontfam="smufl">{g}</rend>'
        last = r.end()
    out += escape(t[last:])
    if form == 'rend':
        out = f'<rend fontweight="bold">{out}</rend>'
    elif form == 'ws':
        out = f'\n    {out}\n   '
    return f'<tempo{attrs(a)}>{out}</tempo>'


def grp_staves(t):
    return sorted(s for x in t['k'] for s in ([x] if isinstance(x, int) else grp_staves(x)))


def grp_all(t):
    """the groups of a tree, outer first"""
    return [t] + [y for x in t['k'] if not isinstance(x, int) for y in grp_all(x)]


def kern_deco(t, form, M):
    a, b = {'brace': '{}', 'bracket': '[]', 'square': '<>', None: ('', '')}[t.get('sym')]
    if t.get('bar'):
        a, b = a + '(', ')' + b
    if form == 'star' and all(isinstance(x, int) for x in t['k']) and len(t['k']) == nstaves(M):
        inner = '*'
    else:
        ks = []
        for x in t['k']:
            if not isinstance(x, int):
                ks.append(kern_deco(x, form, M))
            elif form == 'p':
                pi = [i for i, p in enumerate(M['parts']) if x in p][0]
                if x == M['parts'][pi][0]:
                    ks.append(f'p{pi + 1}')
            else:
                ks.append(f's{x + 1}')
        inner = ','.join(ks)
    return a + inner + b


def to_mei(M):
    xml = Mei(M).render()
    if M.get('mperm'):
        xml = re.sub(r'(<staff(?:Def)?\b[^>]*? n=")(\d+)(")', lambda m: m.group(1) + str(M['mperm'][int(m.group(2)) - 1]) + m.group(3), xml)
    return xml


# ------------------------------------------------------------------ music21
M21_ART = {k: getattr(m21.articulations, k) for k in list(KERN_ART) + list(MEI_ART)}
M21_TIE = {'s': 'start', 'c': 'continue', 'e': 'stop'}


def m21_clef(c):
    shape, line, dis, place = clef_parts(c)
    if shape == 'perc':
        return m21.clef.PercussionClef()
    octs = 0
    if dis:
        octs = (1 if dis == '8' else 2) * (1 if place == 'above' else -1)
    return m21.clef.clefFromString(shape + line, octs)


def m21_dur(e):
    d = m21.duration.Duration(type=M21_TYPE[e['d']], dots=e.get('dots', 0))
    if e.get('tup'):
        a, n = e['tup'][:2]
        d.appendTuplet(m21.duration.Tuplet(a, n))
    return d


def m21_event(e, objs=None):
    k = e['k']
    if k == 'n':
        x = m21.note.Note(e['p'][0])
    elif k == 'c':
        x = m21.chord.Chord(list(e['p']))
    else:
        x = m21.note.Rest()
        if k == 's':
            x.style.hideObjectOnPrint = True
    for i, sh in enumerate(e.get('sh', [])):
        n = x if k == 'n' else x.notes[i]
        if sh and n.pitch.accidental is None:
            n.pitch.accidental = m21.pitch.Accidental('natural')
        if n.pitch.accidental is not None:
            n.pitch.accidental.displayStatus = bool(sh)
            if sh == 'above':
                n.pitch.accidental.displayLocation = 'above'
            elif sh and sh is not True:
                n.pitch.accidental.displayStyle = sh
    x.duration = m21_dur(e)
    for a in e.get('art', []):
        nm, pl = (a, None) if isinstance(a, str) else a
        y = M21_ART[nm]()
        if pl:
            y.placement = pl
        elif hasattr(y, 'placement'):
            y.placement = None
        x.articulations.append(y)
    tie = e.get('tie')
    if tie:
        if k == 'c':
            for i, n in enumerate(x.notes):
                t = tie[i] if isinstance(tie, (list, tuple)) else tie
                if t:
                    n.tie = m21_tie(t, e)
        else:
            t = tie[0] if isinstance(tie, (list, tuple)) else tie
            if t:
                x.tie = m21_tie(t, e)
    for ly in e.get('lyr', []):
        ps = lyr_parts(ly[1], ly[2])
        if len(ps) > 1 and not e.get('plainlyr'):
            y = m21.note.Lyric(number=ly[0])
            y.components = [m21.note.Lyric(text=a, syllabic=b, applyRaw=True) for a, b in ps]
        else:
            y = m21.note.Lyric(text=ly[1], number=ly[0], syllabic=ly[2], applyRaw=True)
        if len(ly) > 3 and ly[3]:
            y.identifier = ly[3]
        x.lyrics.append(y)
    if e.get('g'):
        x = x.getGrace(appoggiatura=(e['g'] == 'qq'))
        x.duration.slash = (e['g'] == 'q')
        gm = e.get('gm')
        if gm == 'plain':            # a plain grace note without slash
            x = x if e['g'] == 'q' else m21_event(dict(e, g=None, gm=None)).getGrace()
            x.duration.slash = None if e['g'] == 'q' else False
        elif gm == 'steal':
            x = m21_event(dict(e, g=None, gm=None)).getGrace()
            x.duration.slash = None
            if e['g'] == 'q':
                x.duration.stealTimePrevious = 0.5
            else:
                x.duration.stealTimeFollowing = 0.5
    for f in e.get('mfn', []):
        FN[f[0]](x, *f[1:])
    if e.get('mbeam'):
        for num, (typ, dirn) in enumerate(e['mbeam'], 1):
            x.beams.append(typ, dirn)
    return x


def m21_tie(t, e):
    y = m21.tie.Tie(M21_TIE[t])
    st = e.get('tiestyle')
    if st in ('above', 'below'):
        y.placement = st
    elif st:
        y.style = st
    return y


FN = {}     # named music21 decorators, registered by the checks: FN[name](note, *args)


def m21_chordsym(x):
    if x['root'] is None:
        return m21.harmony.NoChord()
    kw = {'bass': x['bass'].replace('b', '-')} if x.get('bass') else {}
    cs = m21.harmony.ChordSymbol(root=x['root'].replace('b', '-'), kind=x['kind'], **kw)
    for t, d, a in x.get('mods', []):
        cs.addChordStepModification(m21.harmony.ChordStepModification(t, d, a))
    return cs


def build(M, novoice=False):
    """a music21 score from the model. Single-voice measures get no Voice object if novoice."""
    sc = m21.stream.Score()
    parts = []
    objs = {}
    part_of = {s: p for p in M['parts'] for s in p}
    for s in range(nstaves(M)):
        cls = m21.stream.PartStaff if len(part_of[s]) > 1 else m21.stream.Part
        part = cls()
        for m, ms in enumerate(M['meas']):
            meas = m21.stream.Measure(number=int(re.match(r'\d+', ms['n']).group()))
            suf = re.sub(r'^\d+', '', ms['n'])
            if suf:
                meas.numberSuffix = suf
            if m == 0:
                if M['clef'][s]:
                    meas.insert(0, m21_clef(M['clef'][s]))
                if M['key'][s] is not None:
                    meas.insert(0, m21.key.KeySignature(M['key'][s]))
            if ms['ts']:
                t = m21.meter.TimeSignature(ms['ts'])
                if ms.get('tssym'):
                    t.symbol = ms['tssym']
                meas.insert(0, t)
            for x in M['sigs']:
                if x['m'] == m and (x['s'] is None or x['s'] == s):
                    o = opFrac(Fraction(x['off']))
                    if 'clef' in x:
                        meas.insert(o, m21_clef(x['clef']))
                    elif 'key' in x:
                        meas.insert(o, m21.key.KeySignature(x['key']))
            if m == 0 and M.get('pickup'):
                meas.paddingLeft = opFrac(tslen(ms['ts']) - Fraction(ms['len']))
            single = nvoices(M, s, m) == 1 and novoice
            for v in range(nvoices(M, s, m)):
                cont = meas if single else m21.stream.Voice(id=str(v + 1))
                types = tuptypes(events(M, s, m, v))
                for j, (t, g, e) in enumerate(events(M, s, m, v)):
                    x = m21_event(e)
                    if M.get('tuptypes') and j in types:
                        x.duration.tuplets = (m21.duration.Tuplet(*e['tup'][:2]),)
                        x.duration.tuplets[0].type = types[j]
                    objs[(s, m, v, j)] = x
                    cont.coreInsert(opFrac(t), x)
                    cont.coreElementsChanged()
                if not single:
                    meas.insert(0, cont)
            for side in ('right', 'left'):
                b = ms.get(side)
                if side == 'right' and ms.get('barferm') and not b:
                    meas.rightBarline = m21.bar.Barline('regular')
                if b:
                    bl = m21_bar(b)
                    if side == 'right':
                        meas.rightBarline = bl
                    else:
                        meas.leftBarline = bl
            if ms.get('barferm'):
                f = m21.expressions.Fermata()
                f.type = 'inverted' if '<' in ms['barferm'] else 'upright'
                meas.rightBarline.pause = f
            for x in M['dyn']:
                if x['s'] == s and x['m'] == m:
                    y = m21.dynamics.Dynamic(x['t'])
                    y.placement = x.get('place')
                    if x.get('invoice') is not None and meas.voices:
                        list(meas.voices)[x['invoice']].insert(opFrac(Fraction(x['off'])), y)
                    else:
                        meas.insert(opFrac(Fraction(x['off'])), y)
            for x in M['text']:
                if x['s'] == s and x['m'] == m:
                    y = m21.expressions.TextExpression(x['t'])
                    y.placement = x.get('place')
                    st = x.get('style', '')
                    if st:
                        y.style.fontStyle = st
                    meas.insert(opFrac(Fraction(x['off'])), y)
            for x in M['reh']:
                if x['m'] == m and x.get('s', 0) == s:
                    y = m21.expressions.RehearsalMark(x['t'])
                    if x.get('place'):
                        y.style.placement = x['place']
                    meas.insert(opFrac(Fraction(x['off'])), y)
            for x in M['cs']:
                if x['m'] == m and x['s'] == s:
                    meas.insert(opFrac(Fraction(x['off'])), m21_chordsym(x))
            if s == 0:
                for x in M['tempo']:
                    if x['m'] == m:
                        meas.insert(opFrac(Fraction(x['off'])), m21_tempo(x))
            part.append(meas)
        if M.get('iname') and M['iname'][s]:
            inst = m21.instrument.Instrument(M['iname'][s])
            if M.get('iabbr') and M['iabbr'][s]:
                inst.instrumentAbbreviation = M['iabbr'][s]
            part.insert(0, inst)
        tr = (M.get('trans') or {}).get(str(s))
        if tr:
            iv = m21.interval.Interval(m21.pitch.Pitch('C5'), m21.pitch.Pitch(transpose('C5', *tr)))
            part.atSoundingPitch = False
            insts = list(part.getElementsByClass(m21.instrument.Instrument))
            if not insts:
                insts = [m21.instrument.Instrument()]
                part.insert(0, insts[0])
            insts[0].transposition = iv
            if (M.get('bopt') or {}).get('sounding'):
                part.atSoundingPitch = True
                for m, meas in enumerate(part.getElementsByClass(m21.stream.Measure)):
                    for v in range(nvoices(M, s, m)):
                        for j, (t, g, e) in enumerate(events(M, s, m, v)):
                            _setp(objs[(s, m, v, j)], [transpose(p, *tr) for p in e['p']])
                    for k in list(meas.getElementsByClass(m21.key.KeySignature)):
                        k.sharps = sounding_key(M, s, k.sharps)
        parts.append(part)
        sc.insert(0, part)
    if M.get('pname'):
        for pi, p in enumerate(M['parts']):
            if len(p) > 1 and (M.get('bopt') or {}).get('bname', 'group') == 'group':
                continue
            for s in p:
                if M['pname'][pi] or M['pabbr'][pi]:
                    how = (M.get('bopt') or {}).get('how', 'part')
                    inst = m21.instrument.Instrument()
                    if how == 'part':
                        inst.partName, inst.partAbbreviation = M['pname'][pi], M['pabbr'][pi]
                        parts[s].insert(0, inst)
                    elif how == 'inst':
                        inst.instrumentName, inst.instrumentAbbreviation = M['pname'][pi], M['pabbr'][pi]
                        parts[s].insert(0, inst)
                    elif how == 'meas':
                        inst.instrumentName, inst.instrumentAbbreviation = M['pname'][pi], M['pabbr'][pi]
                        parts[s].getElementsByClass(m21.stream.Measure)[0].insert(0, inst)
                    else:
                        parts[s].partName, parts[s].partAbbreviation = M['pname'][pi], M['pabbr'][pi]
    if M.get('grp'):
        # music21 has no nesting of groups: of two groups of the same staves the outer one comes last
        for t in reversed(grp_all(M['grp'])):
            st = grp_staves(t)
            if len(st) < 2 and not t.get('sym'):
                continue
            g = m21.layout.StaffGroup([parts[s] for s in st])
            g.symbol = t.get('sym')
            g.barTogether = {'mensur': 'Mensurstrich', None: False}.get(t.get('bar'), t.get('bar'))
            pi = [i for i, p in enumerate(M['parts']) if len(p) > 1 and p == st]
            if pi and M.get('pname') and not t.get('dup') and (M.get('bopt') or {}).get('bname', 'group') in ('group', 'both'):
                if M['pname'][pi[0]]:
                    g.name = M['pname'][pi[0]]
                if M['pabbr'][pi[0]]:
                    g.abbreviation = M['pabbr'][pi[0]]
            elif t.get('name'):
                g.name = t['name']
                if t.get('abbr'):
                    g.abbreviation = t['abbr']
            sc.insert(0, g)
    for p in M['parts']:
        if len(p) > 1 and not M.get('grp'):
            sc.insert(0, m21.layout.StaffGroup([parts[s] for s in p], symbol='brace', barTogether=True))
    for sl in M['slurs']:
        y = m21.spanner.Slur(objs[tuple(sl['a'])], objs[tuple(sl['b'])])
        if sl.get('place'):
            y.placement = sl['place']
        sc.insert(0, y)
    for x in M.get('mspan', []):
        y = getattr(getattr(m21, x['mod']), x['cls'])(*x.get('args', []))
        for r in x['els']:
            y.addSpannedElements(objs[tuple(r)])
        if 'place' in x:
            y.placement = x['place']
        sc.insert(0, y)
    for w in M['wedge']:
        cls = {'cresc': m21.dynamics.Crescendo, 'dim': m21.dynamics.Diminuendo}[w['w']]
        if 'els' in w:
            els = [objs[tuple(r)] for r in w['els']]
        else:
            r, r2 = find_at(M, w['s'], w['m'], w['off']), find_end(M, w['s'], w['m'], w['off'], w['m2'], w['off2'])
            pms = list(parts[w['s']].getElementsByClass(m21.stream.Measure))
            els = []
            if r and not w.get('anchors'):
                els.append(objs[r])
            else:
                els.append(m21.spanner.SpannerAnchor())
                pms[w['m']].insert(opFrac(Fraction(w['off'])), els[-1])
            if r2 and not w.get('anchors'):
                if r2 != r:
                    els.append(objs[r2])
            else:
                els.append(m21.spanner.SpannerAnchor())
                pms[w['m2']].insert(opFrac(Fraction(w['off2'])), els[-1])
        y = cls(*els)
        y.placement = w.get('place')
        sc.insert(0, y)
    for x in M['ott']:
        refs = ott_refs(M, x)
        bo = M.get('bopt') or {}
        y = m21.spanner.Ottava(type=x['t'], transposing=not bo.get('nontrans'))
        els = [r[2] for r in refs]
        if bo.get('ends'):
            last = max(refs, key=lambda r: r[1])[2]
            els = [els[0]] + ([last] if last != els[0] else [])
        y.addSpannedElements([objs[r] for r in els])
        if bo.get('nontrans'):
            for k, k2, r in refs:
                e = events(M, *r[:3])[r[3]][2]
                ps = [sounding(M, r[0], r[1], k[1], p) if bo.get('sounding') else transpose(p, 7 * OTT[x['t']], 12 * OTT[x['t']])
                      for p in e['p']]
                _setp(objs[r], ps)
        sc.insert(0, y)
    for en in M['endings']:
        for p in parts[:1]:
            ms = list(p.getElementsByClass(m21.stream.Measure))
            rb = m21.spanner.RepeatBracket([ms[i] for i in en['ms']], number=en['n'])
            sc.insert(0, rb)
    sc.model_objs = objs
    return sc


def _setp(x, ps):
    if isinstance(x, m21.chord.Chord):
        for n, p in zip(x.notes, ps):
            n.pitch = m21.pitch.Pitch(p)
    elif isinstance(x, m21.note.Note):
        x.pitch = m21.pitch.Pitch(ps[0])


def m21_tempo(x):
    b = x.get('b')
    if b == 'text':
        return m21.tempo.TempoText(x['t'])
    ref = m21.duration.Duration(type=x['ref'][0], dots=x['ref'][1]) if x.get('ref') else None
    num = x.get('bpm')
    if ref is not None:
        num = Fraction(num) / Fraction(opFrac(ref.quarterLength))
        num = int(num) if num == int(num) else float(num)
    t = x.get('t')
    if t:
        t = re.sub(r'\[([a-z0-9-]+)\]', lambda r: smufl(r.group(1)), t)
    y = m21.tempo.MetronomeMark(text=t, number=num, referent=ref)
    if b != 'explicit':
        y.numberImplicit = True
    if b == 'mod':
        z = m21.tempo.MetricModulation()
        z.newMetronome = y
        return z
    y.placement = x.get('place')
    return y


def m21_bar(b):
    if b == 'end':
        return m21.bar.Repeat(direction='end')
    if b == 'start':
        return m21.bar.Repeat(direction='start')
    return m21.bar.Barline(b)


def dumps(M):
    return json.dumps(M, sort_keys=True, default=str)


def clone(M):
    return copy.deepcopy(M)
