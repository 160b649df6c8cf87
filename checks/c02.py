"""C02: Humdrum timing.

Every combination of rhythm cells (within the bound) is laid out as a Humdrum file in one to three spines, with or
without a second voice per spine, barlines, non-rhythmic spines, interpretations and comments, and parsed by the real
code; every accessor of time is compared with an independent clock.  A second pass breaks each of those files (one
data line removed, doubled, or one rhythm changed) and compares acceptance and times with an independent simulation.
"""
import itertools
import os
import sys
from fractions import Fraction as F
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import target   # pylint: disable=unused-import
from converter21.humdrum import HumdrumFile

PROP = 'C02'
CHUNK = 16
BOUND = {'quick': 'full products of rhythm cells: 1 spine x 2 cells, 2 spines, 2 voices (+1 spine), 3 spines over a '
                  'reduced menu, long notes, a **recip spine, non-rhythmic spines with data on every line; every single '
                  'deletion, doubling and rhythm change of a data line of the two-spine files',
         'thorough': 'products one cell longer, mutations of every file, pairs of mutations'}
ASSUME = ['a spine split happens at a note boundary', 'barlines cross all spines']

# cells: list of (recip text, length in quarters, dots); length 2
C2 = ['2', '4 4', '4. 8', '8 4.', '3 6', '6 3', '6 6 6', '8 8 4', '4.. 16', '10 10 10 10 10', '4 12 12 12', '8 4 8',
      '16 8. 16 8.', '8qq 2', '4 8q 16q 4', '4 4 16qq', '8... 64 4', '3%1 6', '5%2 10',
      '12. 24 12 4', '32 32 16 8 4']
C2 = list(dict.fromkeys(C2))
C8 = ['0', '1 1', '1. 2', '2. 1 4', '1%2', '3%4 3%2', '2. 2. 2', '3 3 3 1', '0']
C8 = list(dict.fromkeys(C8))
C16 = ['00', '0 0', '1%4', '0. 1', '1 0 1', '00']
C16 = list(dict.fromkeys(C16))
C32 = ['000', '00 00', '0 00 0', '00. 0', '1%8']
BAD = {'4': '8', '2': '2.', '8': '8.', '4.': '4', '3': '6', '6': '12', '10': '5'}


def dur(tok):
    """independent reading of a recip (first subtoken); grace notes are zero"""
    s = tok.split(' ')[0]
    if 'q' in s:
        return F(0)
    r = ''
    dots = 0
    for ch in s:
        if ch.isdigit() or ch == '%':
            r += ch
        elif ch == '.':
            dots += 1
    if not r:
        return None
    if '%' in r:
        a, b = r.split('%')
        base = F(4) * int(b) / int(a)
    elif set(r) == {'0'}:
        base = F(4) * 2 ** len(r)
    else:
        base = F(4, int(r))
    return base * (2 - F(1, 2 ** dots))


def cell(s, pitch='c'):
    out = []
    for r in s.split():
        out.append((r + pitch, dur(r)))
    return out


def layout(spec):
    """spec: {'spines': [{'type','voices'?..}], ...}: see cases.  -> list of lines (lists of tokens, or str for global)"""
    types = [s['t'] for s in spec['spines']]
    n = len(types)
    lines = [list(types)]
    fill = spec.get('fill', 0)
    if fill & 1:
        lines.append('!! comment')
        lines.append(['*' + ('clefG2' if t == '**kern' else '') for t in types])
    if fill & 2:
        lines.append(['=1-'] * n)
    for mi in range(spec['nm']):
        voices = []
        owner = []
        for si, s in enumerate(spec['spines']):
            vs = s['m'][mi] if s.get('m') else [None]
            for v in vs:
                voices.append(v)
                owner.append(si)
        cnt = [owner.count(i) for i in range(n)]
        if any(c == 2 for c in cnt):
            lines.append(['*^' if c == 2 else '*' for c in cnt])
        ev = []
        for vi, v in enumerate(voices):
            if v is None:
                continue
            t = F(0)
            zs = 0
            for k, (tok, d) in enumerate(v):
                if d == 0:
                    zs += 1
                    ev.append((t, 0, zs, vi, tok))
                else:
                    ev.append((t, 1, 0, vi, tok))
                    t += d
                    zs = 0
        keys = sorted({e[:3] for e in ev})
        extra = spec.get('extra', 0)
        for ki, key in enumerate(keys):
            row = ['.'] * len(voices)
            for e in ev:
                if e[:3] == key:
                    row[e[3]] = e[4]
            txt = 0
            for vi, o in enumerate(owner):
                if types[o] not in ('**kern', '**recip'):
                    if spec.get('alltext') or (ki % 2 == 0):
                        row[vi] = f'x{mi}{ki}'
            if fill & 4 and ki == 1:
                lines.append(['!' + ('loc' if i == 0 else '') for i in range(len(row))])
                lines.append(['*' + ('MM60' if i == 0 else '') for i in range(len(row))])
            if fill & 8 and ki == 1:
                lines.append('')
                lines.append('!!!OPR: x')
            lines.append(row)
            for x in range(extra):
                r2 = ['.'] * len(voices)
                for vi, o in enumerate(owner):
                    if types[o] not in ('**kern', '**recip'):
                        r2[vi] = f'y{mi}{ki}{x}'
                lines.append(r2)
        if any(c == 2 for c in cnt):
            lines.append(['*v' if cnt[o] == 2 else '*' for o in owner] if sum(c == 2 for c in cnt) == 1 else None)
            if lines[-1] is None:
                lines.pop()
                first = [i for i in range(n) if cnt[i] == 2][0]
                lines.append(['*v' if o == first else '*' for o in owner])
                o2 = [o for i, o in enumerate(owner) if not (o == first and owner.index(o) != i)]
                lines.append(['*v' if (cnt[o] == 2 and o != first) else '*' for o in o2])
        if spec.get('bar', 1) and (mi + 1 < spec['nm'] or fill & 2):
            lines.append([f'={mi + 2}'] * n)
    lines.append(['*-'] * n)
    if fill & 1:
        lines.append('!!!RDF: end')
    return lines


def text(lines):
    return '\n'.join(ln if isinstance(ln, str) else '\t'.join(ln) for ln in lines) + '\n'


class Bad(Exception):
    pass


def clock(lines):
    """independent simulation: time of every line; Bad when the spines disagree; None when the outcome is open"""
    types = None
    cols = []      # per column: [spine index, time at which the next token sounds]
    tm = [None] * len(lines)
    kinds = []
    fuzzy = False
    recip = lines_types(lines)[0] == '**recip'
    endt = F(0)
    for li, ln in enumerate(lines):
        if isinstance(ln, str):
            kinds.append('g')
            continue
        if types is not None and any(t.startswith('**') for t in ln):
            kinds.append('i')
            for c, t in zip(cols, ln):
                if t.startswith('**'):
                    c[0] = len(types)
                    types = types + [t]
            continue
        if ln[0].startswith('**'):
            types = list(ln)
            cols = [[i, F(0)] for i in range(len(ln))]
            tm[li] = F(0) if recip or True else None
            kinds.append('x')
            continue
        if ln[0].startswith('*'):
            kinds.append('i')
            if '*-' in ln:
                for c in cols:
                    if types[c[0]] in ('**kern', '**recip'):
                        endt = max(endt, c[1])
                tm[li] = endt if all(t == '*-' for t in ln) else None
                cols = [c for c, t in zip(cols, ln) if t != '*-']
                continue
            new = []
            i = 0
            while i < len(ln):
                if ln[i] == '*^':
                    new += [list(cols[i]), list(cols[i])]
                elif ln[i] == '*v':
                    j = i
                    while j < len(ln) and ln[j] == '*v':
                        j += 1
                    if len({c[1] for c in cols[i:j]}) > 1:
                        fuzzy = True
                    new.append(list(cols[i]))
                    i = j
                    continue
                elif ln[i] == '*+':
                    new += [list(cols[i]), list(cols[i])]
                else:
                    new.append(list(cols[i]))
                i += 1
            cols = new
            continue
        if ln[0].startswith('='):
            kinds.append('b')
            continue
        if ln[0].startswith('!'):
            kinds.append('l')
            continue
        kinds.append('d')
        ts = set()
        for c, tok in zip(cols, ln):
            if types[c[0]] not in ('**kern', '**recip') or tok == '.':
                continue
            ts.add(c[1])
            c[1] += dur(tok)
        if len(ts) > 1:
            raise Bad(li)
        if ts:
            tm[li] = ts.pop()
    if tm[[i for i, ln in enumerate(lines) if not isinstance(ln, str)][0]] is None:
        tm[0] = F(0)
    last = F(0)
    for i, x in enumerate(tm):
        if x is not None:
            if x < last:
                raise Bad(i, 'open' if fuzzy else 'back')
            last = x
    # all-null data lines: evenly within the measure between timed lines
    known = list(tm)
    prev = None
    run = []
    for i, ln in enumerate(lines):
        if isinstance(ln, str):
            continue
        if kinds[i] == 'b':
            prev, run = None, []
            continue
        if kinds[i] == 'd' and tm[i] is None:
            run.append(i)
            continue
        if tm[i] is None:
            continue
        if prev is not None and run:
            gap = tm[i] - tm[prev]
            for j, k in enumerate(run):
                known[k] = tm[prev] + gap * (j + 1) / (len(run) + 1)
        prev, run = i, []
    # everything else: the time of the next timed line
    nxt = None
    for i in range(len(lines) - 1, -1, -1):
        if known[i] is None:
            known[i] = nxt
        else:
            nxt = known[i]
    for i, x in enumerate(known):
        if x is None:
            known[i] = endt
    return known, kinds, endt, fuzzy


def lines_types(lines):
    for ln in lines:
        if not isinstance(ln, str):
            return ln
    return None


def q(x):
    return F(x).limit_denominator(1000000) if isinstance(x, float) else F(x)


def compare(lines, f, known, kinds, endt):
    d = []
    n = len(lines)
    if f.lineCount != n:
        return [f'{f.lineCount} lines for {n}']
    bars = [i for i in range(n) if kinds[i] == 'b']

    def chk(name, i, got, want):
        if q(got) != want:
            d.append(f'{name} of line {i + 1} {lines[i]!r} is {got}, expected {want}')
    for i in range(n):
        L = f[i]
        chk('durationFromStart', i, L.durationFromStart, known[i])
        nx = known[i + 1] if i + 1 < n else endt
        chk('duration', i, L.duration, nx - known[i])
        chk('durationToEnd', i, L.durationToEnd, endt - known[i])
        pb = [b for b in bars if b < i]
        fb = known[i] - (known[pb[-1]] if pb else 0)
        chk('durationFromBarline', i, L.durationFromBarline, fb)
        nb = [b for b in bars if b > i]
        tb = (known[nb[0]] if nb else endt) - known[i]
        chk('durationToBarline', i, L.durationToBarline, tb)
        chk('barlineDuration', i, L.barlineDuration, tb if kinds[i] == 'b' else fb + tb)
    if q(f.scoreDuration) != endt:
        d.append(f'scoreDuration {f.scoreDuration}, expected {endt}')
    den = 1
    import math
    for i in range(n):
        nx = known[i + 1] if i + 1 < n else endt
        den = den * (nx - known[i]).denominator // math.gcd(den, (nx - known[i]).denominator)
    if f.tpq() != den:
        d.append(f'tpq {f.tpq()}, expected {den}')
    return d


def graph(lines):
    """next links of the tokens: (line, col) -> list of (line, col)"""
    nxt = {}
    prev = None
    pm = None
    for li, ln in enumerate(lines):
        if isinstance(ln, str):
            continue
        if prev is not None:
            pl = lines[prev]
            col = 0
            i = 0
            while i < len(pl):
                if pl[i] == '*-':
                    i += 1
                    continue
                if pl[i] == '*+':
                    nxt[(prev, i)] = [(li, col)]
                    col += 2
                elif pl[i] == '*^':
                    nxt[(prev, i)] = [(li, col), (li, col + 1)]
                    col += 2
                elif pl[i] == '*v':
                    while i < len(pl) and pl[i] == '*v':
                        nxt[(prev, i)] = [(li, col)]
                        i += 1
                    col += 1
                    continue
                else:
                    nxt[(prev, i)] = [(li, col)]
                    col += 1
                i += 1
        prev = li
    return nxt


def tokens_check(lines, f, known, endt):
    d = []
    nxt = graph(lines)
    prv = {}
    for a, bs in nxt.items():
        for b in bs:
            prv.setdefault(b, []).append(a)
    types = list(lines_types(lines))
    own = {}
    first = [i for i, ln in enumerate(lines) if not isinstance(ln, str)][0]
    for c in range(len(types)):
        own[(first, c)] = c
    for li, ln in enumerate(lines):
        if li != first and not isinstance(ln, str):
            for c, x in enumerate(ln):
                if x.startswith('**'):
                    own[(li, c)] = len(types)
                    types.append(x)
    order = sorted(nxt)
    for a in order:
        for b in nxt[a]:
            own[b] = own[a]

    def isdata(p):
        t = lines[p[0]][p[1]]
        return t[0] not in '*!=' and t != '.'

    def reach(p, step):
        out, todo, seen = set(), list(step.get(p, [])), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if isdata(x):
                out.add(x)
            else:
                todo += step.get(x, [])
        return out
    for p, c in own.items():
        li, co = p
        s = lines[li][co]
        tok = f[li][co]
        if s[0] in '*!=':
            continue
        if q(tok.durationFromStart) != known[li]:
            d.append(f'token {s!r} of line {li + 1} starts at {tok.durationFromStart}, expected {known[li]}')
        if s != '.' and types[c] in ('**kern', '**recip') and q(tok.duration) != dur(s):
            d.append(f'token {s!r} of line {li + 1} lasts {tok.duration}, expected {dur(s)}')
        if s != '.' and types[c] not in ('**kern', '**recip'):
            r = reach(p, nxt)
            e = p
            while nxt.get(e):
                e = nxt[e][0]
            w = (known[min(r)[0]] if r else known[e[0]]) - known[li]
            f.analyzeRhythmStructure()
            f.areStrandsAnalyzed  # pylint: disable=pointless-statement
            if q(tok.duration) != w:
                d.append(f'text token {s!r} of line {li + 1} lasts {tok.duration}, expected {w}')
        # only where no spine splits or merges on the way (with those, the analysis is documented as incomplete)
        for nm, step, back, got in (('next', nxt, prv, tok.nextNonNullDataTokens),
                                    ('previous', prv, nxt, tok.previousNonNullDataTokens)):
            x = p
            while True:
                pp = step.get(x, [])
                if not pp:
                    w = []
                    break
                if len(pp) > 1 or len(back[pp[0]]) > 1:
                    w = None
                    break
                x = pp[0]
                if isdata(x):
                    w = [x]
                    break
            g = [(y.lineIndex, y.fieldIndex) for y in got]
            if w is not None and g != w:
                d.append(f'{nm}NonNullDataTokens of {s!r} line {li + 1} field {co + 1}: {g}, expected {w}')
        if s == '.':
            x = p
            while True:
                pp = prv.get(x, [])
                if len(pp) != 1 or len(nxt[pp[0]]) != 1:
                    x = None
                    break
                x = pp[0]
                if isdata(x):
                    break
            if x is not None:
                g = tok.nullResolution
                if (g.lineIndex, g.fieldIndex) != x:
                    d.append(f'nullResolution of line {li + 1} field {co + 1} is line {g.lineIndex + 1} '
                             f'field {g.fieldIndex + 1} {g.text!r}, expected line {x[0] + 1}')
    return d


def run(case):
    lines = case['lines']
    f = HumdrumFile()
    ok = f.readString(text(lines)) and f.isValid
    if 'want' in case:
        if not ok:
            return [('parse', 'rejected although all spines agree (split in the middle of a note)')], 'rej'
        got = [str(f[i].durationFromStart) for i in range(f.lineCount)]
        if [F(x) for x in got] != [F(x) for x in case['want']]:
            return [('parse', f'times {got}, expected {case["want"]}')], 'times'
        return [], 'ok'
    try:
        res = clock(lines)
    except Bad as e:
        if len(e.args) > 1 and e.args[1] == 'open':
            return [], 'open'
        if ok and len(e.args) > 1:
            return [('parse', f'accepted although time runs backwards from one line to the next at line {e.args[0] + 1}')], 'back'
        if ok:
            return [('parse', f'accepted although the spines disagree at line {e.args[0] + 1}; '
                     f'times {[str(f[i].durationFromStart) for i in range(f.lineCount)]}')], 'bad'
        return [], 'rejected'
    known, kinds, endt, fuzzy = res
    if fuzzy:
        return [], 'open'
    if not ok:
        return [('parse', 'rejected although all spines agree')], 'rej'
    d = compare(lines, f, known, kinds, endt)
    if not d:
        d = tokens_check(lines, f, known, endt)
    return [('parse', x) for x in d[:6]], [str(x) for x in known]


def K(*ms):
    """a kern spine; each argument is a measure: a cell string or a tuple of two"""
    out = []
    for m in ms:
        if isinstance(m, str):
            out.append([cell(m)])
        else:
            out.append([cell(m[0], 'ee'), cell(m[1], 'c')])
    return {'t': '**kern', 'm': out}


TXT = {'t': '**text'}
DYN = {'t': '**dynam'}


def specs(tier):
    th = tier == 'thorough'
    for a in C2 + C8 + C16 + C32:
        for fill in range(16):
            yield 'one', {'spines': [K(a)], 'nm': 1, 'fill': fill}
    for a, b in itertools.product(C2, C2):
        for bar in (0, 1):
            for fill in (2, 5):
                yield 'seq', {'spines': [K(a, b)], 'nm': 2, 'fill': fill, 'bar': bar}
        yield 'two', {'spines': [K(a), K(b)], 'nm': 1, 'fill': 2}
        yield 'two', {'spines': [K(a), K(b)], 'nm': 1, 'fill': 12}
        yield 'twop', {'spines': [K(a), K(b)], 'nm': 1, 'fill': 0}
        yield 'twom', {'spines': [K(a, b), K(b, a)], 'nm': 2, 'fill': 2}
        yield 'text', {'spines': [K(a), TXT, K(b), DYN], 'nm': 1, 'fill': 4}
        yield 'text', {'spines': [K(a), TXT, K(b)], 'nm': 1, 'fill': 2, 'alltext': 1}
        yield 'voice', {'spines': [K((a, b))], 'nm': 1, 'fill': 2}
        yield 'voice', {'spines': [K(a, (a, b), b)], 'nm': 3, 'fill': 4}
        yield 'voice', {'spines': [K((a, b), (b, a))], 'nm': 2, 'fill': 2}
        for c in ('2', '6 6 6', '4 4') if not th else C2:
            yield 'voice', {'spines': [K(c), K((a, b)), TXT], 'nm': 1, 'fill': 2}
            yield 'voice', {'spines': [K((a, c)), K((c, b))], 'nm': 1, 'fill': 0}
    red = C2 if th else [C2[i] for i in (0, 1, 2, 5, 6, 9, 13)]
    for a, b, c in itertools.product(red, repeat=3):
        yield 'three', {'spines': [K(a), K(b), K(c)], 'nm': 1, 'fill': 2}
        yield 'seq', {'spines': [K(a, b, c)], 'nm': 3, 'fill': 4}
    for fam in (C8, C16, C32):
        for a, b in itertools.product(fam, fam):
            yield 'long', {'spines': [K(a), K(b)], 'nm': 1, 'fill': 2}
            yield 'long', {'spines': [K((a, b))], 'nm': 1, 'fill': 2}
            yield 'long', {'spines': [K(a, b)], 'nm': 2, 'fill': 6}
    for a in C2:
        for ex in (1, 2, 3):
            for fill in (0, 2):
                yield 'extra', {'spines': [K(a), TXT], 'nm': 1, 'fill': fill, 'extra': ex}
                yield 'extra', {'spines': [TXT, K(a, '4 4')], 'nm': 2, 'fill': fill, 'extra': ex}
                yield 'extra', {'spines': [K(a), K('4 4'), TXT], 'nm': 1, 'fill': fill, 'extra': ex}


def recip_cases():
    """a **recip spine in front gives the rhythm of every line"""
    for a in C2 + C8:
        if 'q' in a:
            continue
        for b in ('4 4', '8 8', '16.'):
            rs = a.split() + b.split()
            for style in (0, 1, 2):
                lines = [['**recip', '**kern'] if style < 2 else ['**recip', '**text']]
                na = len(a.split())
                for i, r in enumerate(rs):
                    if i == na and style != 1:
                        lines.append(['=2', '=2'])
                    lines.append([r, (r + 'c') if style < 2 else f't{i}'])
                lines.append(['*-', '*-'])
                yield lines


def free(tier):
    """every small grid of rhythms, consistent or not"""
    th = tier == 'thorough'
    for nl, al in ((3, ['.', '4c', '2c', '8c', '4.c', 'qc'][:6 if th else 5]), (4, ['.', '4c', '2c', '8c'][:4 if th else 3])):
        for g in itertools.product(al, repeat=2 * nl):
            rows = [list(g[2 * i:2 * i + 2]) for i in range(nl)]
            if any(set(r) == {'.'} for r in rows):
                continue
            yield [['**kern', '**kern']] + rows + [['*-', '*-']]
            if nl == 3:
                yield [['**kern'], ['*^']] + rows + [['*-', '*-']]
    for g in itertools.product(['.', '4c', '2c'], repeat=6):
        rows = [list(g[:3]), list(g[3:])]
        if any(set(r) == {'.'} for r in rows):
            continue
        yield [['**kern'] * 3] + rows + [['=2'] * 3, ['4g'] * 3, ['*-'] * 3]
        yield [['**kern'] * 2, ['*^', '*']] + rows + [['*v', '*v', '*'], ['=2'] * 2, ['4g'] * 2, ['*-'] * 2]


def mutations(lines):
    di = [i for i, ln in enumerate(lines) if not isinstance(ln, str) and ln[0][0] not in '*!=']
    for i in di:
        yield f'del{i}', lines[:i] + lines[i + 1:]
        yield f'dup{i}', lines[:i + 1] + [list(lines[i])] + lines[i + 1:]
        for c, tok in enumerate(lines[i]):
            if tok == '.':
                if set(lines[0]) == {'**kern'}:
                    yield f'ins{i}.{c}', lines[:i] + [[('8d' if k == c else x) for k, x in enumerate(lines[i])]] + lines[i + 1:]
                continue
            r = tok.rstrip('abcdefg')
            if r in BAD:
                row = list(lines[i])
                row[c] = BAD[r] + tok[len(r):]
                yield f'alt{i}.{c}', lines[:i] + [row] + lines[i + 1:]
            if set(lines[0]) == {'**kern'}:
                row = list(lines[i])
                row[c] = '.'
                if any(x != '.' for x in row):
                    yield f'nul{i}.{c}', lines[:i] + [row] + lines[i + 1:]


def cases(tier, stats):
    seen = set()
    mut = {'two', 'twop', 'voice', 'three', 'twom'} if tier == 'thorough' else {'twop'}
    fresh = {}

    def emit(key, lines):
        k = text(lines)
        if k in seen:
            return None
        seen.add(k)
        stats.states += len(lines)
        stats.transitions += sum(len(x) for x in lines if not isinstance(x, str))
        return f'{key}:' + k.replace('\n', '/').replace('\t', ' '), {'lines': lines}
    n = 0
    muts = []
    for name, sp in specs(tier):
        ls = layout(sp)
        if '**kern' in ls[0] or True:
            e = emit(name, ls)
            if e:
                yield e
                if name in mut or (name == 'twom' and fresh.setdefault(name, 0) < 60) or \
                   (name == 'voice' and sp['nm'] == 2 and fresh.setdefault('v', 0) < 60):
                    fresh[name] = fresh.get(name, 0) + 1
                    if name == 'voice':
                        fresh['v'] += 1
                    muts.append(ls)
    for ls in recip_cases():
        e = emit('recip', ls)
        if e:
            yield e
    for a, b in (('2', '4 4'), ('1', '2 2'), ('2.', '4 4 4')):
        n = len(b.split())
        ls = [['**kern', '**kern'], [a + 'c', b.split()[0] + 'd'], ['*^', '*']]
        ls += [['.', r + 'e', r + 'f'] for r in b.split()[1:]] + [['*v', '*v', '*'], ['*-', '*-']]
        d = dur(b.split()[0])
        yield f'midsplit{a}', {'lines': ls, 'want': [0, 0, str(d)] + [str(d * (k + 1)) for k in range(n - 1)] + [str(d * n)] * 2}
    for a, b, c in itertools.product(C2, C2, C2 if tier == 'thorough' else ['4 4', '2', '6 6 6']):
        for ty in ('**kern', '**text'):
            one = layout({'spines': [K(c)], 'nm': 1, 'fill': 0})
            two = layout({'spines': [K(a), K(b) if ty == '**kern' else TXT], 'nm': 1, 'fill': 0})
            ls = one[:-1] + [['*+'], ['*', ty]] + two[1:-1]
            if ty == '**kern' and not any(x[0] != '.' and x[1] != '.' and 'q' not in x[0] for x in two[1:-1]):
                continue
            for tail in ([['*-', '*-']], [['*', '*-'], ['=3'], ['4g'], ['*-']], [['*-', '*'], ['=3'], ['4g'], ['*-']]):
                e = emit('add', ls + tail)
                if e:
                    yield e
    for ls in free(tier):
        e = emit('free', ls)
        if e:
            yield e
    for ls in muts:
        # a further measure shows whether the time went on correctly
        tail = [['=2'] * len(ls[0]), ['4g'] * len(ls[0]), ['*-'] * len(ls[0])]
        ls2 = ls[:-1] + tail
        if isinstance(ls[-1], str):
            continue
        for nm, m in mutations(ls2):
            e = emit('mut' + nm, m)
            if e:
                yield e
            if tier == 'thorough' and len(ls) < 8:
                for nm2, m2 in mutations(m):
                    e = emit('mut2' + nm2, m2)
                    if e:
                        yield e
    stats.note = {'files': len(seen)}


def show(case):
    print(text(case['lines']))
