"""C01: Humdrum spine manipulators.

Explicit-state search of the spine machine.  A state is the list of active spines (track, history) plus the number
of tracks started so far.  From every state reachable within the depth bound, EVERY line over the manipulator
alphabet is tried, legal or not; every such path is written out as a Humdrum text (in several fillings: with data
lines, barlines, comments, nothing between the manipulators) and parsed by the real parser, whose tokens are compared
one by one with the model.
"""
import itertools
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import target   # pylint: disable=unused-import
from converter21.humdrum import HumdrumFile
from converter21.humdrum.humdrumfilebase import HumdrumFileBase

PROP = 'C01'
CHUNK = 16
BOUND = {'quick': '1-3 initial spines, at most 5 simultaneous spines, all legal histories of up to 3 manipulator lines '
                  '(4 for one initial spine), and every single (legal or illegal) line over {* *^ *v *x *+ *- **t} and '
                  'every wrong field count (+1, -1) from every state at most 2 manipulator lines deep; 4 fillings',
         'thorough': 'one manipulator line more, at most 6 simultaneous spines'}
ALPHA = ['*', '*^', '*v', '*x', '*+', '*-']
TYPES = [('**kern',), ('**kern', '**text'), ('**kern', '**kern'), ('**kern', '**dynam', '**kern')]


def siblings(a, b):
    return a[:-1] == b[:-1] and a[-2:] in (')a', ')b') and b[-2:] in (')a', ')b')


def merged(infos):
    infos = list(infos)
    again = True
    while again and len(infos) > 1:
        again = False
        for i in range(len(infos) - 1):
            if siblings(infos[i], infos[i + 1]):
                infos[i:i + 2] = [infos[i][1:-2]]
                again = True
                break
    return ' '.join(infos)


def track_of(info):
    s = info.lstrip('(')
    n = ''
    for ch in s:
        if not ch.isdigit():
            break
        n += ch
    return int(n)


def step(state, line):
    """state = (infos, ntracks, pend) ; pend = set of columns that must get an exclusive interpretation next.
    -> (new state, links) or None when the line is illegal.   links: per column list of columns on the next line"""
    infos, nt, pend = state
    if len(line) != len(infos):
        return None
    new, links, npend = [], [[] for _ in line], []
    i = 0
    while i < len(line):
        t = line[i]
        if i in pend and not t.startswith('**'):
            return None
        if t.startswith('**'):
            if i not in pend:
                return None
            links[i].append(len(new))
            new.append(infos[i])
        elif t == '*^':
            links[i] += [len(new), len(new) + 1]
            new += [f'({infos[i]})a', f'({infos[i]})b']
        elif t == '*v':
            j = i
            while j < len(line) and line[j] == '*v' and j not in pend:
                j += 1
            if j - i < 2:
                return None
            for k in range(i, j):
                links[k].append(len(new))
            new.append(merged(infos[i:j]))
            i = j
            continue
        elif t == '*x':
            if i + 1 >= len(line) or line[i + 1] != '*x' or i + 1 in pend:
                return None
            links[i].append(len(new) + 1)
            links[i + 1].append(len(new))
            new += [infos[i + 1], infos[i]]
            i += 2
            continue
        elif t == '*+':
            links[i].append(len(new))
            new.append(infos[i])
            nt += 1
            npend.append(len(new))
            new.append(str(nt))
        elif t == '*-':
            pass
        else:
            links[i].append(len(new))
            new.append(infos[i])
        i += 1
    return (tuple(new), nt, tuple(npend)), links


def lines_from(state, maxn, free):
    """every line worth trying: all of the alphabet in every column (columns awaiting an exclusive interpretation get
    one, except that illegal alternatives are produced when free)"""
    infos, nt, pend = state
    opts = []
    for i in range(len(infos)):
        if i in pend:
            opts.append(['**kern', '**text'] + (['*', '*^'] if free else []))
        else:
            opts.append(ALPHA + (['**kern'] if free else []))
    for ln in itertools.product(*opts):
        if all(t == '*' for t in ln):
            continue
        if ln.count('*+') > 1 and len(infos) > 2:
            continue
        yield ln


def explore(types, depth, maxn, stats, illegal_depth):
    """yields lists of lines: one path per (state, line), legal or illegal"""
    n = len(types)
    start = (tuple(str(i + 1) for i in range(n)), n, ())
    frontier = {start: [list(types)]}
    seen = {start}
    stats.states += 1
    for d in range(depth):
        nxt = {}
        for st, path in frontier.items():
            for ln in lines_from(st, maxn, d < illegal_depth):
                r = step(st, ln)
                stats.transitions += 1
                if r is None:
                    if d < illegal_depth:
                        yield path + [list(ln)], False
                    continue
                ns = r[0]
                if len(ns[0]) > maxn or ns[1] > n + 2:
                    continue
                yield path + [list(ln)], True
                if ns not in seen:
                    seen.add(ns)
                    stats.states += 1
                    if ns[0]:
                        nxt[ns] = path + [list(ln)]
        frontier = nxt


def cases(tier, stats):
    more = 0 if tier == 'quick' else 1
    out = set()
    for types in TYPES:
        depth = {1: 3, 2: 3, 3: 2}[len(types)] + more
        maxn = {1: 5, 2: 4, 3: 4}[len(types)] + more
        for path, legal in explore(types, depth, maxn, stats, 2 if len(types) < 3 else 1):
            for filling in (0, 1, 2, 3):
                if filling in (1, 3) and len(path) > 2 and tier == 'quick':
                    continue
                if filling == 2 and len(path) > 3 and tier == 'quick':
                    continue
                key = '/'.join(' '.join(x) for x in path) + f'#{filling}'
                if key in out:
                    continue
                out.add(key)
                yield key, {'path': path, 'legal': legal, 'fill': filling, 'bad': None}
            if legal and len(path) <= 2 + more:
                for bad in ('more', 'less', 'after', 'nodata', 'noex'):
                    yield '/'.join(' '.join(x) for x in path) + '!' + bad, {'path': path, 'legal': False, 'fill': 0, 'bad': bad}


def build(case):
    """-> lines of the file, as lists of fields (or a string for a global line); and the model's token table"""
    path, fillk, bad = case['path'], case['fill'], case['bad']
    types = path[0]
    out = [list(types)]
    state = (tuple(str(i + 1) for i in range(len(types))), len(types), ())
    if fillk == 2:
        out.insert(0, '!!!COM: Nobody')
    c = [0]

    def filler():
        n = len(state[0])
        if not n or state[2]:
            return
        c[0] += 1
        if fillk == 0:
            out.append([f'4{"cdefgab"[(c[0] + i) % 7]}' for i in range(n)])
        elif fillk == 2:
            out.append(['*foo' + str(i) for i in range(n)])
            out.append([f'={c[0]}'] * n)
            out.append('!! global')
            out.append(['!loc' + str(i) for i in range(n)])
            out.append(['4c'] * n)
            out.append(['.'] * n if c[0] % 2 else ['*'] * n)
            out.append('')
        elif fillk == 3:
            out.append(['2c'] + ['4c'] * (n - 1))
            out.append(['!'] * n)
            out.append(['.'] + ['4c'] * (n - 1) if n > 1 else ['.'])
            out.append('!!!!universal: x')
    filler()
    legal = True
    for ln in path[1:]:
        out.append(list(ln))
        r = step(state, ln)
        if r is None:
            legal = False
            # let the rest look as innocent as it can
            n = max(1, len([t for t in ln if t != '*-']) + ln.count('*^') + ln.count('*+') - max(0, ln.count('*v') - 1))
            for t in (['4c'] * n, ['*-'] * n):
                out.append(t)
            break
        state = r[0]
        filler()
    if legal:
        if state[2]:
            ln = ['**kern' if i in state[2] else '*' for i in range(len(state[0]))]
            out.append(ln)
            state = step(state, ln)[0]
            filler()
        n = len(state[0])
        if bad == 'more':
            out.append(['4c'] * (n + 1))
        elif bad == 'less':
            out.append(['4c'] * (n - 1) if n > 1 else ['4c', '4d', '4e'])
        if n:
            out.append(['*-'] * n)
        if bad == 'after':
            out.append(['4c'] * len(types))
        elif bad == 'nodata':
            out.insert(0, ['4c'] * len(types))
        elif bad == 'noex':
            out[0] = ['*'] * len(types)
    return out


def model(lines):
    """the token table of a legal file: {(line, field): (text, track, subtrack, info, type, prev, next)}"""
    table, prev = {}, {}
    state = None
    types = {}
    incoming = []   # for each column of the next spined line: [(line, field)]
    for li, ln in enumerate(lines):
        if isinstance(ln, str):
            continue
        if state is None:
            state = (tuple(str(i + 1) for i in range(len(ln))), len(ln), ())
            for i, t in enumerate(ln):
                types[i + 1] = t
            incoming = [[] for _ in ln]
            ns, links = state, [[i] for i in range(len(ln))]
        else:
            for i in state[2]:
                types[int(state[0][i])] = ln[i]
            ns, links = step(state, ln)
        tracks = [track_of(x) for x in state[0]]
        cnt = {}
        for i, t in enumerate(ln):
            cnt[tracks[i]] = cnt.get(tracks[i], 0) + 1
            sub = 0 if tracks.count(tracks[i]) == 1 else cnt[tracks[i]]
            table[(li, i)] = [t, tracks[i], sub, state[0][i], None, incoming[i], []]
            for p in incoming[i]:
                table[p][6].append((li, i))
        nxt = [[] for _ in ns[0]]
        for i, ls in enumerate(links):
            for j in ls:
                nxt[j].append((li, i))
        incoming = nxt
        state = ns
    for v in table.values():
        v[4] = types[v[1]]
        # the two links of a split stand in spine order
    return table, types


def run(case):
    lines = build(case)
    text = '\n'.join(x if isinstance(x, str) else '\t'.join(x) for x in lines) + '\n'
    disc = []
    for cls in (HumdrumFileBase, HumdrumFile):
        nm = cls.__name__
        f = cls()
        f.isQuiet = True
        ok = f.readString(text)
        if bool(ok) != f.isValid:
            disc.append((nm, f'readString returned {ok} but isValid is {f.isValid}'))
        if not case['legal']:
            if f.isValid:
                disc.append((nm, 'illegal file accepted'))
            elif not f.parseError:
                disc.append((nm, 'no error message'))
            continue
        if not f.isValid:
            flat = [t for ln in case['path'] for t in ln]
            # an added spine that shares no timed line with the others has no time (see C02)
            if cls is HumdrumFile and '*+' in flat and (case['fill'] != 0 or '*-' in flat):
                continue
            if cls is HumdrumFile and '*v' in flat and '*-' in flat and len(set(case['path'][0])) > 1:
                continue    # merged spines of different kinds: what time the rest has is not defined
            disc.append((nm, f'legal file rejected: {f.parseError[:120]}'))
            continue
        table, types = model(lines)
        got = {}
        objs = {}
        for li, line in enumerate(f.lines()):
            for fi, tok in enumerate(line.tokens()):
                objs[id(tok)] = (li, fi)
        for li, line in enumerate(f.lines()):
            if isinstance(lines[li], str):
                if line.hasSpines and lines[li]:
                    disc.append((nm, f'line {li} should not have spines'))
                continue
            if line.lineIndex != li or line.tokenCount != len(lines[li]):
                disc.append((nm, f'line {li}: index {line.lineIndex} fields {line.tokenCount}'))
                continue
            for fi, tok in enumerate(line.tokens()):
                e = table[(li, fi)]
                g = [tok.text, tok.track, tok.subTrack, tok.spineInfo, tok.dataType.text,
                     [objs.get(id(x)) for x in tok.previousTokens], [objs.get(id(x)) for x in tok.nextTokens]]
                for nm2, a, b in zip(('text', 'track', 'subTrack', 'spineInfo', 'dataType', 'previousTokens', 'nextTokens'), e, g):
                    if nm2 == 'text' and cls is HumdrumFile:
                        continue
                    if nm2.endswith('Tokens'):
                        a, b = sorted(a), sorted(b, key=str)
                    if a != b:
                        disc.append((nm, f'token ({li},{fi}) {nm2}: expected {a!r}, got {b!r}'))
                if (tok.fieldIndex, tok.lineIndex) != (fi, li):
                    disc.append((nm, f'token ({li},{fi}) says it is at ({tok.lineIndex},{tok.fieldIndex})'))
        if f.maxTrack != len(types):
            disc.append((nm, f'maxTrack {f.maxTrack} expected {len(types)}'))
        st = [t.text if t is not None else None for t in f.spineStartList]
        if st != [types[i + 1] for i in range(len(types))]:
            disc.append((nm, f'spineStartList {st}'))
        for tr in range(1, len(types) + 1):
            ends = sorted(objs.get(id(f.trackEnd(tr, k))) for k in range(f.trackEndCount(tr)))
            exp = sorted(p for p, v in table.items() if v[0] == '*-' and v[1] == tr)
            if ends != exp:
                disc.append((nm, f'ends of track {tr}: expected {exp}, got {ends}'))
        s = str(f)
        if s.rstrip('\n') != text.rstrip('\n'):
            disc.append((nm, 'printed file differs from the text read'))
    return disc, str(len(disc)) + text[:0] + ('L' if case['legal'] else 'X')


def show(case):
    for x in build(case):
        print(x if isinstance(x, str) else '\t'.join(x))
