"""C27: layout parameters and the key/value stores.

All operation sequences (within the bound) on the three-level key/value store are run next to a dictionary; all
parameter strings of a grammar are parsed and compared with what they were composed of; layout comments are put at
every combination of places of small Humdrum files (two spines, a split spine, all kinds of lines) and the parameters
every single token gets are compared with an independent reading of the placement rules.
"""
import itertools
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import target   # pylint: disable=unused-import
from converter21.humdrum import HumdrumFile, HumdrumToken, HumdrumLine
from converter21.humdrum import HumParamSet
from converter21.humdrum.humhash import HumHash

PROP = 'C27'
CHUNK = 4
BOUND = {'quick': 'stores: every sequence of 3 of 21 operations (set/delete/set origin through every way of addressing) '
                  'on a bare store, of 2 on tokens, lines and files, all observers after every step; parameter strings: '
                  'products of names and values up to 3 parameters; placements: layout comments at every 1 and 2 of the '
                  'places of 6 files, 3 on the smaller ones, with and without note selection',
         'thorough': 'sequences of 4 operations, 3 comments on every file'}
ASSUME = ['layout comments directly before a spine split or merge, or before a null token, are not asserted']

# ---------------------------------------------------------------- stores

ADDR = [(('k',), ('', '', 'k')), (('a:k',), ('', 'a', 'k')), (('a', 'k'), ('', 'a', 'k')), (('b:a:k',), ('b', 'a', 'k')),
        (('b', 'a', 'k'), ('b', 'a', 'k')), (('a', '', 'k'), ('', 'a', 'k')), (('b', 'a', 'j'), ('b', 'a', 'j')),
        (('', '', 'j'), ('', '', 'j')), (('b', 'c', 'k'), ('b', 'c', 'k'))]
VALUES = [('1', 1), (7, 7), ('x', 0), ('false', 0), ('', 0), (0, 0), (2.5, 2), (True, 1)]


def ops():
    for i in range(len(ADDR)):
        yield ('set', i, i % 3)
    for i in (0, 1, 3, 6):
        yield ('set', i, 4 + i % 3)
    for i in (0, 1, 2, 3, 5, 6, 7):
        yield ('del', i)
    yield ('org', 2)
    yield ('org', 4)


OPS = list(ops())


def expect_num(v, fn, zero):
    try:
        return fn(v)
    except Exception:   # pylint: disable=broad-except
        return zero


def observe(h, model, skip=()):
    """all observers; model: {(ns1, ns2, key): [value, origin]}; yields discrepancies"""
    for how, addr in ADDR:
        want = model.get(addr)
        if h.isDefined(*how) != (want is not None):
            yield f'isDefined{how} is {h.isDefined(*how)}'
        v = h.getValue(*how)
        wv = want[0] if want else None
        if v != wv or type(v) is not type(wv):
            yield f'getValue{how} is {v!r} instead of {wv!r}'
        if h.getOrigin(*how) is not (want[1] if want else None):
            yield f'getOrigin{how} is {h.getOrigin(*how)!r}'
        s = h.getValueString(*how)
        if s != (None if wv is None else str(wv)):
            yield f'getValueString{how} is {s!r}'
        n = h.getValueInt(*how)
        if n != (0 if wv is None else expect_num(wv, int, 0)):
            yield f'getValueInt{how} is {n!r}'
        n = h.getValueFloat(*how)
        if n != (0 if wv is None else expect_num(wv, float, 0.0)):
            yield f'getValueFloat{how} is {n!r}'
        b = h.getValueBool(*how)
        wb = False if wv is None else wv not in ('false', '0') if isinstance(wv, str) else int(wv) != 0
        if b != wb:
            yield f'getValueBool{how} is {b!r}'
        if h.getValueToken(*how) is not None:
            yield f'getValueToken{how} of {wv!r}'
    keys = set(model)
    # the ways to ask for everything, one namespace, one pair
    allk = sorted(':'.join(k) for k in keys)
    got = sorted(k for k in h.getKeys() if k not in skip)
    if got != allk:
        yield f'getKeys() is {got} instead of {allk}'
    if not skip:
        if h.hasParameters() != bool(keys):
            yield f'hasParameters() is {h.hasParameters()}'
        if h.getParameterCount() != len(keys):
            yield f'getParameterCount() is {h.getParameterCount()}'
        for n1 in ('', 'a', 'b'):
            w = sorted(f'{y}:{z}' for x, y, z in keys if x == n1)
            if sorted(h.getKeys(n1)) != w:
                yield f'getKeys({n1!r}) is {h.getKeys(n1)} instead of {w}'
            if h.hasParameters(n1) != bool(w) or h.getParameterCount(n1) != len(w):
                yield f'hasParameters/getParameterCount({n1!r})'
    for n1, n2 in (('', 'a'), ('b', 'a'), ('b', 'c'), ('a', 'b')):
        w = sorted(z for x, y, z in keys if (x, y) == (n1, n2))
        for args in ((n1, n2), (f'{n1}:{n2}',)):
            if sorted(h.getKeys(*args)) != w:
                yield f'getKeys{args} is {h.getKeys(*args)} instead of {w}'
            if h.hasParameters(*args) != bool(w) or h.getParameterCount(*args) != len(w):
                yield f'hasParameters/getParameterCount{args}'


def do_store(disc, kind, first, depth):
    """all sequences that start with `first`"""
    n = 0
    tok = HumdrumToken('4c')
    stack = [list(first)]
    while stack:
        seq = stack.pop()
        if len(seq) < depth:
            stack.extend(seq + [o] for o in OPS)
        skip = ()
        if kind == 'hash':
            h = HumHash()
        elif kind == 'token':
            h = HumdrumToken('4c')
        elif kind == 'line':
            h = HumdrumLine('4c\t4d')
        else:
            h = HumdrumFile()
            h.readString('**kern\n4c\n*-\n')
            if any(h.isDefined(*how) for how, _ in ADDR):
                continue
        skip = tuple(h.getKeys())
        model = {}
        n += 1
        for op in seq:
            how, addr = ADDR[op[1]]
            if op[0] == 'set':
                v = VALUES[op[2]][0]
                h.setValue(*how, v)
                model[addr] = [v, None]
            elif op[0] == 'del':
                h.deleteValue(*how)
                model.pop(addr, None)
            else:
                h.setOrigin(*how, tok)
                if addr in model:
                    model[addr][1] = tok
        for d in observe(h, model, skip):
            disc.append(('store', f'{kind} after {seq}: {d}'))
            if len(disc) > 5:
                return n
    return n


# ---------------------------------------------------------------- strings

NAMES = ['t', 'a', 'vis', 'n', 'key2', '']
VALS = [None, 'true', '4', 'a b', 'x=y', 'c:d', '"q"', 'é', '', '&amp;']


def param_text(ps):
    return ':'.join(n if v is None else n + '=' + v.replace(':', '&colon;') for n, v in ps)


def do_strings(disc, head):
    n = 0
    singles = [(a, b) for a in NAMES for b in VALS if a or b]
    lists = [[p] for p in singles] + [list(p) for p in itertools.product(singles, singles[::3])] \
        + [list(p) for p in itertools.product(singles[::4], singles[::7], singles[::9])]
    for ps in lists:
        for bang in ('', '!', '!!'):
            n += 1
            text = bang + head + ':' + param_text(ps)
            want = [(a, 'true' if b is None else b) for a, b in ps]
            for arg in (text, HumdrumToken(text)):
                s = HumParamSet(arg)
                got = [(s.getParameterName(i), s.getParameterValue(i)) for i in range(s.count)]
                ns = (s.namespace1, s.namespace2, s.namespace)
                if got != want or ns != tuple(head.split(':')) + (head,):
                    disc.append(('string', f'{text!r} is read as {ns} {got}'))
            if s.getParameterName(s.count) or s.getParameterValue(-1):
                disc.append(('string', f'{text!r}: parameters outside of the list'))
            # changing
            for nm in ('t', 'new'):
                s = HumParamSet(text)
                i = s.setParameter(nm, 'V')
                w = list(want)
                at = [j for j, p in enumerate(w) if p[0] == nm]
                if at:
                    w[at[0]] = (nm, 'V')
                else:
                    w.append((nm, 'V'))
                got = [(s.getParameterName(j), s.getParameterValue(j)) for j in range(s.count)]
                if got != w or i != (at[0] if at else len(w) - 1):
                    disc.append(('string', f'{text!r} with {nm}=V is {got}, index {i}'))
            if bang == '!!':
                ln = HumdrumLine(text)
                if text.startswith('!!LO:'):
                    ln.createTokensFromLine()
                    ln.setLayoutParameters()
                    for a, b in want:
                        last = [y for x, y in want if x == a][-1]
                        v = ln[0].getValue('LO', head.split(':')[1], a)
                        if a and v != last:
                            disc.append(('string', f'line {text!r}: {a} is {v!r}'))
            if len(disc) > 5:
                return n
    for bad in ('', '!', '!LO', '!LO:TX', '!!LO:', 'LO', '!!!', '!comment', '!a:b'):
        s = HumParamSet(bad)
        if s.count:
            disc.append(('string', f'{bad!r} has {s.count} parameters'))
    return n


# ---------------------------------------------------------------- placements

# lines of the base files; a '{}' line is a place for layout comments of any spine (or a global one)
FILES = [
    ['**kern', '**kern', None,
     ['*clefF4', '*clefG2'], ['*', '*k[b-]'], ['=1', '=1'], ['4c', '2d'], ['4e', '.'], ['2f', '2a'], ['=', '='],
     ['2c 2e', '4d'], ['.', '4g'], ['2r', '2r'], ['==', '=='], ['*-', '*-']],
    ['**kern', '**dynam', None,
     ['*clefG2', '*'], ['=1', '=1'], ['4c', 'p'], ['4c', 'f'], ['4c', '.'], ['4c', 'mf'], ['=', '='], ['*-', '*-']],
    ['**kern', None, ['*M4/4'], ['=1-'], ['4c'], ['4c'], ['*^'], ['4c', '4d'], ['4c', '4d'], ['*v', '*v'], ['=2'],
     ['1c'], ['=='], ['*-']],
    ['**kern', '**kern', None, ['=1', '=1'], ['*', '*^'], ['4c', '4d', '4e'], ['4f', '4g', '4a'], ['=', '=', '='],
     ['4b', '4c', '4d'], ['*', '*v', '*v'], ['4e', '4f'], ['==', '=='], ['*-', '*-']],
    ['**text', '**kern', None, ['*', '*clefG2'], ['la', '4c'], ['li', '4c 4e 4g'], ['.', '4r'], ['*-', '*-']],
    ['**kern', None, ['4c'], ['4c'], ['4c'], ['4c'], ['4c'], ['4c'], ['*-']],
]


def lay(f):
    """rows of [kind, fields]"""
    f = FILES[f]
    i = f.index(None)
    return [f[:i]] + f[i + 1:]


COMM = ['!LO:TX:t=a', '!LO:N:vis=4', '!LO:N:n=2:vis=2', '!LO:TX:a:t=b&colon;c', '!LO:N:n=1:acc', '!plain', '!LO:TX:t=a:ignore']
GLOB = ['!!LO:TX:t=g', '!!LO:N:vis=8', '!!plain', '!!LO:N:n=2:vis=1']


def places(f):
    rows = lay(f)
    out = []
    for r in range(1, len(rows)):
        n = len(rows[r - 1])
        # after a manipulator the number of fields changes
        n = len(rows[r]) if rows[r - 1][0][:2] in ('*^', '*v') or any(x in ('*^', '*v') for x in rows[r - 1]) else n
        out += [(r, c) for c in range(n)] + [(r, 'g')]
    return out


def is_manip(t):
    return t in ('*^', '*v', '*x', '*+', '*-') or t.startswith('**')


def build(f, puts):
    """puts: list of (row, column or 'g', comment); returns text and the expected links
    {(line, field): [comment lines, in order]}, with None for 'not asserted'"""
    rows = lay(f)
    ins = {}
    for r, c, text in puts:
        ins.setdefault(r, []).append((c, text))
    lines = []       # (fields, is comment line)
    for r, row in enumerate(rows):
        for c, text in ins.get(r, []):
            if c == 'g':
                lines.append([text])
            else:
                n = len(rows[r])
                if any(x in ('*^', '*v') for x in rows[r]):
                    n = len(rows[r])
                fs = ['!'] * n
                fs[c] = text
                lines.append(fs)
        lines.append(list(row))
    want = {}
    open_ = set()
    for i, fs in enumerate(lines):
        for j, t in enumerate(fs):
            want[(i, j)] = []
    for i, fs in enumerate(lines):
        if fs[0].startswith('!!'):
            if not fs[0].startswith('!!LO:') or ':ignore' in fs[0]:
                continue
            for k in range(i + 1, len(lines)):
                g = lines[k]
                if g[0].startswith('!'):
                    continue
                if all(x in ('.', '*') for x in g):
                    continue
                for j in range(len(g)):
                    if want[(k, j)] is not None:
                        want[(k, j)].append((i, fs[0]))
                break
            continue
        if not fs[0].startswith('!'):
            continue
        for j, t in enumerate(fs):
            if not t.startswith('!LO:'):
                continue
            # follow the column down
            col = j
            for k in range(i + 1, len(lines)):
                g = lines[k]
                if g[0].startswith('!!'):
                    continue
                x = g[col]
                if x.startswith('!') or x == '*':
                    if any(y in ('*^', '*v') for y in g):
                        # the column number changes by what happens to the left
                        left = g[:col]
                        col = sum(2 if y == '*^' else 1 for y in left) - max(0, left.count('*v') - 1)
                    continue
                if is_manip(x):
                    if x not in ('*-',):
                        open_.add((i, j))
                    break
                if x == '.':
                    want[(k, col)] = None
                    break
                if ':ignore' in t:
                    break
                if want[(k, col)] is not None:
                    want[(k, col)].append((i, t))
                break
    return '\n'.join('\t'.join(x) for x in lines) + '\n', lines, None if open_ else want


def parse(t):
    ps = t.lstrip('!').split(':')
    out = []
    for p in ps[2:]:
        p = p.replace('&colon;', ':')
        a, eq, b = p.partition('=')
        out.append((a, b if eq else 'true'))
    return ps[0], ps[1], out


def layout(sets, cat, key, sub=-1):
    for s in sets:
        n1, n2, ps = parse(s)
        if n2 != cat:
            continue
        v = [b for a, b in ps if a == key]
        n = [b for a, b in ps if a == 'n']
        if not v:
            continue
        if sub < 0 or not n or int(n[-1]) == sub + 1:
            return v[0]
    return ''


def do_place(disc, f, puts):
    text, lines, want = build(f, puts)
    if want is None:
        return 0
    hf = HumdrumFile()
    hf.readString(text)
    if not hf.isValid:
        disc.append(('place', f'{text!r} is not valid'))
        return 1
    for i, fs in enumerate(lines):
        for j, t in enumerate(fs):
            w = want[(i, j)]
            if w is None:
                continue
            tok = hf[i][j]
            if tok.text != t:
                disc.append(('place', f'line {i} field {j} is {tok.text!r}'))
                continue
            if t.startswith('!'):
                continue
            w = [x[1] for x in sorted(w)]
            got = []
            for q in range(tok.linkedParameterSetCount):
                s = tok.getLinkedParameterSet(q)
                got.append((s.namespace1, s.namespace2, [(s.getParameterName(k), s.getParameterValue(k)) for k in range(s.count)]))
            if sorted(map(str, got)) != sorted(str(parse(x)) for x in w):
                disc.append(('place', f'{text!r}: {t!r} at line {i + 1} field {j + 1} has the parameters {got}, should have {w}'))
                continue
            if got != [parse(x) for x in w]:
                disc.append(('place', f'{text!r}: {t!r} at line {i + 1} field {j + 1} has its parameters in the order {got}, not {w}'))
                continue
            for q in range(tok.linkedParameterSetCount):
                if tok.linkedParameterIsGlobal(q) != w[q].startswith('!!'):
                    disc.append(('place', f'{text!r}: {t!r}: parameter set {q} global or not'))
            for cat, key in (('TX', 't'), ('N', 'vis'), ('N', 'acc'), ('TX', 'a'), ('A', 'vis')):
                for sub in (-1, 0, 1, 2):
                    if tok.layoutParameter(cat, key, sub) != layout(w, cat, key, sub):
                        disc.append(('place', f'{text!r}: {t!r}: layoutParameter({cat}, {key}, {sub}) is '
                                     f'{tok.layoutParameter(cat, key, sub)!r}, not {layout(w, cat, key, sub)!r}'))
                if tok.getBooleanLayoutParameter(cat, key) != bool(layout(w, cat, key)):
                    disc.append(('place', f'{text!r}: {t!r}: getBooleanLayoutParameter({cat}, {key})'))
                if tok.getStringLayoutParameter(cat, key) != layout(w, cat, key):
                    disc.append(('place', f'{text!r}: {t!r}: getStringLayoutParameter({cat}, {key})'))
    return 1


def do_places(disc, f, group):
    n = 0
    for puts in group:
        n += do_place(disc, f, [tuple(p) for p in puts])
        if len(disc) > 5:
            break
    return n


def put_lists(f, tier):
    pl = places(f)
    one = [(r, c, t) for r, c in pl for t in (GLOB if c == 'g' else COMM)]
    for p in one:
        yield [p]
    few = [(r, c, t) for r, c in pl for t in (GLOB[::3] if c == 'g' else COMM[:3:2] + COMM[4:5])]
    few.sort(key=lambda x: x[0])
    for a, b in itertools.combinations_with_replacement(few, 2):
        if a[0] <= b[0] and b[0] - a[0] < 4:
            yield [a, b]
            if a[0] == b[0] and a != b:
                yield [b, a]
    if tier == 'thorough' or len(FILES[f]) < 10:
        few = [(r, c, t) for r, c in pl for t in (GLOB[3:] if c == 'g' else COMM[2:3] + COMM[1:2])]
        for r in sorted({x[0] for x in few}):
            here = [x for x in few if r <= x[0] <= r + 1]
            for abc in itertools.permutations(here, 3):
                if abc[0][0] <= abc[1][0] <= abc[2][0]:
                    yield list(abc)


def chunks(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


def cases(tier, stats):
    n = 0
    depth = 3 if tier == 'quick' else 4
    for o in OPS:
        if depth == 3:
            yield f'hash:{o}', ['store', 'hash', [o], depth]
        else:
            for p in OPS:
                yield f'hash:{o}{p}', ['store', 'hash', [o, p], depth]
        for kind in ('token', 'line', 'file'):
            yield f'{kind}:{o}', ['store', kind, [o], 2]
        n += sum(len(OPS) ** k for k in range(depth)) + 3 * (1 + len(OPS))
    for head in ('LO:TX', 'LO:N', 'X:Y', 'LO:'):
        yield f'str:{head}', ['strings', head]
        n += 1
    for f in range(len(FILES)):
        for i, g in enumerate(chunks(put_lists(f, tier), 40)):
            yield f'place{f}.{i}', ['places', f, g]
            n += len(g)
    stats.states = n


LAST = [1]


def traces_of(case):
    return LAST[0]


def run(case):
    disc = []
    LAST[0] = globals()['do_' + case[0]](disc, *case[1:])
    return disc[:10], f'{case[0]}{bool(disc)}'


def show(case):
    print(case)
    if case[0] == 'places':
        for g in case[2][:3]:
            print(build(case[1], [tuple(p) for p in g])[0])
