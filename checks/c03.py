"""C03: malformed Humdrum.

Fault injection: every fault of a menu at every line / field / character of well-formed base texts (and every pair of
structural faults), executed on the real parser in strict and in accepting mode.  The oracle for acceptance is an
independent spine machine (c01) over the faulty text; the oracle for the repaired result is the music of the base text
outside the measure that holds the fault.
"""
import collections
import itertools
import re
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import target
import c01
import facts
from converter21.humdrum import HumdrumFile
from converter21.HumdrumConverter import HumdrumConverter

PROP = 'C03'
CHUNK = 8
TIMEOUT = 60
BOUND = {'quick': 'every single fault (line deletion, doubling, swap, truncation; field deletion, insertion, emptying, '
                  'replacement by each of 20 tokens; character deletion; stray tabs, spaces, CR, BOM, empty lines) at '
                  'every position of 5 base texts, strict and accepting',
         'thorough': 'and every pair of structural faults'}

BASES = {
    'two': '''**kern\t**kern
*clefF4\t*clefG2
*M2/4\t*M2/4
=1-\t=1-
4C\t4cc
4D\t8dd
.\t8ee
=2\t=2
2E\t4ff
.\t4gg
=3\t=3
4F\t4aa
4G\t4bb
==\t==
*-\t*-
''',
    'one': '''!!!OTL: Title
**kern
*clefG2
*k[f#]
*M2/4
=1-
(4cL
8d
8e)J
=2
[2f
=3
4f]
4g 4b
==
*-
!!!ENC: someone
''',
    'mix': '''**kern\t**text\t**dynam
*staff1\t*staff1\t*staff1
*clefG2\t*\t*
*M2/4\t*\t*
=1-\t=1-\t=1-
4c\tla\tp
!LO:TX:t=x\t!\t!
4d\tle-\t<
=2\t=2\t=2
4e\t-lu\t.
4f\t.\t[
=3\t=3\t=3
2g\tia\tf
==\t==\t==
*-\t*-\t*-
''',
    'split': '''**kern\t**kern
*M2/4\t*M2/4
=1\t=1
*^\t*
4e\t4C\t2g
4f\t4D\t.
*v\t*v\t*
=2\t=2
4g\t4a
4a\t4b
=3\t=3
*\t*^
2c\t4d\t4A
.\t4e\t4B
*\t*v\t*v
==\t==
*-\t*-
''',
    'add': '''**kern
*M2/4
=1
4c
4d
=2
*+
*\t**kern
4e\t4g
4f\t4a
=3\t=3
*x\t*x
4e\t4g
4f\t4a
*\t*-
=4
2c
==
*-
''',
}
TOKENS = ['', '.', '*', '*^', '*v', '*x', '*+', '*-', '!', '=', '==', '**kern', '**xyz', '4zz', '%%', '4', 'c', '4c',
          '*>A', '*clefQ9', '*M0/0', '*M4', '*k[', '!LO:TX:t', '!LO:', '0000c', '4..........c', '-', '  ',
          '\u00e9', '4c  4d', '4c ', '*k[x#]', '*MM', '*staff', '*I"', '*Trd', '[', '(', '4r r', '1%0c', '=:|!|:=', '*met(',
          '*8va', '*tuplet', '*part', '*>[A,', '*>']


def parse(text):
    return [ln.split('\t') for ln in text.rstrip('\n').split('\n')]


def join(rows):
    return '\n'.join('\t'.join(r) for r in rows) + '\n'


def faults(text):
    """(name, class, faulty text) for every single fault.  class: s = structural repairable, l = line, t = token, c = char"""
    rows = parse(text)
    n = len(rows)
    for i in range(n):
        yield f'delline{i}', 'l', join(rows[:i] + rows[i + 1:])
        yield f'dupline{i}', 'l', join(rows[:i + 1] + [rows[i]] + rows[i + 1:])
        if i + 1 < n:
            yield f'swap{i}', 'l', join(rows[:i] + [rows[i + 1], rows[i]] + rows[i + 2:])
        yield f'trunc{i}', 'l', join(rows[:i])
        yield f'empty{i}', 'l', join(rows[:i] + [['']] + rows[i:])
        yield f'lead{i}', 's', join(rows[:i] + [[''] + rows[i]] + rows[i + 1:])
        yield f'trail{i}', 's', join(rows[:i] + [rows[i] + ['']] + rows[i + 1:])
        yield f'cr{i}', 'l', join(rows[:i] + [rows[i][:-1] + [rows[i][-1] + '\r']] + rows[i + 1:])
        for j in range(len(rows[i])):
            r = rows[i]
            if not (len(r) == 1 and not r[0]):
                yield f'delfield{i}.{j}', 's', join(rows[:i] + [r[:j] + r[j + 1:] or ['']] + rows[i + 1:])
                yield f'dupfield{i}.{j}', 's', join(rows[:i] + [r[:j + 1] + r[j:]] + rows[i + 1:])
                if j + 1 < len(r):
                    yield f'dbltab{i}.{j}', 's', join(rows[:i] + [r[:j + 1] + [''] + r[j + 1:]] + rows[i + 1:])
                    yield f'tabsp{i}.{j}', 's', join(rows[:i] + [r[:j] + [r[j] + ' ' + r[j + 1]] + r[j + 2:]] + rows[i + 1:])
            for k, t in enumerate(TOKENS):
                if t != r[j]:
                    yield f'tok{i}.{j}.{k}', 't', join(rows[:i] + [r[:j] + [t] + r[j + 1:]] + rows[i + 1:])
    for i in range(len(text)):
        yield f'delch{i}', 'c', text[:i] + text[i + 1:]
        yield f'cut{i}', 'c', text[:i]
    yield 'bom', 'c', '\ufeff' + text
    yield 'crlf', 'c', text.replace('\n', '\r\n')
    yield 'nul', 'c', text + '\0'
    yield 'twice', 'c', text + text
    yield 'nlnl', 'c', text + '\n\n'


def structure(text):
    """independent verdict on spine structure: True legal, False illegal, None open"""
    if text.endswith('\n'):
        text = text[:-1]
    rows = []
    for ln in text.split('\n'):
        if ln == '' or ln.startswith('!!'):
            continue
        r = [x for x in ln.split('\t') if x]    # repeated, leading and trailing tabs are allowed
        rows.append(r or [''])
    if not rows:
        return False
    if any(ln.startswith('\t') for ln in text.split('\n')):
        return None
    if '\r' in text or '\0' in text or '\ufeff' in text:
        return None
    if not all(t.startswith('**') for t in rows[0]):
        return None if any(t.startswith('**') for t in rows[0]) else False
    n = len(rows[0])
    st = (tuple(str(i + 1) for i in range(n)), n, ())
    for r in rows[1:]:
        if not st[0]:
            return None
        if len(r) != len(st[0]):
            return False
        kinds = {'*' if t.startswith('*') else '=' if t.startswith('=') else '!' if t.startswith('!') else 'd' for t in r}
        if len(kinds) > 1 or '' in r:
            return None
        if kinds == {'*'}:
            man = [t in ('*^', '*v', '*x', '*+', '*-') or t.startswith('**') for t in r]
            if any(man):
                if any(not m and t != '*' for m, t in zip(man, r)):
                    return None
                if any(t.startswith('**') for t in r) and not st[2]:
                    return None
                res = c01.step(st, tuple(r))
                if res is None:
                    return None if '*x' in r or '*+' in r or '**' in ' '.join(r) else False
                st = res[0]
        if st[2] and kinds != {'*'}:
            return None
    return None if st[0] else True


CATS = ['core', 'measures', 'ties', 'slurs', 'lyrics', 'dynamics', 'clefs', 'keys', 'meters']


def conv(text, accept):
    c = HumdrumConverter()
    return c.parseData(text, acceptSyntaxErrors=accept)


def strict(text):
    d = []
    f = HumdrumFile()
    try:
        ok = f.readString(text)
    except Exception as e:   # pylint: disable=broad-except
        return [f'strict parsing raised {type(e).__name__}: {str(e)[:120]}'], 'exc'
    if bool(ok) != bool(f.isValid):
        d.append(f'readString returned {ok} but isValid is {f.isValid}')
    if f.isValid != (not f.parseError):
        d.append(f'isValid {f.isValid} but parseError is {f.parseError!r}')
    s = structure(text)
    if s is False and f.isValid:
        d.append('accepted although the spine structure is illegal')
    if not f.isValid:
        try:
            sc = conv(text, False)
            if len(list(sc.recurse())):
                d.append('a score was produced from an invalid file')
            if not getattr(sc, 'c21_parse_err', ''):
                d.append('the invalid file was not reported on the score')
        except Exception as e:   # pylint: disable=broad-except
            d.append(f'converting an invalid file raised {type(e).__name__}: {str(e)[:120]}')
        return d, 'invalid'
    return d, 'valid'


CATS = ['core', 'ties', 'slurs', 'lyrics', 'dynamics', 'clefs', 'keys', 'meters']


def where(base):
    """measure index of every line of a base text (None before the first note)"""
    out, m, seen = [], 0, False
    for r in parse(base):
        if r[0].startswith('='):
            if seen:
                m += 1
        elif r[0][0] not in '*!':
            seen = True
        out.append(m)
    return out


def music(sc, skip):
    f = facts.facts(sc, CATS)
    out = {}
    for k, v in f.items():
        out[k] = [x for x in v if not any(re.search(rf'm{m}(?!\d)', x) for m in skip)]
    return out


_base = {}


def run(case):
    text = case['text']
    d, oc = strict(text)
    disc = [('strict', x) for x in d]
    if text == BASES.get(case['base']) and oc != 'valid':
        disc.append(('strict', 'a well-formed file is rejected'))
    try:
        sc = conv(text, True)
    except Exception as e:   # pylint: disable=broad-except
        return disc + [('accept', f'raised {type(e).__name__}: {str(e)[:120]}')], oc
    if case.get('skip') is not None:
        f = HumdrumFile(acceptSyntaxErrors=True)
        try:
            f.readString(text)
            sc = f.createMusic21Stream()
        except Exception as e:   # pylint: disable=broad-except
            return disc + [('accept', f'raised {type(e).__name__}: {str(e)[:120]}')], oc
        if not f.isValid:
            disc.append(('accept', f'repairable fault, yet invalid: {f.parseError[:80]}'))
        elif str(case['skip']).startswith('notes'):
            # a lost rhythm moves the notes after it, but none of the other lines' notes may be lost
            i = int(case['skip'].split()[1])
            rows = parse(BASES[case['base']])
            want = collections.Counter(x.split(' ', 1)[1] for x in facts.facts(
                target.kern_to_m21(BASES[case['base']]), ['core'])['core'])
            got = collections.Counter(x.split(' ', 1)[1] for x in facts.facts(sc, ['core'])['core'])
            lost = sum((want - got).values())
            here = sum(1 for t in rows[i] if t != '.')
            if lost > here:
                disc.append(('accept', f'{lost} notes of other lines are missing or changed: {sorted((want - got))}'))
        elif case['skip'] != 'all':
            key = (case['base'], str(case['skip']))
            if key not in _base:
                _base[key] = music(target.kern_to_m21(BASES[case['base']]), case['skip'])
            for x in facts.diff(_base[key], music(sc, case['skip']))[:4]:
                disc.append(('accept', x))
    return disc, oc


MANIP = re.compile(r'^\*(\*.*|[-+^vx])$')


def scope(b, nm):
    """the measures a repairable fault may touch; 'all': must be repaired, content open; None: nothing is promised"""
    rows = parse(BASES[b])
    wh = where(BASES[b])
    m = re.fullmatch(r'([a-z]+)(\d+)(?:\.(\d+))?', nm)
    if nm == 'none' or nm in ('nlnl', 'twice'):
        return []
    if not m or m.group(1) not in ('delline', 'dupline', 'trail', 'dbltab', 'delfield', 'dupfield'):
        return None
    kind, i = m.group(1), int(m.group(2))
    if rows[i][0].startswith('!!'):
        return [] if kind in ('delline', 'dupline', 'trail') else None
    man = any(MANIP.match(x) for x in rows[i])
    if kind in ('trail', 'dbltab'):
        return []
    if kind == 'delline' and all(x == '*-' for x in rows[i]):
        return []
    if kind == 'delfield' and not man:
        if len(rows[i]) == 1:
            return None
        if rows[i][0][0] in '*!=':
            return [wh[i] - 1, wh[i]] if rows[i][0][0] == '=' else [wh[i]]
        j = int(m.group(3))
        if b != 'add' and j == len(rows[i]) - 1 and (rows[i][j] == '.' or b == 'mix'):
            return [wh[i]]
        return f'notes {i}'
    if kind == 'dupfield' and not man:
        return 'all'
    return None


def cases(tier, stats):
    seen = set()
    for b, text in BASES.items():
        for nm, cls, t in itertools.chain([('none', 's', text)], faults(text)):
            if t in seen:
                continue
            seen.add(t)
            stats.states += 1
            stats.transitions += 1
            c = {'text': t, 'cls': cls, 'base': b, 'skip': scope(b, nm)}
            yield f'{b}:{nm}', c
    for b in BASES if tier == 'thorough' else ('two', 'split'):
        for n1, c1, t1 in faults(BASES[b]):
            if c1 != 's':
                continue
            for n2, c2, t2 in faults(t1):
                if c2 != 's' or t2 in seen:
                    continue
                seen.add(t2)
                stats.states += 1
                stats.transitions += 1
                sc = [] if n1[:5] in ('trail', 'dblta') and n2[:5] in ('trail', 'dblta') else None
                yield f'{b}:{n1}+{n2}', {'text': t2, 'cls': 's', 'base': b, 'skip': sc}


def show(case):
    print(case['text'])
