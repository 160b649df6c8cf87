"""C19: dates.

All date expressions of the Humdrum date syntax (within the bound) are parsed, printed, turned into ISO/EDTF dates and
back, and carried through Humdrum and MEI files, and compared with their meaning, which the generator knows.
"""
import itertools
import os
import sys
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import target
import music21 as m21
from converter21.shared import M21Utilities as MU

PROP = 'C19'
CHUNK = 4
BOUND = {'quick': 'single dates: 4 years (one BC) x prefixes of 1..6 fields x 3 value sets (zeros and maxima included) x every '
                  'placement of up to 2 uncertainty marks (4 symbols); approximate/uncertain/before/after/between/'
                  'selections of 2..3 over a menu of 9 dates; nested ranges over 9x9 forms; near-miss strings: every '
                  'single-character insertion, replacement or deletion of 8 date strings; files: 7 reference keys x '
                  'all forms through Humdrum and MEI and back',
         'thorough': 'same with a menu of 14 dates and all forms under all keys'}
ASSUME = ['ISO/EDTF forms of BC dates and of uncertainty marks on single fields other than the year are compared by '
          'values only', 'year 0 is not used']

ERR = {'': None, 'x': 'approximate', '~': 'approximate', 'z': 'uncertain', '?': 'uncertain'}
VALS = [[5, 12, 11, 30, 45], [1, 1, 0, 0, 0], [12, 31, 23, 59, 59], [2, 28, 0, 5, 0]]
YEARS = [1776, 850, 2024, -44]


def txt(fields):
    """fields: list of up to six (value or None, symbol)"""
    out = []
    for i, (v, s) in enumerate(fields):
        if v is None:
            out.append('')
        elif i == 0:
            out.append(('@' + str(-v) if v < 0 else str(v)) + s)
        else:
            out.append(f'{v:02d}' + s)
    return '/'.join(out[:4]) + (':' + ':'.join(out[4:]) if len(out) > 4 else '')


def mean1(fields):
    full = list(fields) + [(None, '')] * (6 - len(fields))
    return [[v, ERR[s] if v is not None else None] for v, s in full]


def meaning(obj):
    """what a music21 date object says"""
    if obj is None:
        return None
    if isinstance(obj, m21.metadata.DateSelection):
        k = 'select-' + obj.relevance
    elif isinstance(obj, m21.metadata.DateBetween):
        k = 'between'
    elif isinstance(obj, m21.metadata.DateRelative):
        k = 'before' if obj.relevance in ('prior', 'onorbefore') else 'after'
    elif isinstance(obj, m21.metadata.DateSingle):
        k = obj.relevance
    else:
        return ['?', repr(obj)]
    return [k] + [[[getattr(d, a), getattr(d, a + 'Error')] for a in
                   ('year', 'month', 'day', 'hour', 'minute', 'second')] for d in obj._data]


def singles(tier):
    out = []
    for y in YEARS:
        for n in range(1, 7):
            for vals in VALS if n > 1 else VALS[:1]:
                nums = [y] + vals[:n - 1]
                out.append([(v, '') for v in nums])
                for i in range(n):
                    for s in 'x~z?':
                        if i == 0 and s in '~?':
                            pass
                        f = [(v, '') for v in nums]
                        f[i] = (f[i][0], s)
                        out.append(f)
                for i, j in itertools.combinations(range(n), 2):
                    for a, b in itertools.product('xz', repeat=2):
                        f = [(v, '') for v in nums]
                        f[i] = (f[i][0], a)
                        f[j] = (f[j][0], b)
                        out.append(f)
    for vals in VALS:
        out.append([(None, ''), (vals[0], ''), (vals[1], '')])
        out.append([(None, ''), (vals[0], 'x')])
        out.append([(1776, ''), (None, ''), (vals[1], '')])
        out.append([(None, '')] * 3 + [(v, '') for v in vals[2:]])
    return out


MENU = [[(1776, '')], [(850, '')], [(1776, ''), (5, '')], [(1776, ''), (5, ''), (12, '')], [(1801, 'x')], [(1802, 'z')],
        [(1850, ''), (2, 'x')], [(-44, '')], [(1900, ''), (1, ''), (1, ''), (0, ''), (30, ''), (5, '')],
        [(-44, ''), (3, ''), (15, '')], [(2000, 'z'), (2, ''), (29, '')], [(1776, ''), (12, ''), (31, 'z')],
        [(5, '')], [(12345, '')]]


def forms(tier):
    menu = MENU[:10] if tier == 'quick' else MENU
    for f in menu:
        yield txt(f), ['certain', mean1(f)]
        yield '~' + txt(f), ['approximate', mean1(f)]
        yield '?' + txt(f), ['uncertain', mean1(f)]
        yield '<' + txt(f), ['before', mean1(f)]
        yield '>' + txt(f), ['after', mean1(f)]
    for f, g in itertools.product(menu, repeat=2):
        yield txt(f) + '-' + txt(g), ['between', mean1(f), mean1(g)]
        yield txt(f) + '^' + txt(g), ['between', mean1(f), mean1(g)]
        yield txt(f) + '|' + txt(g), ['select-or', mean1(f), mean1(g)]
    for f, g, h in itertools.product(menu[:5], repeat=3):
        yield txt(f) + '|' + txt(g) + '|' + txt(h), ['select-or', mean1(f), mean1(g), mean1(h)]


BASES = ['1776', '1776/05/12', '1776/05/12/10:20:30', '1776-1780', '~1776', '<1776', '1776|1777', '@44', '1776x/05z']
EDIT = ['', 'a', '/', '-', '~', '?', '<', '>', '|', '^', '.', ':', '9', '@', ' ']


def oracle(s):
    """independent reading of the date grammar; None: not a date; '?' : left open"""
    import re
    if not s:
        return None
    num = r'\d+'
    piece = rf'@?{num}[x~z?]?(/(0?[1-9]|1[0-2])[x~z?]?(/(0?[1-9]|[12]\d|3[01])[x~z?]?' \
            rf'(/([01]?\d|2[0-3])[x~z?]?:([0-5]?\d)[x~z?]?:([0-5]?\d)[x~z?]?)?)?)?'
    class One:
        @staticmethod
        def fullmatch(p):
            if not re.fullmatch(piece, p):
                return False
            f = re.sub('[x~z?@]', '', p).split('/')
            if len(f) > 2 and int(f[2]) > [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][int(f[1]) - 1]:
                return False
            return True
    one = One
    if any(c.isalpha() and c not in 'xz' for c in s) or not any(c.isdigit() for c in s):
        return None
    if one.fullmatch(s):
        return '?' if re.search(r'@0*$|^@?0*$', s.split('/')[0].rstrip('x~z?')) else 'single'
    for sep, k in (('-', 'between'), ('^', 'between'), ('|', 'select-or')):
        if sep in s:
            ps = s.split(sep)
            if all(one.fullmatch(p) for p in ps) and (k != 'between' or len(ps) == 2):
                return k
    if s[0] in '<>' and one.fullmatch(s[1:]):
        return 'rel'
    if s[0] in '~?' and one.fullmatch(s[1:]):
        return 'single'
    return '?'


def nears(tier):
    seen = set()
    for b in BASES:
        for i in range(len(b) + 1):
            for e in EDIT:
                for t in ((b[:i] + e + b[i:]), (b[:i] + e + b[i + 1:])):
                    if t not in seen:
                        seen.add(t)
                        yield t
    for t in ('ca. 1800', 'summer 1810', 'unknown', '18th century', '1776/13', '1776/00/12', '1776/05/32', '1776/05/12/25:00:00',
              '1776/05/12/10:61:00', '1776/02/30', '1776/04/31', 'May 12, 1776', '12.5.1776', '1776-1780-1790', '1/2/3/4/5/6/7',
              '1776-', '-1776', '1776|', '|1776', '^', '|', '-', '<', '>', '~', '?', '<>', '/', '//', '1776~?', '17x76',
              '<1776|1777', '>1776^1780', '<1776-1780', '>1776|1777|1778', '<>1776', '><1776', '<<1776'):
        if t not in seen:
            seen.add(t)
            yield t


def chunks(seq, n):
    seq = list(seq)
    for i in range(0, len(seq), n):
        yield seq[i:i + n]


def cases(tier, stats):
    n = 0
    for i, c in enumerate(chunks(singles(tier), 60)):
        yield f'single{i}', ['single', [[txt(f), ['certain', mean1(f)]] for f in c]]
        n += len(c)
    fs = list(forms(tier))
    for i, c in enumerate(chunks(fs, 40)):
        yield f'form{i}', ['single', [list(x) for x in c]]
        n += len(c)
    for i, c in enumerate(chunks(nears(tier), 60)):
        yield f'near{i}', ['near', c]
        n += len(c)
    short = [f for f in fs if not any(v[3][0] is not None for v in f[1][1:])]
    nest = [f for f in short if '-' not in f[0]][:30] + [f for f in short if '^' in f[0]][:6]
    pairs = list(itertools.product(nest, repeat=2))
    for i, c in enumerate(chunks(pairs, 60)):
        yield f'nest{i}', ['nest', [[list(a), list(b)] for a, b in c]]
        n += len(c)
    iso = [f for f in fs] + [(txt(f), ['certain', mean1(f)]) for f in singles(tier) if f[0][0] is not None]
    for i, c in enumerate(chunks(iso, 60)):
        yield f'iso{i}', ['iso', [list(x) for x in c]]
        n += len(c)
    files = [f for f in fs if f[1][0] != 'select-or' or len(f[1]) < 4]
    sel = files[:50] + files[50::7]
    sel += [(txt(f), ['certain', mean1(f)]) for f in singles(tier)[::9]]
    for key in ('ODT', 'PDT', 'RRD', 'CDT', 'MRD', 'YER', 'END'):
        for i, c in enumerate(sel if key == 'ODT' or tier == 'thorough' else sel[::6]):
            yield f'file{key}:{c[0]}', ['file', key, list(c)]
            n += 1
    for i, t in enumerate(list(nears(tier))[::11] + ['ca. 1800', '1776/13', '1776/05/32', '<1776|1777']):
        yield f'fileODT?{t}', ['badfile', 'ODT', t]
    stats.states = n


LAST = [1]


def traces_of(case):
    return LAST[0]


def norm(m):
    return m


def parse(s):
    return meaning(MU.m21DatePrimitiveFromString(s))


def guard(fn, *a):
    try:
        return fn(*a)
    except Exception as e:   # pylint: disable=broad-except
        return f'{type(e).__name__}: {e}'


def run(case):
    disc = []
    LAST[0] = 1
    globals()['do_' + case[0]](disc, *case[1:])
    return disc[:20], f'{case[0]}{len(disc)}'


def do_single(disc, items):
    LAST[0] = len(items)
    for s, want in items:
        got = guard(parse, s)
        if got != want:
            disc.append(('parse', f'{s!r} is read as {got}, should be {want}'))
            continue
        t = guard(lambda: MU.stringFromM21DateObject(MU.m21DatePrimitiveFromString(s)))
        back = guard(parse, t)
        if back != want:
            disc.append(('print', f'{s!r} is written as {t!r}, which means {back}'))
        elif guard(lambda: MU.stringFromM21DateObject(MU.m21DatePrimitiveFromString(t))) != t:
            disc.append(('print', f'{t!r} is not written as itself'))


def do_near(disc, items):
    LAST[0] = len(items)
    for s in items:
        k = oracle(s)
        got = guard(parse, s)
        if isinstance(got, str):
            disc.append(('near', f'{s!r}: {got}'))
            continue
        if k is None and got is not None:
            disc.append(('near', f'{s!r} is no date but is read as {got}'))
        if k in ('single', 'between', 'select-or', 'rel') and got is None:
            disc.append(('near', f'{s!r} is a date ({k}) but is not read'))
        if got is not None:
            kind = got[0]
            if s[:1] in '<>' and kind not in ('before', 'after'):
                disc.append(('near', f'{s!r} is read as {kind}: its sign is lost'))
            t = MU.stringFromM21DateObject(MU.m21DatePrimitiveFromString(s))
            if guard(parse, t) != got:
                disc.append(('near', f'{s!r} means {got}, is written as {t!r}, which means {guard(parse, t)}'))


def do_nest(disc, items):
    """ranges whose ends are themselves inexact (composer's life dates)"""
    LAST[0] = len(items)
    for (a, ma), (b, mb) in items:
        s = a + '-' + b
        x, y = MU.m21DatePrimitiveRangeFromString(s)
        if [meaning(x), meaning(y)] != [ma, mb]:
            disc.append(('range', f'{s!r} is read as {meaning(x)} to {meaning(y)}'))
            continue
        t = MU.stringFromM21DatePrimitiveRange(x, y)
        x2, y2 = MU.m21DatePrimitiveRangeFromString(t)
        if [meaning(x2), meaning(y2)] != [ma, mb]:
            disc.append(('range', f'{s!r} is written as {t!r}'))


def loose(m):
    """equivalence used for ISO dates: an uncertain year-only date is an uncertain date; marks on other fields: any"""
    if m is None or m[0] == '?':
        return m
    k, ds = m[0], m[1:]
    marks = sorted({e for d in ds for _, e in d if e} | ({k} if k in ('approximate', 'uncertain') else set()))
    if len(marks) > 1:
        marks = ['mixed']
    return ['certain' if k in ('approximate', 'uncertain') else k, marks, [[v for v, _ in d] for d in ds]]


def isoable(m):
    for d in m[1:]:
        vals = [v for v, _ in d]
        n = len([v for v in vals if v is not None])
        if any(v is None for v in vals[:n]) or n in (0, 4, 5):
            return False
        if vals[0] < 0 or vals[0] > 9999:
            return False
    return True


def do_iso(disc, items):
    LAST[0] = 2 * len(items)
    for s, want in items:
        o = MU.m21DatePrimitiveFromString(s)
        if meaning(o) != want:
            continue
        d = guard(MU.isoDateFromM21DatePrimitive, o, True)
        if isinstance(d, str):
            disc.append(('edtf', f'{s!r}: {d}'))
            continue
        if isoable(want):
            if set(d) != {'edtf'}:
                disc.append(('edtf', f'{s!r} has no EDTF date'))
            else:
                got = guard(lambda: meaning(MU.m21DatePrimitiveFromIsoDate(d['edtf'])))
                if isinstance(got, list) and len(want) == 2 and loose(want)[1] == ['mixed']:
                    bad = loose(want)[2] != loose(got)[2]     # two different marks on one date: values only
                else:
                    bad = loose(want) != (loose(got) if isinstance(got, list) else got)
                if bad:
                    disc.append(('edtf', f'{s!r} is written as EDTF {d["edtf"]!r}, which means {got}'))
        elif 'edtf' in d:
            got = guard(lambda: meaning(MU.m21DatePrimitiveFromIsoDate(d['edtf'])))
            if isinstance(got, list) and loose(want) != loose(got):
                disc.append(('edtf', f'{s!r} is written as EDTF {d["edtf"]!r}, which means {got}'))
        d = guard(MU.isoDateFromM21DatePrimitive, o, False)
        if isinstance(d, str):
            disc.append(('iso', f'{s!r}: {d}'))
            continue
        marked = bool(loose(want)[1])
        if marked or want[0].startswith('select'):
            if d:
                disc.append(('iso', f'{s!r} cannot be an ISO date, but is written as {d}'))
            continue
        if isoable(want) and not d:
            disc.append(('iso', f'{s!r} has no ISO date'))
        if d:
            keys = {'certain': {'isodate'}, 'before': {'notafter'}, 'after': {'notbefore'},
                    'between': {'startdate', 'enddate'}}[want[0]]
            if set(d) != keys:
                disc.append(('iso', f'{s!r} is written as {d}'))
                continue
            got = [guard(lambda k=k: meaning(MU.m21DatePrimitiveFromIsoDate(d[k]))) for k in
                   (('startdate', 'enddate') if want[0] == 'between' else sorted(keys))]
            want1 = [['certain', x] for x in want[1:]]
            if isoable(want) and got != want1:
                disc.append(('iso', f'{s!r} is written as {d}, which means {got}'))
            import re
            for v in d.values():
                if isoable(want) and not re.fullmatch(r'\d{4}(-\d\d(-\d\d(T\d\d:\d\d:\d\d)?)?)?', v):
                    disc.append(('iso', f'{s!r} is written as {v!r}, which is no ISO date'))


KERN = '!!!COM: Smith, Joe\n!!!OTL: T\n!!!{}: {}\n**kern\n*clefG2\n*M4/4\n=1\n1c\n==\n*-\n'


def got_of(score, key):
    md = score.metadata
    names = {'ODT': 'dateCreated', 'PDT': 'dateFirstPublished', 'RRD': 'dateIssued', 'YER': 'electronicReleaseDate'}
    key = {'MRD': 'MDT'}.get(key, key)      # two names of one thing
    vals = [v for n, v in md.all(returnPrimitives=True, returnSorted=False, skipContributors=False)
            if n == names.get(key) or n == 'humdrum:' + key]
    return vals


def val_meaning(v):
    if isinstance(v, m21.metadata.DatePrimitive):
        return meaning(v)
    return ['text', str(v)]


def same(v, s, want):
    m = val_meaning(v)
    if m == want:
        return True
    if m[0] == 'text':
        return m[1] == s or guard(parse, m[1]) == want
    return False


def line_of(kern, key):
    return [x.split(':', 1)[1].strip() for x in kern.splitlines() if x.startswith(f'!!!{ {"MRD": "MDT"}.get(key, key) }')]


def do_file(disc, key, item):
    s, want = item
    LAST[0] = 4

    def step(name, fn):
        try:
            return fn()
        except Exception as e:   # pylint: disable=broad-except
            disc.append((name, f'exception {type(e).__name__}: {e}'))
            return None
    sc = step('k2m', lambda: target.kern_to_m21(KERN.format(key, s)))
    if sc is None:
        return
    v = got_of(sc, key)
    if len(v) != 1 or not same(v[0], s, want):
        disc.append(('k2m', f'{key} {s!r} is read as {[val_meaning(x) for x in v]}'))
        return
    k = step('m2k', lambda: target.m21_to_kern(sc))
    if k is not None:
        ln = line_of(k, key)
        if len(ln) != 1 or guard(parse, ln[0]) != want:
            disc.append(('m2k', f'{key} {s!r} is written as {ln}'))
    x = step('m2x', lambda: target.m21_to_mei(sc))
    if x is None:
        return
    sc2 = step('x2m', lambda: target.mei_to_m21(x))
    if sc2 is None:
        return
    v = got_of(sc2, key)
    if len(v) != 1 or not same(v[0], s, want):
        # what ISO cannot say exactly is compared by value
        if len(v) == 1:
            m = val_meaning(v[0])
            if m[0] == 'text':
                m = guard(parse, m[1])
                if m is None and key == 'CDT' and len(want) == 3:
                    x, y = MU.m21DatePrimitiveRangeFromString(val_meaning(v[0])[1])
                    if x and y and len(meaning(x)) == len(meaning(y)) == 2:
                        lx, ly = loose(meaning(x)), loose(meaning(y))
                        both = [want[0], sorted(set(lx[1] + ly[1])), lx[2] + ly[2]]
                        lw = loose(want)
                        if both[2] == lw[2] and (both[1] == lw[1] or lw[1] == ['mixed'] and len(both[1]) > 1):
                            return
            if isinstance(m, list) and loose(m) == loose(want):
                return
        if key == 'CDT' and want[0] not in ('between',):
            return     # life dates are ranges
        disc.append(('m2x2m', f'{key} {s!r} comes back from MEI as {[val_meaning(a) for a in v]}'))


def do_badfile(disc, key, s):
    """whatever the text: the conversion works, and the text comes back as it was or as an equal date"""
    LAST[0] = 2
    s = ' '.join(s.split())
    if not s:
        return
    if guard(parse, s) is None:
        try:
            md = m21.metadata.Metadata()
            md.add('dateCreated', m21.metadata.Text(s))
            if not isinstance(md['dateCreated'][0], m21.metadata.Text):
                return          # (music21 itself makes dates of some texts)
        except Exception:   # pylint: disable=broad-except
            return
    try:
        sc = target.kern_to_m21(KERN.format(key, s))
        k = target.m21_to_kern(sc)
    except Exception as e:   # pylint: disable=broad-except
        disc.append(('k2m', f'{key} {s!r}: exception {type(e).__name__}: {e}'))
        return
    if len(list(sc.recurse().notes)) != 1:
        disc.append(('k2m', f'{key} {s!r}: the score is not read'))
        return
    ln = line_of(k, key)
    a = guard(parse, s)
    if ln != [s] and not (a is not None and len(ln) == 1 and guard(parse, ln[0]) == a):
        disc.append(('k2m2k', f'{key} {s!r} comes back as {ln}'))


def show(case):
    print(case)
