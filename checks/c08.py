"""C08: clefs, keys, meters, barlines, repeats, endings, pickups, measure numbers"""
import re
from fractions import Fraction
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C08'
BOUND = {'quick': 'every score with at most 1 deviation from the base score over the full vocabulary (all routes), and at most 2 over four options per choice (imports and exports)',
         'thorough': 'at most 2 deviations over the full vocabulary, at most 3 over five options per choice'}
CATS = ['core', 'clefs', 'keys', 'meters', 'barlines', 'endings', 'measures', 'measnums']
CLEFS = ['G2', 'F4', 'C3', 'C4', 'C1', 'C2', 'C5', 'F3', 'F5', 'G1', 'G2-8', 'G2+8', 'F4-8', 'F4+8', 'G2-15', 'G2+15', 'X',
         'F4-15', 'F4+15', 'C4-8']
KEYS = [0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7]
TSS = [('4/4', None), ('3/4', None), ('4/4', 'common'), ('2/2', 'cut'), ('2/2', None), ('6/8', None), ('12/8', None),
       ('3/8', None), ('5/4', None), ('7/8', None), ('3/2', None), ('2/4', None), ('5/8', None), ('9/8', None), ('3/16', None),
       ('1/4', None), ('4/2', None)]
BARS = [None, 'double', 'final', 'dotted', 'none', 'heavy', 'heavy-light', 'dashed', 'tick', 'short', 'heavy-heavy', 'regular',
        'end']


def driver(c):
    ns, parts = c.choose('struct', [STRUCTS[1], STRUCTS[0], STRUCTS[2]])
    nm = c.choose('nmeas', [3, 2, 4])
    en = c.choose('ending', [None, '1', '1,2', '1,2x', '1,2,3', '12', '111,2', '1,2;1,2', '1,2-1,2'])
    if en in ('111,2', '1,2;1,2', '1,2-1,2'):
        nm = {'111,2': 5, '1,2;1,2': 8, '1,2-1,2': 6}[en]
    elif en == '1,2,3' or en == '1,2x':
        nm = 4
    ts, sym = c.choose('ts', TSS)
    M = S.base(ns, nm, ts, parts)
    M['meas'][0]['tssym'] = sym
    for s in range(ns):
        M['clef'][s] = c.choose(f'clef{s}', [M['clef'][s]] + [x for x in CLEFS if x != M['clef'][s]])
    k = c.choose('key', KEYS)
    M['key'] = [k] * ns
    if ns > 1:
        k2 = c.choose('key1', [k] + [x for x in (0, 2, -3) if x != k])
        M['key'][1] = k2
    # later meters
    for m in range(1, nm):
        ch = c.choose(f'ts{m}', [None] + [x for x in TSS if x != (ts, sym)])
        if ch:
            M['meas'][m]['ts'], M['meas'][m]['tssym'] = ch
            ts, sym = ch
        M['meas'][m]['len'] = str(S.tslen(ts))
    # lengths
    short = c.choose('short', [None, 'pickup', 'mid', 'last', 'pickup+last'])
    if short:
        if 'pickup' in short:
            L = S.tslen(M['meas'][0]['ts'])
            M['meas'][0]['len'] = str(L / 4 if L >= 2 else L / 2)
            M['pickup'] = True
        for w, m in (('mid', 1), ('last', nm - 1)):
            if w in short:
                L = Fraction(M['meas'][m]['len'])
                M['meas'][m]['len'] = str(L - (1 if L > 1 else Fraction(1, 4)))
    num = c.choose('num', [None, 'from0', 'from5', 'skip', 'suffix'])
    if num is None and M.get('pickup'):
        num = 'from0'
    for m in range(nm):
        n = m + 1
        if num == 'from0':
            n = m
        elif num == 'from5':
            n = m + 5
        elif num == 'skip' and m > 0:
            n = m + 3
        M['meas'][m]['n'] = str(n)
        if num == 'suffix' and m > 0:
            M['meas'][m]['n'] = '1b' if m == 1 else str(m)
    unit = c.choose('unit', [1, 2, Fraction(1, 2), 4])
    F.fillall(M, unit)
    for s in range(ns):
        for m in range(nm if s == 0 else 1):
            if c.flag(f'two{s}.{m}'):
                M['v'][s][m].append(F.notes(s, m, 1, Fraction(M['meas'][m]['len']), 2))
    # clef / key changes
    for q in range(2):
        places = []
        for s in range(ns):
            for m in range(nm):
                for t, g, e in S.events(M, s, m, 0):
                    if (m, t) != (0, 0):
                        places.append((s, m, str(t)))
        at = c.choose(f'clefat{q}', [None] + places)
        if at:
            cl = c.choose(f'newclef{q}', ['C3', 'F4', 'G2', 'C4', 'G2-8', 'G2+8', 'C1', 'X', 'F4-8', 'F3'])
            M['sigs'].append({'s': at[0], 'm': at[1], 'off': at[2], 'clef': cl})
    if len([x for x in M['sigs']]) == 2 and M['sigs'][0]['s'] == M['sigs'][1]['s'] and (
            M['sigs'][0]['m'], M['sigs'][0]['off']) == (M['sigs'][1]['m'], M['sigs'][1]['off']):
        raise Prune()
    for m in range(1, nm):
        kc = c.choose(f'key@{m}', [None] + [x for x in KEYS if x != k])
        if kc is not None:
            who = c.choose(f'keystaff@{m}', [None] + (list(range(ns)) if ns > 1 else []))
            M['sigs'].append({'s': who, 'm': m, 'off': '0', 'key': kc})
    # barlines
    for m in range(nm):
        opts = list(BARS)
        d = 'final' if m == nm - 1 else None
        b = c.choose(f'right{m}', [d] + [x for x in opts if x != d])
        M['meas'][m]['right'] = b
        left = c.choose(f'left{m}', [None, 'start'])
        M['meas'][m]['left'] = left
    if en:
        if nm < 3 or (en == '1,2,3' and nm < 4):
            raise Prune()
        first = 1
        if en == '1,2x':
            if nm < 4:
                raise Prune()
            M['endings'] = [{'n': '1', 'ms': [1, 2]}, {'n': '2', 'ms': [3]}]
            rp = 2
        elif en == '111,2':
            M['endings'] = [{'n': '1', 'ms': [1, 2, 3]}, {'n': '2', 'ms': [4]}]
            rp = 3
        elif en in ('1,2;1,2', '1,2-1,2'):
            a = 4 if ';' not in en else 5
            M['endings'] = [{'n': '1', 'ms': [1]}, {'n': '2', 'ms': [2]}, {'n': '1', 'ms': [a]}, {'n': '2', 'ms': [a + 1]}]
            rp = 1
            M['meas'][a]['right'] = 'end'
        elif en == '12':
            M['endings'] = [{'n': '1, 2', 'ms': [1]}, {'n': '3', 'ms': [2]}]
            rp = 1
        else:
            M['endings'] = [{'n': x, 'ms': [first + i]} for i, x in enumerate(en.split(','))]
            rp = 1
        if M['meas'][rp].get('right') is None and M['meas'][rp + 1].get('left') is None if rp + 1 < nm else True:
            M['meas'][rp]['right'] = 'end'
    rep = c.choose('repform', [None, 'start', 'end', 'both'])
    if rep:
        M['meas'][1]['right' if rep != 'start' else 'left'] = 'end' if rep != 'start' else 'start'
        if rep == 'both':
            if nm < 3:
                raise Prune()
            M['meas'][2]['left'] = 'start'
            f = c.choose('bothform', [':|!|:', ':!|!:', ':||:', ':!:', ':|:', 'mei'], cost=0)
            if f == 'mei':
                M['meiopt'] = {'both': 'yes'}
            else:
                M['kopt'] = {'rboth': f}
        elif rep == 'start':
            M['kopt'] = {'rstart': c.choose('startform', ['!|:', '|:', '!:', '||:'], cost=0)}
        else:
            M['kopt'] = {'rend': c.choose('endform', [':|!', ':|', ':!', ':||'], cost=0)}
    mo = c.choose('m.sig', [None, 'attr'])
    if mo:
        M.setdefault('meiopt', {})['sig'] = mo
    return M


def ok(r, M):
    if uses_kern(r) and any(not x['n'].isdigit() for x in M['endings']):
        return False
    return True


def norm(r, f, M):
    """MEI has no sign for some barlines: they become regular ones"""
    if uses_mei(r):
        f = dict(f)
        f['barlines'] = sorted(re.sub(r'(tick|short|heavy-heavy|heavy-light)', 'regular', x) for x in f['barlines'])
    return f


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS


run, traces_of = F.make(CATS, plan, norm=norm, ok=ok)
show = F.show


def cases(tier, stats):
    q = tier == 'quick'
    seen = set()
    for k, M in F.enum(stats, driver, 1 if q else 2, seen=seen):
        M['full'] = 2
        yield k, M
    for k, M in F.enum(stats, driver, 2 if q else 3, trim=4 if q else 5, seen=seen):
        M['full'] = 2 if q else 3
        yield k, M
