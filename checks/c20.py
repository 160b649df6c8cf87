"""C20: staff grouping, names and part order"""
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F
import routes
from facts import facts

PROP = 'C20'
BOUND = {'quick': '15 layouts of 1-4 staves (flat, nested, multi-staff parts); at most 1 deviation over the full vocabulary of '
                  'symbols, barline settings, names, forms on 8 routes, at most 2 with three options per choice on exports and chains',
         'thorough': 'at most 2 deviations over the full vocabulary, at most 3 with four options per choice'}
ASSUME = ['Humdrum without a system decoration has default groups: none asserted', 'names of groups of several parts and the symbol "line" are not expressible in Humdrum: MEI routes only',
          'names that the exporters take for generated ones (Part_1, MusicXML Part) are not in the vocabulary',
          'groups of one staff only with a symbol']
CATS = ['core', 'pitches', 'groups', 'partkinds', 'names', 'abbrs', 'groupnames']
G = lambda *k: {'k': list(k)}   # noqa
LAYOUTS = [
    ('2', 2, [[0], [1]], G(0, 1)),
    ('1', 1, [[0]], None),
    ('2 none', 2, [[0], [1]], None),
    ('piano', 2, [[0, 1]], G(0, 1)),
    ('3', 3, [[0], [1], [2]], G(0, 1, 2)),
    ('3 none', 3, [[0], [1], [2]], None),
    ('voice+piano', 3, [[0], [1, 2]], G(0, G(1, 2))),
    ('piano+bass', 3, [[0, 1], [2]], G(G(0, 1), 2)),
    ('[01]2', 3, [[0], [1], [2]], G(G(0, 1), 2)),
    ('0[12]', 3, [[0], [1], [2]], G(0, G(1, 2))),
    ('[01][23]', 4, [[0], [1], [2], [3]], G(G(0, 1), G(2, 3))),
    ('[0[1[23]]]', 4, [[0], [1], [2], [3]], G(0, G(1, G(2, 3)))),
    ('[01]+piano', 4, [[0], [1], [2, 3]], G(G(0, 1), G(2, 3))),
    ('two pianos', 4, [[0, 1], [2, 3]], G(G(0, 1), G(2, 3))),
    ('0[12]3', 4, [[0], [1], [2], [3]], G(0, G(1, 2), 3)),
    ('4', 4, [[0], [1], [2], [3]], G(0, 1, 2, 3)),
    ('organ', 3, [[0, 1, 2]], G(0, 1, 2)),
]
NAMES = ['Violin', 'Flöte', 'A & B <x>', 'Horn in F', 'Some Thing', "Viola d'amore", 'Oboe 1', 'Soprano: solo', 'Clarinet in B♭', '1. Violine',
         'Vc., Cb.', 'Bass-Trombone', 'Voice', 'Canto (alto)']
ABBRS = ['Vl.', 'Fl', 'A&B', 'Hn.', 'x', 'V. d’a.', 'Ob. 1', 'S:', '1.V.']
MULTI = ['Piano', 'Harp', 'Organ', 'Klavier', 'Harpsichord', 'Celesta']
DEFAULT = ['Violin', 'Oboe', 'Cello', 'Bassoon']
SYMS = ['bracket', 'brace', 'square', None, 'line']


def driver(c):
    name, ns, parts, tree = c.choose('layout', LAYOUTS, 0)
    M = S.base(ns, 1, '4/4', parts)
    F.fillall(M, 1)
    M['clef'] = ['G2', 'F4', 'C3', 'G2'][:ns]
    tree = S.clone(tree)
    M['bopt'], M['mopt'], M['kopt'] = {}, {}, {}
    if tree is None:
        M['nogrp'] = True
    else:
        M['grp'] = tree
        for i, t in enumerate(S.grp_all(tree)):
            multi = any(len(p) > 1 and p == S.grp_staves(t) for p in parts)
            t['sym'] = c.choose(f'sym{i}', ['brace', 'bracket', 'square', None, 'line'] if multi else SYMS)
            t['bar'] = c.choose(f'bar{i}', [True, False, 'mensur'] if i or ns == 2 or len(S.grp_all(tree)) == 1 else [False, True, 'mensur'])
            if t['sym'] is None and not t['bar'] and not multi:
                t['plain'] = True
            if c.choose(f'gname{i}', [False, True]):
                if multi:
                    raise Prune()
                t['name'], t['abbr'] = 'Strings & Co', c.choose('gabbr', [None, 'Str.', 'S.&C.'])
            if c.choose(f'dup{i}', [False, True]):
                # a second group around the same staves
                if t['sym'] is None:
                    raise Prune()
                inner = dict(t)
                t.clear()
                t.update({'k': [inner], 'sym': 'bracket', 'bar': False, 'dup': True})
    if c.choose('solo', [False, True]):
        # a group of one staff
        if not tree:
            raise Prune()
        js = [j for j, x in enumerate(tree['k']) if isinstance(x, int) and [x] in parts]
        if not js:
            raise Prune()
        tree['k'][js[0]] = {'k': [tree['k'][js[0]]], 'sym': c.choose('solosym', ['bracket', 'brace', 'square']), 'bar': False}
    # names
    if c.choose('named', [True, False]):
        pn, pa = [], []
        for i, p in enumerate(parts):
            multi = len(p) > 1
            nm = c.choose(f'name{i}', MULTI if multi else [DEFAULT[i]] + NAMES + [None])
            ab = c.choose(f'abbr{i}', [None] + (['Pno.', 'P & F'] if multi else ABBRS) + ['same'])
            if ab == 'same':
                if nm is None:
                    raise Prune()
                ab = nm
            if nm is None and ab:
                raise Prune()
            pn.append(nm)
            pa.append(ab)
        if c.choose('equal', [False, True]):
            if any(len(p) > 1 for p in parts) or len(parts) < 2:
                raise Prune()
            pn[1] = pn[0]
        M['pname'], M['pabbr'] = pn, pa
    if tree and any(len(S.grp_staves(t)) == 2 and not any(M['pname'][i] for i, p in enumerate(parts) if p[0] in S.grp_staves(t))
                    for t in S.grp_all(tree) if M.get('pname')):
        M['ambiguous'] = True
    if not M.get('pname') and tree and any(not multi_ok(parts, S.grp_staves(t)) for t in S.grp_all(tree)):
        M['ambiguous'] = True       # unnamed staves in a group of two: MEI does not tell two parts from one of two staves
    if ns == 2 and not tree and not M.get('pname'):
        raise Prune()               # two staves without any name or grouping are taken for a piano
    if len(parts) == 1 and len(parts[0]) == 3 and not M.get('pname'):
        M['ambiguous'] = True
    M['mname'] = c.choose('mname', ['group', 'both', 'staff'])
    M['kopt']['names'] = c.choose('knames', ['low', 'high', 'all'])
    if (M['mname'] != 'group' or M['kopt']['names'] != 'low') and not (M.get('pname') and any(len(p) > 1 for p in parts)):
        raise Prune()
    M['kopt']['deco'] = c.choose('deco', [None, 'p', 'star'])
    M['kopt']['decoend'] = c.choose('decoend', [False, True])
    if c.choose('nodeco', [False, True]):
        M['kopt']['nodeco'] = True
    if not tree and (M['kopt']['deco'] or M['kopt']['decoend'] or M['kopt'].get('nodeco')):
        raise Prune()
    M['mopt']['labels'] = c.choose('labels', ['child', 'attr'])
    M['mopt']['nosym'] = c.choose('nosym', [None, 'none'])
    pm = c.choose('mperm', [None, 'rev', 'gap'])
    if pm == 'rev':
        M['mperm'] = list(range(ns, 0, -1))
    elif pm == 'gap':
        M['mperm'] = [3 * i + 2 for i in range(ns)]
    M['bopt']['bname'] = c.choose('bname', ['group', 'both', 'staff'])
    M['bopt']['how'] = c.choose('how', ['part', 'inst', 'meas', 'stream'])
    return M


def multi_ok(parts, st):
    return len(st) != 2 or any(p == st for p in parts)


def cases(tier, stats):
    seen = set()
    q = tier == 'quick'
    yield from F.enum(stats, driver, 1 if q else 2, seen=seen)
    yield from F.enum(stats, driver, 2 if q else 3, seen=seen, trim=3 if q else 4)


def plan(M):
    if M.get('dev', 0) < 1:
        return ALL
    if M.get('dev', 0) < 2:
        return IMPORTS + EXPORTS + CHAINS + ['humdrum-humdrum', 'mei-mei']
    return EXPORTS + CHAINS


def ok(r, M):
    gs = S.grp_all(M['grp']) if M.get('grp') else []
    if uses_kern(r) and any(t.get('sym') == 'line' or t.get('name') or t.get('bar') == 'mensur' for t in gs):
        return False
    if M.get('ambiguous') and uses_mei(r):
        return False
    return True


def cats(r, M):
    cs = list(CATS)
    if (M['kopt'].get('nodeco') and uses_kern_in(r)) or (M.get('nogrp') and uses_kern(r)):
        cs.remove('groups')
    return cs


def run(M):
    plain = dict(M, bopt={})
    rs = [r for r in plan(M) if ok(r, M)]
    disc, out = [], None
    for cs in sorted({tuple(cats(r, M)) for r in rs}):
        exp = facts(S.build(plain), cs)
        d, o = routes.check_model(M, list(cs), [r for r in rs if tuple(cats(r, M)) == cs], expect=exp, norm=norm)
        disc += d
        out = o if out is None else out
    return disc, out


def traces_of(M):
    return len([r for r in plan(M) if ok(r, M)])


def norm(r, f, M):
    # instrument classes of music21 have abbreviations of their own: only given abbreviations are compared
    pa = M.get('pabbr') or [None] * len(M['parts'])
    has = {s for i, p in enumerate(M['parts']) for s in p if pa[i]}
    if S.nstaves(M) == 1 and uses_kern(r):
        has = set()         # the Humdrum reader leaves out the abbreviation of the only staff
    f = dict(f)
    if 'abbrs' in f:
        f['abbrs'] = [x for x in f['abbrs'] if int(x.split()[0][1:]) in has]
    return f


show = F.show
