"""C14: tempo marks, text directions, rehearsal marks"""
import re
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F
import c13

PROP = 'C14'
BOUND = {'quick': 'every score with at most 1 deviation from the base scores over the full vocabulary (all 13 routes), at '
                  'most 2 over four options per choice (imports, exports, chains)',
         'thorough': 'at most 2 deviations over the full vocabulary (all routes), at most 3 over four options per choice'}
ASSUME = ['a tempo is compared by its displayed text (music symbols by name) and its speed in quarters per minute; the '
          'displayed "note = number" of a built mark is the same information as the speed',
          'Humdrum: one tempo per moment, in the top part; whole numbers of quarters per minute; texts without tabs',
          'placements are compared where they are given']
CATS = ['core', 'tempos', 'texts', 'textplace', 'rehs', 'rehplace', 'dynamics']
TEMPOTEXT = ['Andante', 'Allegro', 'Sehr langsam', 'Tempo I', 'Più mosso, ma non troppo', 'a tempo', 'rit.', 'Largo & dolce',
             'Poco: meno', 'Allegro (vivo)', 'q = 3', 'Presto!', 'animato', 'Ж']
NOTES = ['quarter', 'half', 'eighth', 'whole', '16th', 'half-dot', 'quarter-dot', 'eighth-dot', 'quarter-dot-dot', '32nd']
QL = {'quarter': 1, 'half': 2, 'eighth': Fraction(1, 2), 'whole': 4, '16th': Fraction(1, 4), '32nd': Fraction(1, 8)}
TEXTS = ['dolce', 'cresc.', 'pizz.', 'molto espressivo', 'a 2', 'con sord.', 'è più', 'a: b', 'a & b', '"so"', 'x < y', 'f', 'Solo',
         'ritardando molto', '1', '(ped.)', '[sic]', 'two\nlines', 'Ж', "l'istesso", 'a=b', '!', '*x', '100%', 'D.C. al Fine', 'tr', '^', '{x}',
         "don't", 'a/b', 'a|b', '#1', 'p dolce']
REHS = ['A', 'B', '1', '12', 'AA', 'Coda', 'A1', 'a b', 'A: b', 'Ж', 'B&C']


def ref_ql(n):
    base = QL[n.replace('-dot', '')]
    d = n.count('-dot')
    return base * (2 - Fraction(1, 2 ** d))


def place_of(c, M, s, q=0, only0=False):
    on, off = c13.times(M, s)
    if only0:
        on = [x for x in on if x[1] == 0]
        off = []
    d = on[min(q, len(on) - 1)]
    return c.choose(f'at{q}', [d] + [x for x in on + off if x != d])


def tempos(c):
    M = c13.stage(c)
    n = c.choose('n', [1, 2, 3])
    used = set()
    for q in range(n):
        m, t = place_of(c, M, 0, q)
        if (m, t) in used:
            raise Prune()
        used.add((m, t))
        form = c.choose(f'form{q}', ['both', 'text', 'num', 'note', 'textnote', 'paren', 'mm', 'noteonly'])
        x = {'m': m, 'off': str(t)}
        bpm = c.choose(f'bpm{q}', [[100, 60, 90][q], 40, 66, 72, 120, 132, 144, 200, 208, 59, 96])
        if form in ('both', 'text', 'textnote', 'paren', 'mm'):
            x['t'] = c.choose(f'text{q}', TEMPOTEXT[q:] + TEMPOTEXT[:q])
        if form in ('note', 'textnote', 'paren', 'mm', 'noteonly'):
            nt = c.choose(f'note{q}', NOTES)
            num = c.choose(f'num{q}', [bpm, 80, 52, 112, 48])
            bpm = num * ref_ql(nt)
            if bpm.denominator != 1 if isinstance(bpm, Fraction) else False:
                raise Prune()
            bpm = int(bpm)
            eq = f'[{nt}] = {num}'
            if form == 'paren':
                eq = f'({eq})'
            if form == 'mm':
                eq = 'M.M. ' + eq
            x['t'] = (x.get('t', '') + ' ' + eq).strip()
        if form != 'text':
            x['bpm'] = bpm
        noteish = form in ('note', 'textnote', 'paren', 'mm', 'noteonly')
        if form == 'num':
            ks = ['mm']
        else:
            ks = ['omd'] + (['omdmm', 'lotempo'] if x.get('bpm') else []) + (['gtx'] if (m, t) == (0, 0) else []) \
                + (['lotx', 'gtempo'] if noteish else []) + (['mmname'] if form == 'text' else [])
            if form == 'text' and t > 0:
                ks = ['mmname']
        x['k'] = c.choose(f'k{q}', ks)
        if noteish and c.flag(f'nomm{q}'):
            if x['k'] in ('omdmm', 'lotempo') or (x['k'] == 'omd' and t > 0):
                raise Prune()
            x['nomm'] = True
        if x.get('bpm') and c.flag(f'mmtop{q}'):
            x['mmtop'] = True
        if form == 'num' and c.flag(f'kdec{q}'):
            x['kmm'] = f'{x["bpm"]}.{c.choose(f"dec{q}", ["0", "4"])}'
        x['mids'] = c.choose(f'mids{q}', [None, 'ids', 'nostaff'])
        if x['mids'] == 'ids' and form == 'num':
            raise Prune()
        x['mt'] = c.choose(f'mt{q}', [None, 'rend', 'ws'] + (['plain', 'symbol'] if noteish else []))
        if x.get('bpm') and c.flag(f'mdec{q}'):
            x['mmm'] = f'{x["bpm"]}.0000'
        x['b'] = c.choose(f'b{q}', {'text': ['text', None], 'both': [None, 'explicit', 'mod'], 'num': [None, 'explicit', 'mod']}.get(form, [None]))
        if x['b'] == 'explicit':
            r = c.choose(f'ref{q}', [None, ['half', 0], ['quarter', 1], ['eighth', 0], ['half', 1], ['whole', 0], ['16th', 0], ['eighth', 1]])
            if r:
                x['ref'] = r
                ql = Fraction(m21ql(r))
                if (Fraction(bpm) / ql).denominator != 1:
                    raise Prune()
        if x['k'] == 'lotempo' or x['k'] == 'lotx':
            x['place'] = c.choose(f'place{q}', [None, 'above', 'below'])
        M['tempo'].append(x)
    k = c.choose('with', [None, 'text', 'reh', 'dyn', 'textother'])
    if k == 'text':
        M['text'].append({'s': 0, 'm': 0, 'off': '0', 't': 'dolce', 'place': 'below'})
    elif k == 'textother':
        M['text'].append({'s': S.nstaves(M) - 1, 'm': len(M['meas']) - 1, 'off': '0', 't': 'dolce', 'place': 'below'})
    elif k == 'reh':
        M['reh'].append({'m': 0, 'off': '0', 't': 'A'})
    elif k == 'dyn':
        M['dyn'].append({'s': 0, 'm': 0, 'off': '0', 't': 'p'})
    if c.flag('title'):
        M['refs_before'] = ['!!!OTL: Title']
    return M


def m21ql(r):
    return {'whole': 4, 'half': 2, 'quarter': 1, 'eighth': Fraction(1, 2), '16th': Fraction(1, 4)}[r[0]] * (2 - Fraction(1, 2 ** r[1]))


def texts(c):
    M = c13.stage(c)
    ns = S.nstaves(M)
    n = c.choose('n', [1, 2, 'same'])
    for q in range(n if isinstance(n, int) else 2):
        s = c.choose(f'staff{q}', list(range(ns)))
        m, t = place_of(c, M, s, q if isinstance(n, int) else 0)
        x = {'s': s, 'm': m, 'off': str(t), 't': c.choose(f'text{q}', TEXTS[q:] + TEXTS[:q])}
        pl = c.choose(f'place{q}', ['above', 'below', None])
        if pl:
            x['place'] = pl
        st = c.choose(f'style{q}', ['', 'italic', 'bold', 'bolditalic'])
        x['style'] = st
        if st == 'bolditalic':
            x['kst'] = c.choose(f'kst{q}', [':Bi', ':bi', ':ib', ':iB', ':B:i'])
        if c.flag(f'korder{q}'):
            x['korder'] = True
        if S.nvoices(M, s, m) > 1 and c.flag(f'voice{q}'):
            x['v'] = 1
        if c.flag(f'kglobal{q}'):
            # a global text belongs to the top staff (above) or the bottom staff (below)
            if s != (0 if pl != 'below' else ns - 1) or (m, t) not in c13.times(M, s)[0]:
                raise Prune()
            x['kglobal'] = True
        x['mids'] = c.choose(f'mids{q}', [None, 'ids', 'nostaff'])
        if x['mids'] == 'nostaff' and s:
            raise Prune()
        mx = c.choose(f'mx{q}', [None, '\n    %s\n   ', '<rend fontfam="Times">%s</rend>', '<rend halign="center">%s</rend>', '<rend color="red">%s</rend>'])
        if mx:
            x['mx'] = mx
        M['text'].append(x)
    ks = [(y['s'], y['m'], y['off'], y['t']) for y in M['text']]
    if len(ks) != len(set(ks)):
        raise Prune()
    k = c.choose('with', [None, 'tempo', 'reh', 'dyn', 'lyric'])
    if k == 'tempo':
        M['tempo'].append({'m': 0, 'off': '0', 't': 'Allegro', 'bpm': 100, 'k': 'omd'})
    elif k == 'reh':
        M['reh'].append({'m': 0, 'off': '0', 't': 'A'})
    elif k == 'dyn':
        M['dyn'].append({'s': 0, 'm': 0, 'off': '0', 't': 'p'})
    elif k == 'lyric':
        S.events(M, 0, 0, 0)[-1][2]['lyr'] = [[1, 'la', 'single']]
    return M


def rehs(c):
    M = c13.stage(c)
    ns = S.nstaves(M)
    n = c.choose('n', [1, 2, 3, 'same'])
    for q in range(n if isinstance(n, int) else 2):
        s = c.choose(f'staff{q}', list(range(ns)))
        on = [(m, Fraction(0)) for m in range(len(M['meas']))] + [(0, Fraction(1)), (0, Fraction(1, 2)), (1, Fraction(2))]
        on = [x for x in on if x[0] < len(M['meas'])]
        d = on[min(q, len(on) - 1) if isinstance(n, int) else 0]
        m, t = c.choose(f'at{q}', [d] + [x for x in on if x != d])
        x = {'m': m, 'off': str(t), 't': c.choose(f'text{q}', REHS[q:] + REHS[:q])}
        if s:
            x['s'] = s
        pl = c.choose(f'place{q}', [None, 'above', 'below'])
        if pl:
            x['place'] = pl
        kx = c.choose(f'kx{q}', ['', ':enc=box', ':enc=circle', ':B', ':fs=150%', ':color=red'])
        if kx:
            x['kx'] = kx
        x['mids'] = c.choose(f'mids{q}', [None, 'nostaff', 'nots'])
        if x['mids'] == 'nostaff' and s:
            raise Prune()
        mx = c.choose(f'mx{q}', [None, '\n    %s\n   ', '<rend rend="box">%s</rend>', '<rend fontweight="bold">%s</rend>'])
        if mx:
            x['mx'] = mx
        M['reh'].append(x)
    ks = [(y['m'], y['off'], y['t']) for y in M['reh']]
    if len(ks) != len(set(ks)):
        raise Prune()
    first = c.choose('firstbar', ['', 'none', 'pickup', '-'])
    if first in ('none', '-'):
        M.setdefault('kopt', {})['firstbar'] = first
    elif first == 'pickup':
        raise Prune()
    k = c.choose('with', [None, 'tempo', 'text', 'repeat', 'ts'])
    if k == 'tempo':
        M['tempo'].append({'m': 0, 'off': '0', 't': 'Allegro', 'bpm': 100, 'k': 'omd'})
    elif k == 'text':
        M['text'].append({'s': 0, 'm': 0, 'off': '0', 't': 'dolce', 'place': 'above'})
    elif k == 'repeat':
        M['meas'][-1]['right'] = 'end'
    elif k == 'ts':
        if len(M['meas']) < 2 or M['meas'][0]['ts'] != '4/4':
            raise Prune()
        M['meas'][1]['ts'] = '2/2'
    return M


def vague(M, m, t):
    ts = {x for s in range(S.nstaves(M)) for v in range(S.nvoices(M, s, m)) for x, g, e in S.events(M, s, m, v)}
    t = Fraction(t)
    if t in ts:
        return False
    if t > max(ts):
        return True
    a, b = max(x for x in ts if x < t), min(x for x in ts if x > t)
    rows = sorted({Fraction(y['off']) for y in M['text'] + M['tempo'] if y['m'] == m and a < Fraction(y['off']) < b})
    return t != a + (b - a) * (rows.index(t) + 1) / (len(rows) + 1)


def ok(r, M):
    if uses_kern(r):
        if r.startswith('humdrum-') and 'export' not in r:
            if any(vague(M, x['m'], x['off']) for x in M['text'] + M['tempo']):
                return False
            if any(x['m'] == 0 for x in M['reh']) and M.get('kopt', {}).get('firstbar') == 'none':
                return False
    return True


def norm(r, f, M):
    f = dict(f)
    byplace = {f's0m{x["m"]}@{Fraction(x["off"])} ': x for x in M['tempo']}
    out = []
    for y in f['tempos']:
        i = y.index(' tempo ')
        x = byplace.get(y[:i] + ' ')
        if x:
            k = re.match(r'(.*) tempo (.*) bpm=(.*)$', y)
            txt, bpm = k.group(2), k.group(3)
            if x.get('b') == 'explicit':
                # the number of an explicit mark is displayed: fine if it says the same
                z = re.match(r"^'(.*?) ?\[([a-z0-9-]+)\] = (\d+)'$", txt)
                if z and int(z.group(3)) * ref_ql(z.group(2)) == x['bpm']:
                    txt = repr(z.group(1)) if z.group(1) else 'None'
            if not x.get('bpm'):
                bpm = '-'
            y = f'{k.group(1)} tempo {txt} bpm={bpm}'
        out.append(y)
    f['tempos'] = sorted(out)
    given = [f's{d["s"]}m{d["m"]}@{Fraction(d["off"])} text {d["t"]!r} ' for d in M['text'] if d.get('place')]
    f['textplace'] = [x for x in f['textplace'] if any(x.startswith(g) for g in given)]
    given = [f's{d.get("s", 0)}m{d["m"]}@{Fraction(d["off"])} reh {d["t"]!r} ' for d in M['reh'] if d.get('place')]
    f['rehplace'] = [x for x in f['rehplace'] if any(x.startswith(g) for g in given)]
    return f


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS + CHAINS


run, traces_of = F.make(CATS, plan, norm=norm, ok=ok)
show = F.show


def tag(M):
    if any(not x.get('bpm') and Fraction(x['off']) > 0 for x in M['tempo']):
        return ',numberless-inside'
    return ''


def cases(tier, stats):
    full = 2 if tier == 'quick' else 3
    seen = set()
    b = [(1, None), (2, 4)] if tier == 'quick' else [(2, None), (3, 4)]
    for d in (tempos, texts, rehs):
        for bound, tr in b:
            for k, M in F.enum(stats, d, bound, tag=f'{d.__name__}{tr or ""}', seen=seen, trim=tr):
                M['full'] = full
                yield k + tag(M), M
