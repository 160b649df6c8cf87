"""C11: beams and tuplets"""
import re
from facts import facts
import routes
import score as S
from explore import Prune
from featlib import *   # pylint: disable=wildcard-import,unused-wildcard-import
import featlib as F

PROP = 'C11'
BOUND = {'quick': 'every score with at most 1 deviation from the base scores over the full vocabulary (all 13 routes), at '
                  'most 2 over twelve options per choice (imports, exports, chains)',
         'thorough': 'at most 2 deviations over the full vocabulary (all routes), at most 3 over four options per choice'}
ASSUME = ['the direction of a partial beam inside a beam group follows from its neighbours and is not compared',
          'Humdrum has no tuplet brackets: the extent of a tuplet is compared for Humdrum where it is the smallest complete group']
CATS = ['core', 'beams', 'tuplets']
FLAGS = {'8': 1, '16': 2, '32': 3, '64': 4, '128': 5}


def parse(p):
    """a pattern: words 'dur[.][r|c|q][/a:n]', '(' ... ')' beam, '|n' secondary break keeping n beams, '<' '>' tuplet"""
    ev, groups, breaks = [], [], {}
    cur = None
    tup = None
    gid = 0
    for w in p.split():
        if w == '(':
            cur = []
        elif w == ')':
            groups.append(cur)
            cur = None
        elif w[0] == '|':
            breaks[cur[-1]] = int(w[1:])
        elif w[0] == '<':
            a, n = w[1:].split(':')
            gid += 1
            tup = [int(a), int(n), gid]
        elif w == '>':
            tup = None
        else:
            m = re.match(r'^(\d+)(\.*)([rcqs]*)$', w)
            d, dots, k = m.group(1), len(m.group(2)), m.group(3)
            e = {'d': d, 'dots': dots, 'k': k, 'tup': None if 'q' in k else tup}
            if cur is not None and not k.startswith('r'):
                cur.append(len(ev))
            ev.append(e)
    return ev, groups, breaks


ONE = ['( 8 8 )', '8 8', '( 16 16 16 16 )', '( 16 16 8 )', '( 8 16 16 )', '( 16 8 16 )', '( 8. 16 )', '( 16 8. )', '4',
       '( 16 16 |1 16 16 )', '( 32 32 32 32 32 32 32 32 )', '( 32 32 32 32 |1 32 32 32 32 )', '( 32 32 32 32 |2 32 32 32 32 )',
       '( 16 16 ) ( 16 16 )', '( 16 16 ) 8', '8 ( 16 16 )', '16 16 8', '( 8.. 32 )', '( 32 16. 8 )', '( 8 32 32 32 32 )', '( 8 16. 32 )',
       '( 16 32 32 8 )', '( 64 64 32 16 8 )', '( 8c 8c )', '( 8 16r 16 )', '( 16 16r 8 )', '( 16 16r 16r 16 )', '8r 8', '8 8r',
       '( 8 16q 8 )', '8q 4', '( 16q 16q ) 4', '( 8q 8q ) ( 8 8 )', '( 16q 16q 16q ) ( 16 16 16 16 )', '( 32q 32q ) 8 8', '( 8q 16q 16q ) 4',
       '<3:2 ( 8 8 8 ) >', '<3:2 8 8 8 >', '<3:2 4 8 >', '<3:2 8 4 >', '<6:4 ( 16 16 16 16 16 16 ) >', '<5:4 ( 16 16 16 16 16 ) >',
       '<7:4 ( 16 16 16 16 16 16 16 ) >', '<3:2 ( 8. 16 8 ) >', '<3:2 8r ( 8 8 ) >', '<3:2 ( 8 8r 8 ) >', '<3:2 ( 16 16 8 8 ) >',
       '<3:2 ( 16 16 16 ) > 8', '8 <3:2 ( 16 16 16 ) >', '( 8 <3:2 16 16 16 > )', '( <3:2 16 16 16 > 8 )', '( <3:2 16 16 16 > <3:2 16 16 16 > )',
       '( <3:2 16 16 16 > |1 <3:2 16 16 16 > )', '<3:2 ( 16 16 16 ) > <3:2 ( 16 16 16 ) >', '<3:2 ( 8 8q 8 8 ) >', '<3:2 8 8q 8 8 >', '<3:2 ( 8c 8 8 ) >', '<9:8 ( 32 32 32 32 32 32 32 32 32 ) >']
TWO = ['( 8 8 ) ( 8 8 )', '( 8 8 8 8 )', '2', '( 16 16 16 16 |1 16 16 16 16 )', '( 16 16 16 16 16 16 16 16 )', '8 4 8', '4. 8', '( 8 8 ) 4',
       '( 8. 16 8. 16 )', '( 8. 16 |1 16 8. )', '<3:2 4 4 4 >', '<3:2 2 4 >', '<3:2 4 2 >', '<3:2 4. 8 4 >', '<3:2 4 ( 8 8 ) 4 >', '<5:4 ( 8 8 8 8 8 ) >', '<6:4 ( 8 8 8 8 8 8 ) >',
       '<3:2 ( 8 8 8 ) > <3:2 ( 8 8 8 ) >', '( <3:2 8 8 8 > <3:2 8 8 8 > )', '( <3:2 8 8 8 > 8 8 )', '( 8 8 <3:2 8 8 8 > )',
       '<3:2 4 8 > <3:2 8 4 >', '<7:4 ( 8 8 8 8 8 8 8 ) >', '<5:4 4 ( 8 8 8 ) >', '<3:2 4r 4 4 >', '<3:2 4 4r 4 >', '<3:2 4 4 4r >',
       '( 16 16 16 16 |1 8 16 16 )', '( 8 8 |1 16 16 16 16 )', '<6:4 ( 16 16 16 16 16 16 ) > 4', '<6:4 ( 16 16 16 |1 16 16 16 ) > 4', '( 32 32 32 32 |1 16 16 16 16 |1 16 16 )']
CROSS = [None, 'xbar', 'xbar16']


def mk(pat, pitch0):
    ev, groups, breaks = parse(pat)
    out = []
    for i, e in enumerate(ev):
        p = F.SCALE[(pitch0 + i) % 7] + '5'
        kw = {'tup': e['tup']} if e['tup'] else {}
        if 'r' in e['k']:
            out.append(R(e['d'], e['dots'], **kw))
        elif 'c' in e['k']:
            out.append(Ch(e['d'], ['C4', 'E4'], e['dots'], **kw))
        elif 'q' in e['k']:
            out.append(N(e['d'], p, e['dots'], g='q'))
        else:
            out.append(N(e['d'], p, e['dots'], **kw))
    return out, groups, breaks


def decorate(seq):
    """seq: [(event, group id or None, break)] of one voice; sets mbeam, kbeam, mb, breaksec"""
    by = {}
    for e, g, br in seq:
        if g is not None:
            by.setdefault(g, []).append((e, br))
    for g, mem in by.items():
        grace = all(e.get('g') for e, br in mem)
        mem = [(e, br) for e, br in mem if bool(e.get('g')) == grace and e['k'] in 'nc']
        n = [FLAGS[e['d']] for e, br in mem]
        for i, (e, br) in enumerate(mem):
            bl, k = [], ''
            for lev in range(1, n[i] + 1):
                def join(a, b):
                    if n[a] < lev or n[b] < lev:
                        return False
                    x = mem[a][1]
                    return x is None or lev <= x
                prev = i > 0 and join(i - 1, i)
                nxt = i < len(mem) - 1 and join(i, i + 1)
                if prev and nxt:
                    bl.append(['continue', None])
                elif prev:
                    bl.append(['stop', None])
                    k += 'J'
                elif nxt:
                    bl.append(['start', None])
                    k += 'L'
                else:
                    d = 'right' if i == 0 else 'left' if i == len(mem) - 1 else 'mid'
                    bl.append(['partial', d if d != 'mid' else 'left'])
                    k += 'K' if d == 'right' else 'k'
            e['mbeam'], e['kbeam'] = bl, k
            if br is not None:
                e['breaksec'] = br
        mem[0][0]['mb'] = 'start'
        mem[-1][0]['mb'] = 'stop' if len(mem) > 1 else 'both'


def voice(M, c, tag, L, pats=None):
    """L quarters: 1 + 2 + 1"""
    out, seq = [], []
    gid = 0
    for q, (n, opts) in enumerate([(1, ONE), (2, TWO), (1, ONE)][:{4: 3, 3: 2}[L]]):
        d = {0: opts[0], 1: TWO[0], 2: ONE[2]}[q] if pats is None else pats[q]
        pat = c.choose(f'{tag}.{q}', [d] + [x for x in opts if x != d]) if pats is None else pats[q]
        M['nohum'] = M['nohum'] or pat in NOHUM
        ev, groups, breaks = mk(pat, 2 * q)
        off = len(out)
        member = {}
        for g in groups:
            for i in g:
                member[i] = gid
            gid += 1
        for i, e in enumerate(ev):
            if e.get('tup'):
                e['tup'] = e['tup'][:2] + [f'{tag}{q}{e["tup"][2]}']
            out.append(e)
            seq.append((e, member.get(i), breaks.get(i)))
    return out, seq


def driver(c):
    ns, parts = c.choose('struct', STRUCTS)
    M = S.base(ns, 2, '4/4', parts)
    F.fillall(M, 1)
    M['nohum'] = M['finding'] = False
    cross = c.choose('cross', CROSS)
    out, seq = voice(M, c, 'a', 4)
    out2, seq2 = voice(M, c, 'b', 4) if c.flag('second') else (F.notes(0, 1, 0, 4, 1), None)
    M['v'][0][0][0], M['v'][0][1][0] = out, out2
    if cross:
        M['nohum'] = True
        if seq2 is not None:
            raise Prune()
        d = '8' if cross == 'xbar' else '16'
        a, b = ([N(d, 'C5'), N(d, 'D5')] if d == '8' else [N(d, x) for x in ('C5', 'D5', 'E5', 'F5')] for _ in range(2))
        M['v'][0][0][0] = F.notes(0, 0, 0, 3, 1) + a
        M['v'][0][1][0] = b + F.notes(0, 1, 0, 3, 1)
        seq = [(e, 0, None) for e in a + b]
        decorate(seq)
        M['beamspan'] = [[0, 0, 0, 3 + i] for i in range(len(a))] + [[0, 1, 0, i] for i in range(len(b))]
        for e in a + b:
            e.pop('mb', None)
        seq = None
    for x in (seq, seq2):
        if x:
            decorate(x)
    two = c.choose('two', [None] + [x for x in ONE if 'q' not in x][:24:3] + ['<3:2 ( 8 8 8 ) >', '<5:4 ( 16 16 16 16 16 ) >'])
    if two:
        if cross:
            raise Prune()    # which of several voices goes on after the barline is not given
        o, sq = voice(M, c, 'v', 4, ['4', '4 4', two])
        decorate(sq)
        for e in o:
            if e['k'] in 'n':
                e['p'] = [e['p'][0].replace('5', '4')]
        M['v'][0][0].append(o)
    oth = c.choose('other', [None, '( 16 16 16 16 )', '<3:2 ( 8 8 8 ) >', '( 8. 16 )'])
    if oth:
        if ns < 2:
            raise Prune()
        o, sq = voice(M, c, 'o', 4, [oth, '2', oth])
        decorate(sq)
        M['v'][1][0] = [o]
    mo = c.choose('m.opt', [None, 'tupin', 'tupspan', 'tupattr', 'beamspan', 'nonumbase'])
    if mo:
        M.setdefault('meiopt', {})['bt'] = mo
    ko = c.choose('k.opt', [None, 'nopartial', 'beamtup', 'Xtuplet'])
    if ko == 'nopartial':
        for s in range(ns):
            for m in range(2):
                for vv in M['v'][s][m]:
                    for e in vv:
                        if e.get('kbeam'):
                            e['kbeam'] = e['kbeam'].replace('k', '').replace('K', '')
    elif ko:
        M.setdefault('kopt', {})['btinterp'] = {'beamtup': '*Xbeamtup', 'Xtuplet': '*Xtuplet'}[ko]
    M['tuptypes'] = c.choose('b.tuptypes', [True, False])
    return M


NOHUM = ['( 8. 16 |1 16 8. )', '( <3:2 16 16 16 > <3:2 16 16 16 > )', '( <3:2 16 16 16 > |1 <3:2 16 16 16 > )', '<3:2 4 ( 8 8 ) 4 >',
         '( <3:2 8 8 8 > <3:2 8 8 8 > )']


def ok(r, M):
    return 'humdrum' not in r or M['finding'] or not M['nohum']


def norm(r, f, M):
    f = dict(f)
    f['beams'] = [re.sub(r'partial-(left|right)', 'partial', x) for x in f['beams']]
    if not M['tuptypes']:       # the score does not say where its tuplets start and end
        f['tuplets'] = [re.sub(r' (None|start|stop|startStop)$', '', x) for x in f['tuplets']]
    return f


def plan(M):
    return ALL if M['dev'] < M['full'] else IMPORTS + EXPORTS + CHAINS


def run(M):
    exp = facts(S.build(dict(M, tuptypes=True)), CATS)
    return routes.check_model(M, CATS, [r for r in plan(M) if ok(r, M)], expect=exp, norm=norm)


def traces_of(M):
    return len([r for r in plan(M) if ok(r, M)])


show = F.show


class Fixed:
    def __init__(self, **kw):
        self.kw = kw

    def choose(self, name, options, cost=1):
        return list(options)[0] if name not in self.kw else self.kw[name]

    def flag(self, name, cost=1):
        return False


def findings():
    for k, kw in (('xbar', {'cross': 'xbar'}), ('xbar16', {'cross': 'xbar16'}), ('twohooks', {'a.1': '( 8. 16 |1 16 8. )'})):
        M = driver(Fixed(**kw))
        M['finding'], M['dev'] = True, 2
        yield 'finding:' + k, M


def cases(tier, stats):
    full = 2 if tier == 'quick' else 3
    seen = set()
    spaces = [(driver, 1, None), (driver, 2, 12)] if tier == 'quick' else [(driver, 2, None), (driver, 3, 4)]
    for d, b, tr in spaces:
        for k, M in F.enum(stats, d, b, seen=seen, trim=tr):
            M['full'] = full
            yield k, M
    for k, M in findings():
        M['full'] = full
        stats.states += 1
        yield k, M
