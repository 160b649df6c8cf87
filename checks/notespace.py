"""The space of small scores used by the note-content checks (C04-C07, C25)."""
import re
import score as S
from score import N, R, Ch
from explore import Explorer, Prune

# rhythm patterns by measure length (quarters); token: type[.]*[tA:N]
RHY = {
    4: ['4 4 4 4', '1', '2 2', '2. 4', '4. 8 2', '8 8 4 2', '2.. 8', '8. 16 4 2', '16 16 8 4 2', '4 2 4',
        '8t3:2 8t3:2 8t3:2 4 2', '4t3:2 4t3:2 4t3:2 2', '4t3:2 8t3:2 2.', '8t3:2 4t3:2 2.',
        '16t5:4 16t5:4 16t5:4 16t5:4 16t5:4 4 2', '16t6:4 16t6:4 16t6:4 16t6:4 16t6:4 16t6:4 2.',
        '16t7:4 16t7:4 16t7:4 16t7:4 16t7:4 16t7:4 16t7:4 2.', '2t3:2 2t3:2 2t3:2', '32 32 16 8 4 2',
        '64 64 32 16 8 4 2', '8 4 4 4 8', '8 4. 2', '4.. 16 2', '8.. 32 4 2',
        '8.t3:2 16t3:2 8t3:2 2.', '8t3:2,a 8t3:2,a 8t3:2,a 8t3:2,b 8t3:2,b 8t3:2,b 2',
        '16t3:2 16t3:2 16t3:2 8 2.', '1. -', '128 128 64 32 16 8 4 2'],
    3: ['4 4 4', '2.', '2 4', '4 2', '8 8 8 8 8 8', '4. 4.', '8t3:2 8t3:2 8t3:2 4 4', '4t3:2 4t3:2 4t3:2 4',
        '8t2:3 8t2:3 4.', '4. 8 4', '16 8. 2', '8t4:3 8t4:3 8t4:3 8t4:3 4.'],
    2: ['4 4', '2', '4. 8', '8 8 8 8', '8t3:2 8t3:2 8t3:2 4', '8 4 8', '4t3:2 4t3:2 4t3:2'],
    8: ['1 1', '0', '1. 2', '2 2 2 2'],
    16: ['00', '0 0', '0. 1'],
}


def parse_rhythm(txt):
    out = []
    for tok in txt.split():
        if tok == '-':
            raise Prune()
        m = re.match(r'^(\d+)(\.*)(?:t(\d+):(\d+)(?:,(\w))?)?$', tok)
        d, dots, a, n, gid = m.groups()
        tup = [int(a), int(n)] if a else None
        if gid:
            tup.append(gid)
        out.append(dict(d=d, dots=len(dots), tup=tup))
    return out


SCALE = ['C', 'D', 'E', 'F', 'G', 'A', 'B']


def pitch_for(s, m, v, j):
    base_oct = 5 - s - (1 if v == 1 else 2 if v == 2 else 0)
    i = j + 2 * m
    return SCALE[i % 7] + str(max(1, base_oct + (i // 7)))


PITCHES = [None, 'F#4', 'B-3', 'C##5', 'E--4', 'C1', 'B7', 'C4', 'B3', 'A0', 'G9']
STRUCT = [(1, [[0]]), (2, [[0], [1]]), (2, [[0, 1]]), (3, [[0], [1, 2]]), (3, [[0, 1], [2]])]
STRUCT_A = STRUCT[1]
STRUCT_B = STRUCT[2]
METERS = ['4/4', '3/4', '2/4', '4/2', '6/8', '2/2', '8/2']


class Based:
    """chooser whose defaults come from a template"""

    def __init__(self, c, tmpl):
        self.c, self.t = c, tmpl

    def choose(self, name, options, cost=1):
        options = list(options)
        if name == 'meter':      # the patterns of the template fit its meter only
            return self.t.get('meter', '4/4')
        if name in self.t:
            d = self.t[name]
            options = [d] + [o for o in options if o != d]
        return self.c.choose(name, options, cost)

    def flag(self, name, cost=1):
        return self.choose(name, (False, True), cost)


# rich starting scores: deviations from these reach higher-order combinations
RICH = [
    {'parts': STRUCT_A, 'nmeas': 2, 'voices0.0': 2, 'rhythm0.0.0': '8t3:2 8t3:2 8t3:2 4 2', 'rhythm0.0.1': '2. 4',
     'kind0.0.0.1': 'c', 'kind0.0.1.0': 's', 'grace0.0.0.3': 'q', 'rhythm1.0.0': '4. 8 2', 'kind1.0.0.1': 'r',
     'voices1.1': 2, 'rhythm1.1.1': '8 4. 2', 'kind1.1.1.2': 's', 'rhythm0.1.0': '16 16 8 4 2', 'grace1.1.0.0': 'qq qq',
     'kind0.1.0.3': 'c', 'pitch0.1.0.1': 'F#4'},
    {'parts': STRUCT_B, 'nmeas': 2, 'meter': '3/4', 'voices0.0': 3, 'rhythm0.0.0': '2.', 'rhythm0.0.1': '8 8 8 8 8 8',
     'rhythm0.0.2': '4 2', 'kind0.0.1.2': 'r', 'kind0.0.2.0': 's', 'voices1.0': 2, 'rhythm1.0.0': '8t3:2 8t3:2 8t3:2 4 4',
     'rhythm1.0.1': '4 4 4', 'kind1.0.0.1': 'r', 'grace1.0.1.2': 'c', 'rhythm0.1.0': '4t3:2 4t3:2 4t3:2 4',
     'voices1.1': 2, 'kind1.1.0.0': 'c', 'kind1.1.1.1': 's', 'graceafter0.1.0': True},
]


def driver(c, opt):
    """opt: dict with limits: pitches, graces, rhy, kern (bool), mei (bool), structs"""
    if opt.get('rich') is not None:
        c = Based(c, RICH[opt['rich']])
    ns, parts = c.choose('parts', STRUCT[:opt.get('structs', 5)])
    nm = c.choose('nmeas', opt.get('nmeas', [2, 1, 3]))
    ts = c.choose('meter', METERS[:opt.get('meters', 7)])
    M = S.base(ns, nm, ts, parts)
    L = int(S.tslen(ts))
    pats = RHY[L]
    if opt.get('kernsafe'):
        # a 4:3 quadruplet and a 2:3 duplet of the next shorter value are the same Humdrum rhythm
        pats = [x for x in pats if 't4:3' not in x]
    for s in range(ns):
        for m in range(nm):
            nv = c.choose(f'voices{s}.{m}', [1, 2, 3][:opt.get('voices', 3)])
            M['v'][s][m] = []
            for v in range(nv):
                pat = c.choose(f'rhythm{s}.{m}.{v}', pats[:opt.get('rhy', 99)])
                evs = []
                for j, d in enumerate(parse_rhythm(pat)):
                    kinds = ['n', 'r', 'c', 's'] if j or v else ['n', 'r', 'c', 's']
                    k = c.choose(f'kind{s}.{m}.{v}.{j}', kinds)
                    p = pitch_for(s, m, v, j)
                    if k == 'n':
                        alt = c.choose(f'pitch{s}.{m}.{v}.{j}', PITCHES[:opt.get('pitches', 11)])
                        e = N(d['d'], alt or p, d['dots'], tup=d['tup'])
                    elif k == 'c':
                        step = SCALE.index(p[0])
                        p2 = SCALE[(step + 2) % 7] + str(int(p[-1]) + (1 if step + 2 >= 7 else 0))
                        acc = c.choose(f'chacc{s}.{m}.{v}.{j}', ['', '#', 'unison', 'three'])
                        if acc == 'unison':
                            ps = [p, p[0] + '#' + p[-1]]
                        elif acc == 'three':
                            ps = [p, p2[0] + '-' + p2[-1], p2[0] + str(int(p2[-1]) + 1)]
                        else:
                            ps = [p, p2[0] + acc + p2[-1]]
                        e = Ch(d['d'], ps, d['dots'], tup=d['tup'])
                    else:
                        e = R(d['d'], d['dots'], tup=d['tup'])
                        e['k'] = k
                    if opt.get('graces', 1):
                        g = c.choose(f'grace{s}.{m}.{v}.{j}', ['', 'q', 'qq', 'q q', 'qq qq', 'c', 'q4', 'q qq q', 'q q q', 'qc qc']
                                     + (['qq:plain', 'q:steal', 'qq:steal'] if opt.get('export') else []))
                        if g == 'c':
                            evs.append(Ch('8', ['D5', 'F5'], g='q'))
                        elif g == 'qc qc':
                            evs.append(Ch('16', ['D5', 'F5'], g='qq'))
                            evs.append(Ch('16', ['E5', 'G5'], g='qq'))
                        elif ':' in g:
                            evs.append(N('16', 'D5', g=g.split(':')[0], gm=g.split(':')[1]))
                        elif g == 'q4':
                            evs.append(N('4', 'D5', g='q'))
                        elif g:
                            for gi, gg in enumerate(g.split()):
                                evs.append(N('8' if gg == 'q' else '16', SCALE[3 + gi] + '5', g=gg))
                    evs.append(e)
                if opt.get('graces', 1) and c.flag(f'graceafter{s}.{m}.{v}'):
                    evs.append(N('8', 'D5', g='q'))
                M['v'][s][m].append(evs)
            # something visible in the measure's first voice unless there is just one voice
            for v in range(nv):
                if all(e['k'] == 's' for e in M['v'][s][m][v]):
                    raise Prune()
    if opt.get('kern'):
        ko = {}
        ko['comments'] = c.choose('comments', [None, 'global', 'local', 'empty', 'nullinterp', 'ref', 'nullrow'])
        ko['split'] = c.choose('split', [None, 'keep', 'mid'])
        ko['firstbar'] = c.choose('firstbar', [None, '-', 'none'])
        ko['order'] = c.choose('order', [None, 'glast', 'nat', 'pitchfirst'])
        ko['extra'] = c.choose('extra', [None, ['foo', 'left'], ['foo', 'right'], ['foo', 'mid'], ['text', 'right']])
        ko['nostaff'] = c.flag('nostaff') if all(len(p) == 1 for p in parts) else False
        M['kopt'] = {k: v for k, v in ko.items() if v}
    if opt.get('mei'):
        mo = {}
        mo['accid'] = c.choose('m.accid', [None, 'accid', 'child', 'childges'])
        mo['dots'] = c.choose('m.dots', [None, 'child'])
        mo['sig'] = c.choose('m.sig', [None, 'attr'])
        mo['mrest'] = c.choose('m.mrest', [None, 'yes'])
        mo['slash'] = c.choose('m.slash', [None, 'yes'])
        M['meiopt'] = {k: v for k, v in mo.items() if v}
        w = c.choose('m.wrap', [None] + WRAPS)
        if w:
            j = c.choose('m.wrapat', [0, 1, 2], cost=0)
            if j >= len(M['v'][0][0][0]):
                raise Prune()
            M['meiwrap'] = {'ref': [0, 0, 0, j], 'tag': w}
    return M


WRAPS = ['add', 'corr', 'damage', 'expan', 'orig', 'reg', 'sic', 'subst', 'supplied', 'unclear', 'app', 'apprdg',
         'choice', 'choice2', 'twice']


def cases(stats, bound, opt, seen=None):
    seen = seen if seen is not None else set()
    s0, t0 = stats.states, stats.transitions
    ex = Explorer(lambda c: driver(c, opt), bound)
    for M, trace, dev in ex.run():
        k = S.dumps(M)
        if k in seen:
            continue
        seen.add(k)
        key = (f'rich{opt["rich"]}:' if opt.get('rich') is not None else '') + (
            ','.join(f'{n}={i}' for n, i in trace) or 'default')
        M['dev'] = dev
        yield key, M
    stats.states, stats.transitions = ex.nodes + s0, ex.edges + t0
    stats.note.setdefault('spaces', []).append({'opt': {k: v for k, v in opt.items()}, 'bound': bound,
                                                'cases_by_deviation': dict(ex.by_dev), 'pruned': ex.pruned})
