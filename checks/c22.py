"""C22: the result of a conversion does not depend on earlier conversions.

Operations (parsing valid and invalid files, writing scores) are run one after the other in a process forked from a
pristine one; the result of every operation is compared with the result it has as the only operation of such a process.
"""
import contextlib
import hashlib
import io
import json
import os
import pickle
import sys
import itertools

import target
from target import m21
import score as S
import routes
import pool
import c21

PROP = 'C22'
CHUNK = 1
BOUND = {'quick': 'about 100 operations (parsing the feature scores in both formats, hand-written and broken files, writing with every '
                  'option, failing writes); all ordered pairs adjacent in one history; all histories of 3 of 10 operations',
         'thorough': 'about 250 operations, all ordered pairs; all histories of 3 of 16 and of 4 of 8 operations'}
ASSUME = ['each file is read with a HumdrumFile, MeiReader or converter of its own']

HAND = {
    'rdf above': '**kern\n*M4/4\n4c^\n4d@\n2eN\n*-\n!!!RDF**kern: N = marked note\n!!!RDF**kern: @ = marked note, color=red\n',
    'rdf ed': '**kern\n*M4/4\n4c#i\n4dnj\n2e-X\n*-\n!!!RDF**kern: i = editorial accidental\n!!!RDF**kern: j = editorial accidental (paren)\n',
    'no rdf': '**kern\n*M4/4\n4c#i\n4dnj\n2e-N\n*-\n',
    'slur below': '**kern\n*M4/4\n(<4c\n4d)\n2e>^\n*-\n!!!RDF**kern: < = below\n!!!RDF**kern: > = above\n',
    'deco': '!!!system-decoration: [s1,s2]\n**kern\t**kern\n*staff2\t*staff1\n*I"Cello\t*I"Violin\n*M4/4\t*M4/4\n1c\t1g\n*-\t*-\n',
    'meta': '!!!COM: Someone\n!!!OTL@@DE: Titel\n!!!ODT: 1800/1/2-1801\n**kern\n*M4/4\n1c\n*-\n!!!ZZZ: x\n',
    'two': '**kern\t**dynam\t**text\n*M3/4\t*\t*\n4c\tp\tla\n4d\t<\t.\n4e\t[\tlu\n=\t=\t=\n2.f\tf\ta-\n*-\t*-\t*-\n',
    'mens': '**mens\n*M4/4\nSc\nsd\n*-\n',
    'bad spines': '**kern\t**kern\n4c\n4d\t4e\n*-\t*-\n',
    'bad rhythm': '**kern\n*M4/4\n4c\n0z\nqq\n=\n4[[e\n*-\n',
    'not humdrum': 'hello\nworld\n',
    'empty': '',
    'only comment': '!! nothing\n',
    'unterminated': '**kern\n*M4/4\n4c\n',
    'split never joined': '**kern\n*M4/4\n*^\n4c\t4d\n*-\t*-\n',
    'surplus': '**kern\n*M4/4\n4c\t4d\n*-\n',
    'tremolo': '**kern\n*M4/4\n*tremolo\n16c@16@L\n16c\n16c\n16cJ\n2.d\n*-\n',
    'part': '**kern\t**kern\n*part1\t*part1\n*staff2\t*staff1\n*I"Piano\t*\n*M4/4\t*M4/4\n1C\t1g\n*-\t*-\n',
}
_HEAD = '<?xml version="1.0" encoding="UTF-8"?><mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0">'
HANDM = {
    'mei no music': _HEAD + '<meiHead/></mei>',
    'mei not xml': _HEAD + '<music>',
    'mei wrong root': '<foo/>',
    'mei no scoreDef': _HEAD + '<music><body><mdiv><score><section><measure n="1"><staff n="1"><layer n="1"><note dur="1" pname="c" oct="4"/>'
                               '</layer></staff></measure></section></score></mdiv></body></music></mei>',
    'mei bad dur': _HEAD + '<music><body><mdiv><score><scoreDef><staffGrp><staffDef n="1" lines="5"/></staffGrp></scoreDef><section>'
                           '<measure n="1"><staff n="1"><layer n="1"><note dur="x" pname="h" oct="q"/></layer></staff></measure></section>'
                           '</score></mdiv></body></music></mei>',
    'mei dangling': _HEAD + '<music><body><mdiv><score><scoreDef meter.count="4" meter.unit="4"><staffGrp><staffDef n="1" lines="5" clef.shape="G" clef.line="2"/>'
                            '</staffGrp></scoreDef><section><measure n="1"><staff n="1"><layer n="1"><note xml:id="a" dur="1" pname="c" oct="4"/></layer></staff>'
                            '<slur startid="#a" endid="#zz"/><tie startid="#a" endid="#b"/><hairpin form="cres" tstamp="1" tstamp2="5m+9" staff="1"/>'
                            '</measure></section></score></mdiv></body></music></mei>',
    'mei scoreDef only': _HEAD + '<music><body><mdiv><score><scoreDef><staffGrp/></scoreDef><section/></score></mdiv></body></music></mei>',
}


def parse_h(text, accept=False):
    return target.kern_to_m21(text, accept=accept)


def operations(n1, n2):
    ops = {}
    for k in HAND:
        ops['h:' + k] = ['h', HAND[k]]
    for k in ('bad spines', 'bad rhythm', 'surplus', 'unterminated', 'not humdrum'):
        ops['ha:' + k] = ['ha', HAND[k]]
    for k in HANDM:
        ops['m:' + k] = ['m', HANDM[k]]
    for k in ('metadata', 'marks', 'tremolo', 'voices', 'hidden', 'ottava', 'sounding', 'group', 'different', 'empty part', 'odd', 'note', 'unpitched'):
        for op in ('H', 'M'):
            ops[f'w{op}:{k}'] = ['w', k, op]
    for op in ('Hn', 'Mn', 'Hr', 'Ht', 'M4'):
        ops[f'w{op}:tremolo'] = ['w', 'tremolo', op]
        ops[f'w{op}:accidentals'] = ['w', 'accidentals', op]
    ops['wMn:note'] = ['w', 'note', 'Mn']
    for i, (k, M) in enumerate(pool.pool(n1, n2)):
        try:
            if i % 2:
                ops['h:' + k] = ['h', S.to_kern(M)]
                ops['mh:' + k] = ['mw', S.to_mei(M), 'H']
            else:
                ops['m:' + k] = ['m', S.to_mei(M)]
                ops['hm:' + k] = ['hw', S.to_kern(M), 'M']
        except Exception:   # pylint: disable=broad-except
            continue
    return ops


def perform(op):
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            if op[0] == 'h':
                return c21.fingerprint(parse_h(op[1]))
            if op[0] == 'ha':
                sc = parse_h(op[1], accept=True)
                return c21.fingerprint(sc) + [str(getattr(sc, 'c21_syntax_errors_fixed', None))]
            if op[0] == 'm':
                return c21.fingerprint(target.mei_to_m21(op[1]))
            if op[0] == 'w':
                return c21.write(c21.special()[op[1]](), op[2]).split('\n')
            if op[0] == 'hw':
                return c21.write(parse_h(op[1]), op[2]).split('\n')
            if op[0] == 'mw':
                return c21.write(target.mei_to_m21(op[1]), op[2]).split('\n')
    except Exception as e:   # pylint: disable=broad-except
        return ['exception ' + routes.short_exc(e)]
    raise ValueError(op[0])


def in_child(fn):
    """fn() in a forked process"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        except BaseException:   # pylint: disable=broad-except
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st:
        raise RuntimeError('child ended with status %d' % st)
    return pickle.loads(data)


_ref = {}


def ref(op):
    k = json.dumps(op)
    if k not in _ref:
        _ref[k] = in_child(lambda: perform(op))
    return _ref[k]


SMALL = ['h:rdf above', 'h:no rdf', 'h:rdf ed', 'ha:bad rhythm', 'h:deco', 'm:mei bad dur', 'm:mei dangling', 'wH:marks', 'wM:tremolo', 'wH:different',
         'wM:ottava', 'h:tremolo', 'ha:bad spines', 'wHr:accidentals', 'h:two', 'm:mei no scoreDef']


def cases(tier, stats):
    q = tier == 'quick'
    ops = operations(1 if q else 4, 0 if q else 4)
    names = list(ops)
    n = 0
    blocks = [names[i:i + 26] for i in range(0, len(names), 26)]
    for a in names:
        for b, block in enumerate(blocks):
            n += 2 * len(block)
            yield f'pairs/{a}/{b}', {'first': ops[a], 'others': [ops[x] for x in block], 'names': [a] + block}
    k3 = SMALL[:10] if q else SMALL
    for seq in itertools.product(k3, repeat=2):
        n += 3 * len(k3)
        yield f'triples/{"+".join(seq)}', {'prefix': [ops[x] for x in seq], 'last': [ops[x] for x in k3], 'names': list(seq) + k3}
    if not q:
        for seq in itertools.product(SMALL[:8], repeat=3):
            n += 4 * 8
            yield f'fours/{"+".join(seq)}', {'prefix': [ops[x] for x in seq], 'last': [ops[x] for x in SMALL[:8]], 'names': list(seq) + SMALL[:8]}
    stats.states = stats.transitions = n
    stats.note['operations'] = len(names)


def run(case):
    disc = []
    if 'first' in case:
        seq = []
        for o in case['others']:
            seq += [case['first'], o]
        seq.append(case['first'])
        hist = [seq]
    else:
        hist = [case['prefix'] + [x] for x in case['last']]
    d = ''
    for seq in hist:
        want = [ref(o) for o in seq]
        got = in_child(lambda: [perform(o) for o in seq])
        for i, (a, b) in enumerate(zip(want, got)):
            if a != b:
                disc.append(('history', f'operation {i} ({seq[i][0]} {seq[i][-1][:24]!r}) after {seq[i - 1][0]} {seq[i - 1][-1][:24]!r}: ' + c21.first_diff(a, b)))
                break
        d = str(len(want))
    return disc[:3], d


def traces_of(case):
    return 2 * len(case['others']) + 1 if 'first' in case else len(case['last'])
