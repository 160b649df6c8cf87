"""The conversion routes: each takes a model and gives a music21 score, through the real code."""
import contextlib
import io
import re
import traceback
import xml.etree.ElementTree as ET

from target import kern_to_m21, m21_to_kern, mei_to_m21, m21_to_mei, kern_to_file
import score as S
from facts import facts, diff

MEINS = '{http://www.music-encoding.org/ns/mei}'
XMLID = '{http://www.w3.org/XML/1998/namespace}id'
REFATTRS = ('startid', 'endid', 'plist', 'corresp', 'sameas', 'next', 'prev', 'synch', 'copyof', 'target')


class Bad(Exception):
    pass


def kern_ok(text):
    hf = kern_to_file(text)
    if not hf.isValid:
        raise Bad('exported Humdrum is not valid: ' + str(hf.parseError))
    return text


def mei_ok(text):
    """well-formed, ids unique, internal references resolve"""
    root = ET.fromstring(text.encode('utf8'))
    ids = set()
    for el in root.iter():
        i = el.get(XMLID)
        if i is not None:
            if i in ids:
                raise Bad(f'exported MEI: duplicate xml:id on {el.tag.replace(MEINS, "")}')
            ids.add(i)
            if not re.match(r'^[A-Za-z_][\w.\-]*$', i):
                raise Bad(f'exported MEI: illegal xml:id on {el.tag.replace(MEINS, "")}')
    for el in root.iter():
        for a in REFATTRS:
            v = el.get(a)
            if v:
                for r in v.split():
                    if not r.startswith('#'):
                        if a in ('startid', 'endid', 'plist'):
                            raise Bad(f'exported MEI: reference without # in {el.tag.replace(MEINS, "")}@{a}')
                        continue
                    if r[1:] not in ids:
                        raise Bad(f'exported MEI: dangling {el.tag.replace(MEINS, "")}@{a}')
    return text


def _kern(M):
    return M['kerntext'] if 'kerntext' in M else S.to_kern(M)


def hi(M):
    return kern_to_m21(_kern(M))


def mi(M):
    return mei_to_m21(S.to_mei(M))


def b(M):
    return S.build(M)


def bn(M):
    return S.build(M, novoice=True)


def to_h(sc, **kw):
    return kern_to_m21(kern_ok(m21_to_kern(sc, **kw)))


def to_m(sc, **kw):
    return mei_to_m21(mei_ok(m21_to_mei(sc, **kw)))


ROUTES = {
    'humdrum-import': hi,
    'mei-import': mi,
    'humdrum-export': lambda M: to_h(b(M)),
    'mei-export': lambda M: to_m(b(M)),
    'mei4-export': lambda M: to_m(b(M), meiVersion='4'),
    'humdrum-export-novoice': lambda M: to_h(bn(M)),
    'mei-export-novoice': lambda M: to_m(bn(M)),
    'humdrum-humdrum': lambda M: to_h(hi(M)),
    'mei-mei': lambda M: to_m(mi(M)),
    'humdrum-mei': lambda M: to_m(hi(M)),
    'mei-humdrum': lambda M: to_h(mi(M)),
    'humdrum-mei-humdrum': lambda M: to_h(to_m(hi(M))),
    'mei-humdrum-mei': lambda M: to_m(to_h(mi(M))),
}


def short_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ''
    for f in reversed(tb):
        if '/converter21/' in f.filename:
            loc = f' in {f.name}'
            break
    return f'{type(e).__name__}: {str(e)[:120]}{loc}'


def check_model(M, cats, routes, expect=None, norm=None, skip=None, warn=True):
    """list of (route, discrepancy). expect: facts to compare with (default: those of the built score).
    norm(route, facts) may drop what a route cannot carry, on both sides."""
    out = []
    exp = expect if expect is not None else facts(S.build(M), cats)
    outcome = repr(sorted(exp.items()))
    for r in routes:
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err):
                sc = ROUTES[r](M)
            got = facts(sc, cats)
        except Exception as e:   # pylint: disable=broad-except
            out.append((r, 'exception ' + short_exc(e)))
            continue
        e2, g2 = exp, got
        if norm:
            e2, g2 = norm(r, exp, M), norm(r, got, M)
        for d in diff(e2, g2):
            out.append((r, d))
        if warn and err.getvalue().strip():
            pass
    return out, outcome
