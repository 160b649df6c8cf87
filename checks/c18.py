"""C18: metadata.

A model is a list of reference records (key, number, language, text).  It is written as a Humdrum file (records before or
after the music) or put into a music21 Metadata object, and goes through every route; the records found at the end are
compared, key by key and in order, with those of the model.
"""
import html
import io
import contextlib
import logging
import re

import target
from target import m21
import routes

PROP = 'C18'
CHUNK = 25
BOUND = {'quick': 'every Humdrum reference key alone x 16 texts, x languages, x numbers, twice and three times; all ordered pairs of the MEI-relevant '
                  'key groups; unknown keys; music21 metadata objects (every standard name); hand-written MEI headers; routes H, HH, HM, HMH, HMM, B-H, B-M',
         'thorough': 'all ordered pairs of all keys with two texts, all triples of the composer and title keys'}
ASSUME = ['MEI headers have no place for ' + 'MLC without MDT, OVM, PUB, EMD, EST, VTS, AIN and RLN, nor for composer details without a composer; languages are only kept '
          'there for titles and numbers', 'MRD is the same as MDT, ACO the same as GCO', 'dates are those of C19: here one date']

# key -> (music21 name, role)
NAMES = {
    'COM': 'composer', 'COA': 'attributedComposer', 'COS': 'suspectedComposer', 'COL': 'composerAlias', 'COC': 'composerCorporate',
    'LYR': 'lyricist', 'LIB': 'librettist', 'LAR': 'arranger', 'LOR': 'orchestrator', 'TXO': 'textOriginalLanguage', 'TXL': 'textLanguage',
    'TRN': 'translator', 'RRD': 'dateIssued', 'RNP': 'producer', 'MCN': 'conductor', 'OTL': 'title', 'OTP': 'popularTitle', 'OTA': 'alternativeTitle',
    'OPR': 'parentTitle', 'OAC': 'actNumber', 'OSC': 'sceneNumber', 'OMV': 'movementNumber', 'OMD': 'movementName', 'OPS': 'opusNumber', 'ONM': 'number',
    'OVM': 'volumeNumber', 'ODE': 'dedicatedTo', 'OCO': 'commissionedBy', 'OCL': 'transcriber', 'ODT': 'dateCreated', 'OCY': 'countryOfComposition',
    'OPC': 'localeOfComposition', 'GTL': 'groupTitle', 'GAW': 'associatedWork', 'GCO': 'collectionDesignation', 'ACO': 'collectionDesignation',
    'PPR': 'firstPublisher', 'PDT': 'dateFirstPublished', 'PTL': 'publicationTitle', 'PPP': 'placeFirstPublished', 'PC#': 'publishersCatalogNumber',
    'SCT': 'scholarlyCatalogAbbreviation', 'SCA': 'scholarlyCatalogName', 'SMS': 'manuscriptSourceName', 'SML': 'manuscriptLocation',
    'SMA': 'manuscriptAccessAcknowledgement', 'YEP': 'electronicPublisher', 'YEC': 'copyright', 'YER': 'electronicReleaseDate',
    'YOO': 'originalDocumentOwner', 'YOE': 'originalEditor', 'EED': 'electronicEditor', 'ENC': 'electronicEncoder'}
ROLES = {'MPN': 'performer', 'MPS': 'suspected performer', 'PED': 'publication editor'}
CUSTOM = ('CDT CBL CDL CNT RTL RMM RC# RLC RDT RT# MGN MDT MRD MLC MPD ONB PUB YEM YEN YOR YOY END EMD EEV EFL EST VTS AFR AGN AST AMD AMT AIN ARE ARL HAO HTX '
          'RLN RNB RWB').split()
KEYS = list(NAMES) + list(ROLES) + CUSTOM
DATES = {'RRD', 'ODT', 'PDT', 'YER', 'CDT', 'RDT', 'MDT', 'MRD', 'MPD', 'YOY', 'END'}
SAME = {'MRD': 'MDT', 'ACO': 'GCO'}
CONTRIB = {k for k, n in NAMES.items() if k in ('COM COA COS COL COC LYR LIB LAR LOR TRN RNP MCN OCL PPR YEP YOO YOE EED ENC'.split())} | set(ROLES)
NOMEI = {'OVM', 'PUB', 'EMD', 'EST', 'VTS', 'AIN', 'RLN'}
DETAIL = {'COL', 'CDT', 'CBL', 'CDL', 'CNT'}
COMPOSERS = {'COM', 'COA', 'COS', 'COC'}
MEILANG = {'OTL', 'OTA', 'OTP', 'ONM', 'OMV', 'OMD', 'OPS', 'OAC', 'OSC'}
TEXTS = ['abc', 'Äß é', 'a & b', '<i>x</i>', '"q" \'s\'', 'a: b', 'Bach, Johann Sebastian', 'two\nlines', 'x@y', '12', '音楽', 'a\u00a0b', '&lt;', 'a  b',
         '[x] {y} = 3', 'No. 1/2; op. 3!']
RANGE = ['1685/03/21-1750/07/28', '1756/01/27-1791/12/05', '1770-1827', '1810/02/22-1849']
DATE = ['1832/05/07', '1750/01/02', '1901/12/31', '1666/06/06']


def rec(k, text='abc', lang=None, num=''):
    return {'k': k, 't': text, 'l': lang, 'n': num}


def text_for(k, i):
    return RANGE[i % 4] if k == 'CDT' else DATE[i % 4] if k in DATES else ['abc', 'def', 'Äß & x', '<y>'][i % 4]


def spell(x, how):
    """the text of a record in a Humdrum file"""
    t = x['t'].replace('\n', '\\n')
    if how == 'ent' or re.search(r'&\w+;', t):
        t = html.escape(t, quote=False)
    lang = '' if not x['l'] else ('@' if x['l'][1] else '@@') + x['l'][0].upper()
    return f'!!!{x["k"]}{x["n"]}{lang}: {t}'


def kern(case):
    lines = [spell(x, case.get('how')) for x in case['recs']]
    pos = case.get('pos', 'top')
    top, end = (lines, []) if pos == 'top' else ([], lines) if pos == 'end' else (lines[:1], lines[1:])
    return '\n'.join(top + ['**kern', '*clefG2', '*M4/4', '=1', '1c', '==', '*-'] + end) + '\n'


def name_of(k):
    return NAMES.get(k) or ('otherContributor:' + ROLES[k] if k in ROLES else 'humdrum:' + k if k in CUSTOM else 'raw:' + k)


def key(x):
    return SAME.get(x['k'], x['k'])


def expected(recs, mei=False):
    """key -> [(text, language)]"""
    out = {}
    for x in recs:
        v = (x['t'], None if mei and x['k'] not in MEILANG else tuple(x['l']) if x['l'] else None)
        out.setdefault(key(x), []).append(v)
    return out


def items(md):
    """the same of a Metadata object"""
    out = {}
    rev = {name_of(k): SAME.get(k, k) for k in KEYS if k not in SAME}
    for n, v in md.all(returnPrimitives=True, returnSorted=False):
        if n in ('software', 'fileFormat', 'filePath', 'fileNumber', 'corpusFilePath') or n.startswith('meiraw:'):
            continue
        if n == 'raw:meiraw' or n.startswith('raw:meiraw') or n == 'raw:software':
            continue
        text, lang = str(v), None
        if isinstance(v, m21.metadata.Contributor):
            text = str(v._names[0]) if v._names else ''
            if len(v._names) > 1:
                text = ' | '.join(str(y) for y in v._names)
            lang = v._names[0].language and (v._names[0].language, bool(v._names[0].isTranslated)) if v._names else None
            if n == 'otherContributor':
                n = 'otherContributor:' + str(v.role)
        elif isinstance(v, m21.metadata.DatePrimitive):
            text = str(v).replace('/--', '')
        elif isinstance(v, m21.metadata.Text):
            lang = v.language and (v.language, bool(v.isTranslated))
        k = rev.get(n) or (n[4:] if n.startswith('raw:') else n)
        out.setdefault(k, []).append((text, lang or None))
    return out


def refs(text):
    """the same of a Humdrum file"""
    out = {}
    data = False
    for ln in text.split('\n'):
        if ln and ln[0] not in '!*':
            data = True
        m = re.match(r'^!!!([^!:][^:]*):\s*(.*)$', ln, re.S)
        if not m:
            continue
        k, v = m.groups()
        if k.startswith(('RDF*', 'system-decoration', 'part-', 'meiraw', 'software', 'filter', 'title')):
            continue
        mm = re.match(r'^([^0-9@]*)(\d*)(?:(@@?)([A-Za-z]*))?$', k)
        k3 = mm.group(1) if mm and mm.group(1) in KEYS else k
        lang = (mm.group(4).lower(), mm.group(3) == '@') if mm and mm.group(1) in KEYS and mm.group(4) else None
        if k3 == 'OMD' and data:
            continue
        out.setdefault(SAME.get(k3, k3), []).append((html.unescape(v).replace('\\n', '\n'), lang))
    return out


def diff(exp, got, keys=None):
    d = []
    for k in sorted(set(exp) | set(got)):
        if keys is not None and k not in keys:
            continue
        if exp.get(k) != got.get(k):
            d.append(f'{k}: {got.get(k)} and not {exp.get(k)}')
    return d


def mei_recs(recs):
    """the records an MEI header can have"""
    comps = sum(x['k'] in COMPOSERS for x in recs)
    perf = sum(key(x) == 'MDT' for x in recs)
    seen = {}
    out = []
    for x in recs:
        k = key(x)
        i = seen[k] = seen.get(k, 0) + 1
        if k in NOMEI or (k in DETAIL and i > comps) or (k == 'MLC' and i > perf) or k not in KEYS:
            continue
        out.append(x)
    return out


def built(case):
    sc = m21.stream.Score()
    md = m21.metadata.Metadata()
    for x in case['recs']:
        n = name_of(x['k'])
        v = m21.metadata.Text(x['t'], language=x['l'][0] if x['l'] else None, isTranslated=bool(x['l'] and x['l'][1]))
        if x['k'] in DATES and not n.startswith('humdrum:'):
            y, m, d = x['t'].split('/')
            v = m21.metadata.DateSingle(f'{int(y):04d}/{m}/{d}')
        if n.startswith('otherContributor:'):
            md.add('otherContributor', m21.metadata.Contributor(name=v, role=n.split(':')[1]))
        elif x['k'] in CONTRIB and case.get('obj'):
            md.add(n, m21.metadata.Contributor(name=v, role=n))
        elif n.startswith(('humdrum:', 'raw:')):
            md.addCustom(n, v)
        else:
            md.add(n, v)
    sc.metadata = md
    p = m21.stream.Part()
    me = m21.stream.Measure(number=1)
    me.append([m21.clef.TrebleClef(), m21.meter.TimeSignature('4/4'), m21.note.Note('C4', type='whole')])
    p.append(me)
    sc.insert(0, p)
    return sc


def check(case):
    disc = []
    recs = [dict(x, l=tuple(x['l']) if x['l'] else None) for x in case['recs']]
    exp = expected(recs)
    mrecs = mei_recs(recs)
    expm = expected(mrecs, mei=True)
    keysm = set(expm) | (set(KEYS) - {key(x) for x in recs})

    def strip(d):
        return order({k: [(t, la if k in MEILANG else None) for t, la in v] for k, v in d.items()})

    def order(d):
        """in MEI, translated titles follow the others; alternative titles are not marked as translated"""
        out = {k: sorted(v, key=lambda x: bool(x[1] and x[1][1])) if k in MEILANG else v for k, v in d.items()}
        for k in ('OTA', 'OTP'):
            if k in out:
                out[k] = [(t, la and la[0]) for t, la in d[k]]
        return out
    expm = order(expm)

    def route(name, fn):
        err = io.StringIO()
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                d = fn()
        except Exception as e:   # pylint: disable=broad-except
            d = ['exception ' + routes.short_exc(e)]
        for x in d:
            disc.append((name, x))
    logging.disable(logging.CRITICAL)
    text = kern(case)
    if not case.get('onlybuilt'):
        route('humdrum-import', lambda: diff(exp, items(target.kern_to_m21(text).metadata)))
        route('humdrum-humdrum', lambda: diff(exp, refs(target.m21_to_kern(target.kern_to_m21(text)))))
        route('humdrum-humdrum-import', lambda: diff(exp, items(target.kern_to_m21(target.m21_to_kern(target.kern_to_m21(text))).metadata)))
        box = {}

        def hm():
            box['m'] = target.m21_to_mei(target.kern_to_m21(text))
            return diff(expm, strip(items(target.mei_to_m21(box['m']).metadata)), keysm)
        route('humdrum-mei', hm)
        if 'm' in box:
            route('humdrum-mei-humdrum', lambda: diff(expm, strip(refs(target.m21_to_kern(target.mei_to_m21(box['m'])))), keysm))
            route('humdrum-mei-mei', lambda: diff(expm, strip(items(target.mei_to_m21(target.m21_to_mei(target.mei_to_m21(box['m']))).metadata)), keysm))
    if not case.get('nobuilt'):
        route('humdrum-export', lambda: diff(exp, refs(target.m21_to_kern(built(case)))))
        route('humdrum-export-import', lambda: diff(exp, items(target.kern_to_m21(target.m21_to_kern(built(case))).metadata)))
        route('mei-export', lambda: diff(expm, strip(items(target.mei_to_m21(target.m21_to_mei(built(case))).metadata)), keysm))
    return disc


def cases(tier, stats):
    n = 0

    def out(tag, recs, **kw):
        nonlocal n
        n += 1
        return tag, dict(recs=recs, **kw)
    LANGS = [None, ('de', True), ('en', False)]
    for k in KEYS:
        for i, t in enumerate([text_for(k, 0)] if k in DATES else TEXTS):
            if k == 'OMD' and t in ('12', '[x] {y} = 3'):
                continue
            yield out(f'{k}/t{i}', [rec(k, t)])
            if t not in ('abc', '12') and k not in DATES and i < 4:
                yield out(f'{k}/t{i}/ent', [rec(k, t)], how='ent', nobuilt=True)
        if k != 'OMD':
            yield out(f'{k}/end', [rec(k, text_for(k, 0))], pos='end', nobuilt=True)
        if k in DATES:
            la = [None]
        else:
            la = LANGS
        for L in la:
            for nn in ('', '1', '12'):
                if L or nn:
                    if k == 'OMD' and nn:
                        continue
                    yield out(f'{k}{nn}/{L}', [rec(k, text_for(k, 0), L, nn)], obj=bool(nn))
        for a in la:
            for b in la:
                for num in ('', '1'):
                    if k == 'OMD' and num:
                        continue
                    yield out(f'{k}x2/{a}{b}/{num}', [rec(k, text_for(k, 0), a), rec(k, text_for(k, 1), b, num)], obj=num == '1')
        yield out(f'{k}x3', [rec(k, text_for(k, 2)), rec(k, text_for(k, 1)), rec(k, text_for(k, 0))], pos='split' if k != 'OMD' else 'top')
    full = tier != 'quick'
    few = ['COM', 'COA', 'COS', 'COL', 'COC', 'CDT', 'CBL', 'CDL', 'CNT', 'OTL', 'OTA', 'OTP', 'OMD', 'OMV', 'ONM', 'OPS', 'OAC', 'MDT', 'MLC', 'MPD',
           'MPN', 'LYR', 'TRN', 'YEC', 'ODT', 'SMS', 'PPR', 'RTL', 'GTL', 'GCO']
    for a in KEYS:
        for b in KEYS:
            if a == b or SAME.get(a, a) == SAME.get(b, b):
                continue
            if not full and not (a in few and b in few):
                continue
            yield out(f'{a}+{b}', [rec(a, text_for(a, 0)), rec(b, text_for(b, 1))], nobuilt=not full)
    for a, b, c in (('COM', 'CDT', 'CBL'), ('COM', 'COM', 'CDT'), ('COA', 'COL', 'CNT'), ('OTL', 'OMD', 'OMV'), ('COM', 'COC', 'COL'), ('MDT', 'MLC', 'MPD'),
                    ('COM', 'COM', 'COM')) + (tuple((a, b, c) for a in few[:17] for b in few[:17] for c in few[:17]) if full else ()):
        for L in (None, ('fr', True)):
            rs = []
            for i, k in enumerate((a, b, c)):
                rs.append(rec(k, text_for(k, i), None if k in DATES else L))
            yield out(f'{a}+{b}+{c}/{L}', rs)
    # details of two composers
    two = [rec('COM', 'abc'), rec('COM', 'def')] + [rec(k, text_for(k, i)) for k in ('COL', 'CDT', 'CBL', 'CDL', 'CNT') for i in (0, 1)]
    yield out('two composers', two)
    # equal texts under different keys, with and without languages
    for a in ('OTL', 'OTA', 'OTP', 'OPR', 'GTL', 'COM', 'COA', 'ONB'):
        for b in ('OTL', 'OTA', 'OTP', 'OPR', 'GTL', 'COM', 'COA', 'ONB'):
            if a != b:
                yield out(f'{a}={b}', [rec(a, 'same'), rec(b, 'same')])
    for a in ('OTL', 'OTA', 'ONB', 'OPS'):
        yield out(f'{a} same text two languages', [rec(a, 'same', ('de', True)), rec(a, 'same', ('fr', True))])
    # unknown keys
    for k in ('XYZ', 'foo', 'COM-viaf-url', 'OTL3-sub@@HAW', 'hum2abc', 'a b', 'XYZ@DE', 'Q', 'ÄÖ', 'verovio-parameter-1', 'muse2psv1', 'COMX', 'OTL-x'):
        for i, t in enumerate(TEXTS):
            if '\n' in t or '&lt;' in t:
                continue
            yield out(f'unknown {k}/{i}', [{'k': k, 't': t, 'l': None, 'n': ''}], raw=True, nobuilt=True)
    for name in ('foo', 'foo:bar', 'mei:x', 'raw:foo', 'humdrum:XYZ', 'dcterms:abstract', 'abstract', 'adapter', 'otherContributor', 'title', 'composer', 'dateCreated',
                 'copyright', 'opusNumber', 'humdrum:ONB', 'humdrum:CDT', 'description', 'performer', 'illustrator', 'type', 'identifier', 'language'):
        for kind in VALUES:
            n += 1
            yield f'named {name}/{kind}', {'named': [name, kind]}
    for k, ti, wo, exp in heads():
        n += 1
        yield 'mei ' + k, {'mei': [ti, wo], 'exp': exp}
    stats.states = stats.transitions = n


TITLETYPES = {None: 'OTL', 'main': 'OTL', 'uniform': 'OTL', 'translated': 'OTL', 'alternative': 'OTA', 'popular': 'OTP', 'movementName': 'OMD', 'number': 'ONM',
              'movementNumber': 'OMV', 'opusNumber': 'OPS', 'actNumber': 'OAC', 'sceneNumber': 'OSC'}
PERSONS = {'lyricist': 'LYR', 'librettist': 'LIB', 'funder': 'OCO'}


def heads():
    """(name, inside titleStmt, inside work, expected) of hand-written MEI headers"""
    for where in ('file', 'work', 'both'):
        def put(x):
            T = '<title>main</title>'
            if where == 'file':
                return x if '<title' in x else T + x, ''
            if where == 'work':
                return '<title/>', x
            return T, x      # the work is more precise than the file
        extra = {'OTL': [('main', None)]} if where == 'both' else {}
        for ty, key_ in TITLETYPES.items():
            a = '' if ty is None else f' type="{ty}"'
            for la in (None, 'de'):
                b = '' if la is None else f' xml:lang="{la}"'
                v = [('a & b', None if la is None else (la, ty == 'translated'))]
                yield (f'{where}/title {ty} {la}', *put(f'<title{a}{b}>a &amp; b</title>'), {**extra, key_: v})
                yield (f'{where}/part {ty} {la}', *put(f'<title><titlePart{a}{b}>a &amp; b</titlePart></title>'), {**extra, key_: v})
                yield (f'{where}/analog {ty} {la}', *put(f'<title analog="humdrum:OTA"{a}{b}>a &amp; b</title>'), {**extra, 'OTA': v})
        yield (f'{where}/parts', *put('<title>x<titlePart type="movementName">y</titlePart><titlePart type="number">3</titlePart></title>'),
               {**extra, 'OTL': [('x', None)], 'OMD': [('y', None)], 'ONM': [('3', None)]})
        yield (f'{where}/lang', *put('<title type="main" xml:lang="de">x</title><title type="translated" xml:lang="en">y</title>'),
               {**extra, 'OTL': [('x', ('de', False)), ('y', ('en', True))]})
        ex = {**extra, 'OTL': [('main', None)]} if where != 'work' else {}
        for cert, key_ in ((None, 'COM'), ('medium', 'COA'), ('low', 'COS'), ('high', 'COM')):
            a = '' if cert is None else f' cert="{cert}"'
            for form, k2 in (('{}', key_), ('<persName>{}</persName>', key_), ('<corpName>{}</corpName>', 'COC'), ('<name>{}</name>', key_),
                             ('<persName type="alias">{}</persName>', 'COL'), ('<persName analog="humdrum:COS">{}</persName>', 'COS'),
                             ('<persName>{}</persName><persName>second</persName>', key_)):
                v = [('J. Ä & B', None)] + ([('second', None)] if 'second' in form else [])
                yield (f'{where}/composer {cert} {form}', *put(f'<composer{a}>{form.format("J. Ä &amp; B")}</composer>'), {**ex, k2: v})
        for el, key_ in PERSONS.items():
            for form in ('{}', '<persName>{}</persName>', '<corpName>{}</corpName>', '<name>{}</name>', '<name>{}</name><name>second</name>'):
                v = [('p', None)] + ([('second', None)] if 'second' in form else [])
                yield (f'{where}/{el} {form}', *put(f'<{el}>{form.format("p")}</{el}>'), {**ex, key_: v})
    W = '<title>main</title>'
    wx = {'OTL': [('main', None)]}
    for nm, x, e in (
            ('created', '<creation><date isodate="1832-05-07"/></creation>', {'ODT': [('1832/05/07', None)]}),
            ('created text', '<creation><date isodate="1832-05-07">sometime</date></creation>', {'ODT': [('1832/05/07', None)]}),
            ('created year', '<creation><date isodate="1832">1832</date></creation>', {'ODT': [('1832', None)]}),
            ('country', '<creation><country>F</country><settlement>P</settlement><geogName>R</geogName><dedicatee>D</dedicatee></creation>',
             {'OCY': [('F', None)], 'OPC': [('P', None)], 'ARE': [('R', None)], 'ODE': [('D', None)]}),
            ('coordinates', '<creation><geogName type="coordinates">1;2</geogName></creation>', {'ARL': [('1;2', None)]}),
            ('bwv', '<identifier>BWV 1</identifier>', {'SCT': [('BWV 1', None)]}),
            ('opus', '<identifier analog="humdrum:OPS">3</identifier>', {'OPS': [('3', None)]}),
            ('history', '<history><p>h</p></history>', {'HAO': [('h', None)]})):
        yield f'work {nm}', '<title/>', W + x, {**wx, **e}


def mei_doc(ti, wo):
    return ('<?xml version="1.0" encoding="UTF-8"?><mei xmlns="http://www.music-encoding.org/ns/mei" meiversion="5.0"><meiHead><fileDesc><titleStmt>' + ti
            + '</titleStmt><pubStmt/></fileDesc>' + (f'<workList><work>{wo}</work></workList>' if wo else '')
            + '</meiHead><music><body><mdiv><score><scoreDef><staffGrp><staffDef n="1" lines="5" clef.shape="G" clef.line="2" meter.count="4" meter.unit="4"/>'
              '</staffGrp></scoreDef><section><measure n="1"><staff n="1"><layer n="1"><note pname="c" oct="4" dur="1"/></layer></staff></measure></section>'
              '</score></mdiv></body></music></mei>')


def check_mei(case):
    logging.disable(logging.CRITICAL)
    exp = {k: [(t, tuple(la) if la else None) for t, la in v] for k, v in case['exp'].items()}
    disc = []
    doc = mei_doc(*case['mei'])
    for name, fn in (('mei-import', lambda: items(target.mei_to_m21(doc).metadata)),
                     ('mei-humdrum', lambda: refs(target.m21_to_kern(target.mei_to_m21(doc)))),
                     ('mei-mei', lambda: items(target.mei_to_m21(target.m21_to_mei(target.mei_to_m21(doc))).metadata))):
        err = io.StringIO()
        e2 = dict(exp)
        if name == 'mei-mei':
            for k in ('OTA', 'OTP'):    # no mark for translated ones
                e2.pop(k, None)
            if 'COL' in e2 and not any(k in e2 for k in COMPOSERS):
                e2.pop('COL')
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                got = fn()
            if name == 'mei-mei':
                got = {k: v for k, v in got.items() if k in e2 or k not in ('OTA', 'OTP', 'COL')}
            d = diff(e2, got)
        except Exception as e:   # pylint: disable=broad-except
            d = ['exception ' + routes.short_exc(e)]
        disc += [(name, x) for x in d]
    return disc


VALUES = {'str': lambda: 'x', 'text': lambda: m21.metadata.Text('x'), 'lang': lambda: m21.metadata.Text('x', language='de'),
          'trans': lambda: m21.metadata.Text('x', language='de', isTranslated=True), 'contrib': lambda: m21.metadata.Contributor(name='x', role='adapter'),
          'names': lambda: m21.metadata.Contributor(names=['x', 'y'], role='composer'), 'noname': lambda: m21.metadata.Contributor(role='composer'),
          'nobody': lambda: m21.metadata.Contributor(name='x'), 'copyright': lambda: m21.metadata.Copyright('x'), 'date': lambda: m21.metadata.DateSingle('1900/01/02')}


def check_named(name, kind):
    """every kind of value under every kind of name can be exported, and is there in Humdrum"""
    logging.disable(logging.CRITICAL)
    disc = []
    sc = built({'recs': []})
    try:
        if sc.metadata._isStandardUniqueName(name):
            sc.metadata.add(name, VALUES[kind]())
        else:
            sc.metadata.addCustom(name, VALUES[kind]())
    except Exception:   # pylint: disable=broad-except
        return []        # refused by music21
    err = io.StringIO()
    for route, fn in (('humdrum-export', lambda: target.m21_to_kern(sc)), ('mei-export', lambda: target.m21_to_mei(sc))):
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
                out = fn()
            if route == 'humdrum-export' and kind != 'noname':
                want = '1900/01/02' if kind == 'date' else 'x'
                if not any(ln.startswith('!!!') and ln.endswith(': ' + want) for ln in out.split('\n')):
                    disc.append((route, f'no reference record for {name} ({kind})'))
        except Exception as e:   # pylint: disable=broad-except
            disc.append((route, 'exception ' + routes.short_exc(e)))
    return disc


def run(case):
    if 'named' in case:
        return check_named(*case['named']), 'done'
    if 'mei' in case:
        return check_mei(case), 'done'
    return check(case), 'done'


def traces_of(case):
    return 3 if 'mei' in case else 6 + (0 if case.get('nobuilt') else 3)
