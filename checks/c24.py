"""C24: files are found, decoded and converted by every public entry point.

The same content, in every encoding and with every line ending its format can have, is read through every entry point, and
written through every one; results are compared with those of the library functions.  Everything happens in scratch
directories, in processes forked for the purpose (the command line is run as its module).
"""
import ast
import contextlib
import io
import os
import re
import runpy
import shutil
import sys
import tempfile

import target
from target import m21, converter21
import score as S
import routes
import pool
import c21
import c22

PROP = 'C24'
CHUNK = 2
BOUND = {'quick': 'about 30 contents x encodings (UTF-8 with and without byte order mark, Latin-1, UTF-16 for MEI) x line endings x all reading entry points; '
                  'contents x output formats x all writing entry points x options; all failing inputs through every entry point',
         'thorough': 'about 250 contents'}
ASSUME = ['Humdrum files are UTF-8 or Latin-1 (as documented in the reader), MEI files UTF-8, UTF-16 or Latin-1',
          'the command line writes with makeNotation=False']

TEXTK = ('!!!COM: Müller, Jürgen\n!!!OTL@DE: Größe\n**kern\t**text\t**dynam\n*clefG2\t*\t*\n*k[b-]\t*\t*\n*M4/4\t*\t*\n=1\t=1\t=1\n4c\tÄ-\tp\n4d\t-öß\t.\n'
         '2e-\té\tf\n=2\t=2\t=2\n!!LO:TX:t=dolce à la\n1f\tÿ\t.\n==\t==\t==\n*-\t*-\t*-\n!!!ONB: naïve\n')
FORMATS = {'h': ('humdrum', ['krn', 'kern']), 'm': ('mei', ['mei'])}


def contents(n1):
    out = [('text', 'h', TEXTK), ('ascii', 'h', c22.HAND['two']), ('meta', 'h', c22.HAND['meta']), ('part', 'h', c22.HAND['part'])]
    for i, (k, M) in enumerate(pool.pool(n1, 0)):
        try:
            if i % 2:
                out.append((k, 'h', S.to_kern(M)))
            else:
                out.append((k, 'm', S.to_mei(M)))
        except Exception:   # pylint: disable=broad-except
            continue
    return out


BAD = {'h': {k: c22.HAND[k] for k in ('bad spines', 'not humdrum', 'unterminated', 'surplus')},
       'm': {k: c22.HANDM[k] for k in ('mei not xml', 'mei wrong root', 'mei bad dur')}}
READERS = ['lib', 'convdata', 'convfile', 'parse', 'parsefmt', 'parseFile', 'parsestr', 'parseData', 'cli', 'clifmt', 'clistdin', 'prefix', 'cached', 'pathlib',
           'freeze']
ENDS = {'lf': '\n', 'crlf': '\r\n', 'cr': '\r'}
WRITERS = ['lib', 'conv', 'write', 'writenofp', 'cli', 'clistdout', 'cliext', 'conv-string', 'noext']


def encs(fmt, text):
    out = ['utf-8', 'utf-8-sig']
    try:
        if text.encode('latin-1') != text.encode('utf-8'):
            out.append('latin-1')
    except UnicodeError:
        pass
    if fmt == 'm':
        out.append('utf-16')
    return out


def cases(tier, stats):
    q = tier == 'quick'
    n = 0
    cs = contents(1 if q else 15)
    for k, fmt, text in cs:
        full = k in ('text', 'part') or (fmt == 'm' and k.startswith(('c12', 'c04')))
        for enc in encs(fmt, text):
            for end in ENDS:
                if not (full or not q) and (enc, end) not in (('utf-8', 'lf'), ('utf-8', 'crlf'), ('latin-1', 'lf'), ('utf-16', 'crlf')):
                    continue
                rs = READERS if (full or end == 'crlf') else READERS[:8]
                n += len(rs)
                yield f'read/{k}/{fmt}/{enc}/{end}', {'fmt': fmt, 'text': text, 'enc': enc, 'end': end, 'readers': rs}
        for to in FORMATS:
            n += len(WRITERS)
            yield f'write/{k}/{fmt}/{to}', {'fmt': fmt, 'text': text, 'to': to}
    text = mei_text()
    for enc in encs('m', text):
        for end in ENDS:
            for decl in ('same', 'none', 'true'):
                n += len(READERS)
                yield f'read/mei/{enc}/{end}/{decl}', {'fmt': 'm', 'text': text, 'enc': enc, 'end': end, 'readers': READERS, 'decl': decl}
    for fmt, bads in BAD.items():
        for k, text in bads.items():
            for to in FORMATS:
                n += 4
                yield f'bad/{k}/{to}', {'fmt': fmt, 'text': text, 'to': to, 'bad': True}
    for k in ('nofile', 'badext', 'badto', 'badfrom', 'unwritable', 'stdin without format', 'unwritable score', 'existing'):
        n += 1
        yield f'bad/{k}', {'badcall': k}
    yield 'register', {'register': True}
    stats.states = stats.transitions = n


def mei_text():
    M = dict(S.base(1, 2, '4/4'))
    import featlib as F
    F.fillall(M, 1)
    xml = S.to_mei(M)
    return xml.replace('pname="c"', 'label="Ä ß ÿ é" pname="c"', 1) if 'Ä' not in xml else xml


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c24-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def setup(d):
    m21.environment.Environment()['directoryScratch'] = d
    converter21.register()


def cli(args, stdin=b''):
    """(exit status, stdout, stderr)"""
    out, err = io.TextIOWrapper(io.BytesIO(), encoding='utf-8'), io.StringIO()
    saved = sys.stdout, sys.stderr, sys.stdin, sys.argv
    sys.stdout, sys.stderr, sys.stdin = out, err, io.TextIOWrapper(io.BytesIO(stdin), encoding='utf-8')
    sys.argv = ['converter21'] + args
    try:
        try:
            runpy.run_module('converter21', run_name='__main__', alter_sys=False)
            rc = 0
        except SystemExit as e:
            rc = e.code or 0
        except Exception as e:   # pylint: disable=broad-except
            rc = 'exception ' + routes.short_exc(e)
    finally:
        sys.stdout, sys.stderr, sys.stdin, sys.argv = saved
    out.seek(0)
    return rc, out.buffer.getvalue().decode('utf-8'), err.getvalue()


def doc(path):
    with open(path, encoding='utf-8', newline='') as f:
        return c21.normalize(f.read())


def lib_parse(fmt, text):
    return target.kern_to_m21(text) if fmt == 'h' else target.mei_to_m21(text)


def lib_write(sc, to, **kw):
    return c21.normalize(target.m21_to_kern(sc, **kw) if to == 'h' else target.m21_to_mei(sc, **kw))


def fp(sc):
    """the score without what only tells how it was read"""
    out = []
    for i, ln in enumerate(c21.fingerprint(sc)):
        if i == 0:
            ln = re.sub(r" id='[^']*'| custom=\S*", '', ln)
        if ln.startswith('metadata '):
            md = [kv for kv in ast.literal_eval(ln[len('metadata '):]) if kv[0] not in ('corpusFilePath', 'fileFormat', 'filePath', 'fileNumber', 'software')]
            ln = f'metadata {md}'
        out.append(ln)
    return out


def read(case, how, d):
    fmt, ext = FORMATS[case['fmt']]
    text = case['text'].replace('\n', ENDS[case['end']])
    if case.get('decl') in ('none', 'true'):
        head, rest = text.split('?>', 1)
        text = rest.lstrip('\r\n') if case['decl'] == 'none' else head.replace('UTF-8', {'latin-1': 'ISO-8859-1', 'utf-16': 'UTF-16'}.get(case['enc'], 'UTF-8')) + '?>' + rest
    data = text.encode(case['enc'])
    path = os.path.join(d, 'in.' + ext[-1])
    with open(path, 'wb') as f:
        f.write(data)
    strtext = ('\ufeff' if case['enc'] == 'utf-8-sig' else '') + text
    conv = converter21.HumdrumConverter if case['fmt'] == 'h' else converter21.MEIConverter
    if how == 'lib':
        return fp(lib_parse(case['fmt'], strtext))
    if how == 'convdata':
        return fp(conv().parseData(strtext))
    if how == 'convfile':
        return fp(conv().parseFile(path))
    if how == 'parse':
        return fp(m21.converter.parse(path, forceSource=True))
    if how == 'pathlib':
        import pathlib
        return fp(m21.converter.parse(pathlib.Path(path), forceSource=True))
    if how == 'parsefmt':
        p2 = os.path.join(d, 'in.xyz')
        os.rename(path, p2)
        return fp(m21.converter.parse(p2, format=fmt, forceSource=True))
    if how == 'parseFile':
        return fp(m21.converter.parseFile(path, forceSource=True))
    if how == 'parsestr':
        return fp(m21.converter.parse(strtext, format=fmt))
    if how == 'parseData':
        return fp(m21.converter.parseData(strtext, format=fmt))
    if how == 'prefix':
        return fp(m21.converter.parse(f'{fmt}:' + text))
    if how == 'cached':
        m21.converter.parse(path, forceSource=False)
        return fp(m21.converter.parse(path, forceSource=False))
    if how == 'freeze':
        sc = m21.converter.parse(path, forceSource=True)
        data = converter21.StreamFreezer(sc).write()
        th = converter21.StreamThawer()
        th.open(data)
        return fp(th.stream)
    out = os.path.join(d, 'out.krn')
    if how == 'cli':
        rc = cli([path, out, '-t', 'humdrum'])
    elif how == 'clifmt':
        p2 = os.path.join(d, 'in.xyz')
        os.rename(path, p2)
        rc = cli([p2, out, '-t', 'humdrum', '-f', fmt])
    elif how == 'clistdin':
        rc = cli(['-', out, '-t', 'humdrum', '-f', fmt], stdin=strtext.encode('utf-8'))
    if rc[0] != 0:
        raise RuntimeError(f'exit status {rc[0]}: {rc[2][-150:]}')
    return doc(out).split('\n')


def writeby(case, how, d):
    to, exts = FORMATS[case['to']]
    fmt, inext = FORMATS[case['fmt']]
    path = os.path.join(d, 'in.' + inext[0])
    with open(path, 'w', encoding='utf-8') as f:
        f.write(case['text'])
    out = os.path.join(d, 'o ü.' + exts[-1])
    if how in ('cli', 'clistdout', 'cliext'):
        args = {'cli': [path, out], 'clistdout': [path, '-'], 'cliext': [path, out[:-4] + 'txt']}[how]
        before = set(os.listdir(d))
        rc = cli(args + ['-t', to])
        if rc[0] != 0:
            raise RuntimeError(f'exit status {rc[0]}: {rc[2][-150:]}')
        if how == 'clistdout':
            return c21.normalize(rc[1])
        if how == 'cliext':
            new = [x for x in set(os.listdir(d)) - before if x.endswith(tuple('.' + e for e in exts))]
            if len(new) != 1:
                raise RuntimeError(f'no output file with an extension of the format: {sorted(os.listdir(d))}')
            return doc(os.path.join(d, new[0]))
        return doc(out)
    sc = m21.converter.parse(path, forceSource=True)
    kw = {'makeNotation': False}
    if how == 'lib':
        return lib_write(sc, case['to'], **kw)
    conv = converter21.HumdrumConverter if case['to'] == 'h' else converter21.MEIConverter
    if how == 'conv':
        conv().write(sc, to, fp=out, **kw)
        return doc(out)
    if how == 'conv-string':
        return doc(conv().write(sc, to, fp=out, makeNotation=False))
    if how == 'write':
        return doc(sc.write(to, fp=out, makeNotation=False))
    if how == 'writenofp':
        return doc(sc.write(to, makeNotation=False))
    if how == 'noext':
        return doc(sc.write(to, fp=os.path.join(d, 'name'), makeNotation=False))
    raise ValueError(how)


def guarded(fn):
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            return ('ok', fn())
    except Exception as e:   # pylint: disable=broad-except
        return ('exc', routes.short_exc(e))


def do_read(case):
    disc = []
    with scratch() as d:
        setup(d)
        ref = guarded(lambda: fp(lib_parse(case['fmt'], case['text'])))
        refdoc = guarded(lambda: lib_write(m21.converter.parse(case['text'], format=FORMATS[case['fmt']][0]), 'h', makeNotation=False).split('\n'))
        if ref[0] != 'ok' or refdoc[0] != 'ok':
            return []
        for how in case['readers']:
            sub = tempfile.mkdtemp(dir=d)
            got = guarded(lambda: read(case, how, sub))
            want = refdoc if how.startswith('cli') else ref
            if got != want:
                disc.append((how, got[1] if got[0] == 'exc' else 'a different result: ' + c21.first_diff(want[1], got[1])))
    return disc


def do_write(case):
    disc = []
    with scratch() as d:
        setup(d)
        ref = guarded(lambda: lib_write(lib_parse(case['fmt'], case['text']), case['to'], makeNotation=False))
        if ref[0] != 'ok':
            return []
        for how in WRITERS:
            sub = tempfile.mkdtemp(dir=d)
            got = guarded(lambda: writeby(case, how, sub))
            if got != ref:
                disc.append((how, got[1] if got[0] == 'exc' else 'a different document: ' + c21.first_diff(ref[1].split('\n'), got[1].split('\n'))))
    return disc


def do_bad(case):
    """the command line: an error status and no new output"""
    disc = []
    with scratch() as d:
        setup(d)
        to, exts = FORMATS[case['to']]
        fmt, inext = FORMATS[case['fmt']]
        ref = guarded(lambda: lib_write(lib_parse(case['fmt'], case['text']), case['to'], makeNotation=False))
        if ref[0] == 'ok':
            return []      # accepted after all
        path = os.path.join(d, 'in.' + inext[0])
        with open(path, 'w', encoding='utf-8') as f:
            f.write(case['text'])
        for how in ('file', 'stdout', 'stdin', 'existing'):
            out = os.path.join(d, how + '.' + exts[0])
            if how == 'existing':
                with open(out, 'w', encoding='utf-8') as f:
                    f.write('precious')
            args = {'stdout': [path, '-'], 'stdin': ['-', out, '-f', fmt]}.get(how, [path, out])
            rc = cli(args + ['-t', to], stdin=case['text'].encode('utf-8') if how == 'stdin' else b'')
            if rc[0] == 0 or 'Success' in rc[2]:
                disc.append((how, f'exit status {rc[0]} for a file that cannot be converted'))
            if rc[1].strip():
                disc.append((how, 'output for a file that cannot be converted'))
            if how == 'existing':
                if open(out, encoding='utf-8').read() != 'precious':
                    disc.append((how, 'an existing file was overwritten by a failing conversion'))
            elif os.path.exists(out):
                disc.append((how, 'an output file for a file that cannot be converted'))
    return disc


def do_call(what):
    with scratch() as d:
        setup(d)
        path, out = os.path.join(d, 'in.krn'), os.path.join(d, 'out.mei')
        with open(path, 'w', encoding='utf-8') as f:
            f.write(c22.HAND['two'])
        stdin = b''
        if what == 'nofile':
            args = [os.path.join(d, 'none.krn'), out, '-t', 'mei']
        elif what == 'badext':
            args = [os.path.join(d, 'in.zzz'), out, '-t', 'mei']
            shutil.copy(path, args[0])
        elif what == 'badto':
            args = [path, out, '-t', 'nonsense']
        elif what == 'badfrom':
            args = [path, out, '-t', 'mei', '-f', 'nonsense']
        elif what == 'unwritable':
            out = os.path.join(d, 'nodir', 'out.mei')
            args = [path, out, '-t', 'mei']
        elif what == 'stdin without format':
            args, stdin = ['-', out, '-t', 'mei'], c22.HAND['two'].encode()
        elif what in ('unwritable score', 'existing'):
            # parts with different numbers of measures cannot be written as MEI
            disc = []
            sc = c21.special()['different']()
            if what == 'existing':
                with open(out, 'w', encoding='utf-8') as f:
                    f.write('precious')
            r = guarded(lambda: str(sc.write('mei', fp=out)))
            if r[0] == 'ok':
                return [] if guarded(lambda: target.m21_to_mei(c21.special()['different']()))[0] == 'ok' else [(what, 'no error')]
            if what == 'existing':
                if open(out, encoding='utf-8').read() != 'precious':
                    disc.append((what, 'an existing file was overwritten by a failing conversion'))
            elif os.path.exists(out):
                disc.append((what, 'an output file of a failing conversion'))
            return disc
        rc = cli(args, stdin)
        disc = []
        if rc[0] == 0 or 'Success' in rc[2]:
            disc.append((what, f'exit status {rc[0]}'))
        if os.path.exists(out) or rc[1].strip():
            disc.append((what, 'output'))
    return disc


def do_register():
    """registering any number of times, in any order"""
    disc = []
    C = m21.converter
    H, E = converter21.HumdrumConverter, converter21.MEIConverter
    N = converter21.ConverterName
    import itertools
    calls = [(), (N.HUMDRUM,), (N.MEI,), (N.HUMDRUM, N.MEI)]
    for k in (1, 2, 3):
        for seq in itertools.product(calls, repeat=k):
            C.resetSubConverters()
            for c in seq:
                converter21.register(*c)
            ls = C.Converter().subConvertersList()
            for cls, nm, old in ((H, N.HUMDRUM, C.subConverters.ConverterHumdrum), (E, N.MEI, C.subConverters.ConverterMEI)):
                want = any(not c or nm in c for c in seq)
                if ls.count(cls) != int(want):
                    disc.append(('register', f'{cls.__name__} is registered {ls.count(cls)} times after {[[int(x) for x in c] for c in seq]}'))
                if (old in ls) == want:
                    disc.append(('register', f'{old.__name__} of music21 in use: {old in ls} after {seq}'))
    C.resetSubConverters()
    return disc[:4]


def run(case):
    fn = (lambda: do_register()) if 'register' in case else (lambda: do_call(case['badcall'])) if 'badcall' in case else (
        lambda: do_bad(case)) if 'bad' in case else (lambda: do_write(case)) if 'to' in case else (lambda: do_read(case))
    return c22.in_child(fn), 'done'


def traces_of(case):
    return len(case.get('readers', WRITERS))
