"""Imports converter21 from /repo's working tree, always from source (never from cached byte code)."""
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(self.get_data(path), path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != 'converter21' and not fullname.startswith('converter21.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.exists(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init), submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(
                fullname, base + '.py', loader=_Loader(fullname, base + '.py'))
        return None


if not any(isinstance(f, _Finder) for f in sys.meta_path):
    sys.meta_path.insert(0, _Finder())

import music21 as m21  # noqa: E402
import converter21  # noqa: E402
from converter21.humdrum import HumdrumFile, HumdrumWriter  # noqa: E402
from converter21.mei import MeiReader, MeiWriter  # noqa: E402
from converter21.shared import M21Utilities  # noqa: E402

assert converter21.__file__.startswith(REPO), converter21.__file__
M21Utilities.adjustMusic21Behavior()


class Rejected(Exception):
    pass


def kern_to_file(text, accept=False):
    if accept:
        hf = HumdrumFile(acceptSyntaxErrors=True) if _accepts_kw() else HumdrumFile(None, True)
    else:
        hf = HumdrumFile()
    hf.readString(text)
    return hf


def _accepts_kw():
    import inspect
    return 'acceptSyntaxErrors' in inspect.signature(HumdrumFile.__init__).parameters


def kern_to_m21(text, accept=False):
    hf = kern_to_file(text, accept)
    if not hf.isValid:
        raise Rejected('invalid Humdrum: ' + str(hf.parseError))
    return hf.createMusic21Stream()


def m21_to_kern(score, makeNotation=True, **opts):
    w = HumdrumWriter(score)
    w.makeNotation = makeNotation
    for k, v in opts.items():
        setattr(w, k, v)
    o = io.StringIO()
    w.write(o)
    return o.getvalue()


def mei_to_m21(text):
    return MeiReader(text).run()


def m21_to_mei(score, makeNotation=True, meiVersion='5'):
    w = MeiWriter(score)
    w.makeNotation = makeNotation
    w.meiVersion = meiVersion
    o = io.StringIO()
    w.write(o)
    return o.getvalue()
