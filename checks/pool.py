"""feature scores for the history checks: the models of the feature checks (bound 1 completely enumerated, evenly thinned)"""
import importlib
import itertools

FEATURES = '04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 20 26'.split()


class _Stats:
    def __init__(self):
        self.states = self.transitions = 0
        self.note = {}


def pool(n1, n2=0, mods=FEATURES):
    """(key, model) of every feature check: n1 of its models with at most one deviation, n2 of the others"""
    for name in mods:
        try:
            m = importlib.import_module('c' + name)
        except ImportError:
            continue
        one, more = [], []
        for key, c in itertools.islice(m.cases('quick', _Stats()), 3000):
            if not isinstance(c, dict) or 'meas' not in c:
                continue
            (one if c.get('dev', 9) <= 1 else more).append((key, c))
        for lst, n in ((one, n1), (more, n2)):
            n = min(n, len(lst))
            for i in range(n):
                key, c = lst[i * len(lst) // n]
                yield f'c{name}/{key}', c
