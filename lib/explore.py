"""Deviation-bounded exhaustive exploration of a choice tree.

driver(c) builds one case, asking c.choose(name, options, cost) at every choice point.
Option 0 is the default. Choices with cost 0 are enumerated completely; an alternative of a choice
with cost k uses up k of the deviation bound. Every complete choice sequence within the bound is
produced exactly once, fewest deviations first.
"""
import collections


class Prune(Exception):
    """raised by a driver: this choice combination is not a legal case"""


class Chooser:
    def __init__(self, prefix):
        self.prefix = prefix
        self.points = []   # (name, n, cost, idx)

    def choose(self, name, options, cost=1):
        options = list(options)
        i = len(self.points)
        idx = self.prefix[i] if i < len(self.prefix) else 0
        if idx >= len(options):
            raise AssertionError(f'replay diverged at {name}: {idx} of {len(options)}')
        self.points.append((name, len(options), cost, idx))
        return options[idx]

    def flag(self, name, cost=1):
        return self.choose(name, (False, True), cost)


class Explorer:
    def __init__(self, driver, bound):
        self.driver = driver
        self.bound = bound
        self.nodes = 1
        self.edges = 0
        self.pruned = 0
        self.executions = 0
        self.by_dev = collections.Counter()

    def run(self):
        """yields (case, trace, deviations), by increasing number of deviations"""
        buckets = [collections.deque() for _ in range(self.bound + 1)]
        buckets[0].append(())
        for dev in range(self.bound + 1):
            q = buckets[dev]
            while q:
                prefix = q.popleft()
                c = Chooser(prefix)
                case = None
                try:
                    case = self.driver(c)
                except Prune:
                    self.pruned += 1
                pts = c.points
                self.edges += len(pts) - len(prefix) + (1 if prefix else 0)
                self.nodes += len(pts) - len(prefix) + (1 if prefix else 0)
                choices = tuple(p[3] for p in pts)
                for i in range(len(prefix), len(pts)):
                    _, n, cost, _ = pts[i]
                    nd = dev + cost
                    if nd > self.bound:
                        continue
                    for alt in range(1, n):
                        buckets[nd].append(choices[:i] + (alt,))
                if case is not None:
                    self.executions += 1
                    self.by_dev[dev] += 1
                    yield case, [(p[0], p[3]) for p in pts if p[3]], dev
