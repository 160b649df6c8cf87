import notespace
import routes
from score import to_kern, to_mei
PROP = 'C05'
BOUND = {'quick': 'all scores with at most 2 deviations from the simple base score and at most 1 from each rich base score',
         'thorough': 'at most 3 deviations from the simple base score, 2 from each rich base score'}
CATS = ['core', 'measures']
ROUTES = ['humdrum-export', 'humdrum-humdrum', 'humdrum-export-novoice', 'mei-humdrum']
OPT = {'kernsafe': True, 'pitches': 5, 'nmeas': [1, 2, 3], 'export': True}


def cases(tier, stats):
    q = tier == 'quick'
    for i in range(len(notespace.RICH)):
        yield from notespace.cases(stats, 1 if q else 2, dict(OPT, rich=i))
    yield from notespace.cases(stats, 2 if q else 3, OPT)


def routes_of(M):
    return ROUTES if M['dev'] < 2 else ROUTES[:2]


def run(M):
    return routes.check_model(M, CATS, routes_of(M))


def traces_of(M):
    return len(routes_of(M))


def show(M):
    print(to_kern(M))
    print(to_mei(M))
