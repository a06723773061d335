from .incidence import *
from sa.report import Check

DOMS = [('1x1', 1, 1), ('1x2', 1, 2), ('2x1', 2, 1)]


def run():
    chk = Check('C14', 'Abstract interpretation of the compressed incidence matrix (MCIM) and of its groups on opaque points: '
                'a matrix built by a history of operations holds exactly the (equation, variable) pairs the history '
                'denotes, and after each further operation exactly the combined pairs; spaces, projections, comparison, '
                'copies, iteration and emptiness agree with the pairs. Index sets and access functions are replaced by their '
                'contracts (decided by C08 and C13), in any box decomposition.',
                ['Histories of up to two access functions and four extra points, over up to three points per side (points are '
                 'opaque: only equality is observed), ranks (1,1), (1,2), (2,1).',
                 'Accesses are single-valued, or multi-valued without inverse; index sets and access functions follow their '
                 'contracts (C08, C13).'])
    P = program()
    T = []
    for tag, re, rv in DOMS:
        d = Dom(re, rv)
        T += state_tasks(P, d, tag, chk.thorough)
        T += group_tasks(P, d, tag)
    chk.parallel(T)
    chk.control('a lost pair is noticed', control(P))
    for k, n in FLOORS.items():
        chk.floor(k, n)
    return chk


FLOORS = {'history': 150, 'set': 150, 'unset': 150, 'filter': 250, 'space': 400, 'copy': 150, 'arithmetic': 3000, 'group': 150}


def control(P):
    d = Dom(1, 1)
    w, m = built(P, d, [('set', 'a', 'x')], MODES[0])
    return bool(differs(w, m, {('a', 'x'), ('b', 'y')})) and not differs(w, m, {('a', 'x')})
