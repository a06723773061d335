from .incidence import *
from .C14 import DOMS
from sa.report import Check


def run():
    chk = Check('C15', 'Abstract interpretation of the local matching solutions (lazily computed from access functions, and from '
                'an incidence matrix) on opaque points: every solution matches no index twice and only pairs held '
                'by an access; every such pair appears in some solution; the lazy enumeration yields the same solutions in '
                'any order of requests and ends; the sorting of the accesses uses a strict weak ordering; the validity '
                'test of a solution is exact.',
                ['Up to two (thorough: three) access functions on spaces of up to four points; matrices as in C14.',
                 'Index sets and access functions follow their contracts (C08, C13); incidence matrices theirs (C14).'])
    P = program()
    T = vaf_tasks(P, chk.thorough)
    for tag, re, rv in DOMS:
        T += split_tasks(P, Dom(re, rv), tag, chk.thorough)
    chk.parallel(T)
    chk.control('a matrix with two variables for one equation is judged invalid', control(P))
    for k, n in FLOORS.items():
        chk.floor(k, n)
    return chk


FLOORS = {'lazy': 150, 'solve': 80, 'split': 300, 'valid': 150}


def control(P):
    w, m = built(P, Dom(1, 1), [('set', 'a', 'x'), ('set', 'a', 'y')], MODES[0])
    f = P.one(MI + 'isValidLocalMatchingSolution')
    return not w.I.truth(lib.V(w.I.call_fn(f, None, [Cell(m)])))
