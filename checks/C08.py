from .indexsets import *
from sa.report import Check


def run():
    chk = Check('C08', 'Abstract interpretation of the index-set operations (with the range tree underneath) on sets made '
                'of boxes with unconstrained integer bounds (zone domain, state partitioned at undecided comparisons): '
                'for a generic point, membership in the result equals the set-theoretic combination of the '
                'memberships in the operands, the stored boxes are disjoint, operands are unchanged; multi-level '
                'trees are obtained with the smallest node capacity.',
                ['Operands of up to 3 boxes (rank 1) and 2 boxes (rank 2); trees of up to three levels with node '
                 'capacities (1, 2) and (2, 3).', 'Arithmetic on 64-bit indices does not overflow.'])
    P = modeling_program()
    T = tasks(P, chk.thorough)
    D = deep_tasks(P, chk.thorough)
    chk.parallel(T + D)
    chk.control('generic-point rule notices a lost piece', control(P))
    chk.floor('index-set', 60)
    chk.floor('index-tree', 45)
    return chk


def control(P):
    c2 = Check('C08', '')

    def body(c):
        A = [c.box('A', 1), c.box('B', 1)]
        return holds(c, make(c, A[:1]), union(c, A), 1, 'control')
    decide(c2, 'control', 'x', '', P, body)
    return bool(c2.bad)
