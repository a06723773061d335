from .boxes import *
from sa.report import Check


def run():
    chk = Check('C06', 'Abstract interpretation of the interval and box operations with unconstrained integer '
                'endpoints (zone domain, the state is partitioned at every undecided comparison): for a generic '
                'point p, membership in the result must be the set-theoretic combination of the memberships in the '
                'operands; results are well formed, pieces are disjoint.',
                ['Arithmetic on 64-bit indices does not overflow.',
                 'Boxes of rank 1..3 (1..4 in the thorough tier) for binary operations, 1..4 for dimension selection; '
                 'iteration is enumerated for up to 9 points at symbolic positions.'])
    P = modeling_program()
    ranges(chk, P)
    boxes(chk, P, (1, 2, 3) if not chk.thorough else (1, 2, 3, 4))
    points(chk, P)
    C = Program([VERIF + '/controls/ranges.cpp'])
    c = Check('C06', '')
    ranges(c, C, ns='ctl::', only=('overlaps', 'subtract', 'intersect'))
    chk.control('subtraction losing the upper remainder', any('subtract' in k for k in c.bad))
    chk.control('sound overlap test is accepted', c.by_kind.get('range', 0) >= 2 and not any('overlaps' in k for k in c.bad))
    chk.floor('range', 10)
    chk.floor('box', 40)
    chk.floor('point', 30)
    return chk
