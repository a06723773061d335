from .accessfns import *
from sa.report import Check


def run():
    chk = Check('C13', 'Abstract interpretation of access functions (built from dimension accesses and from affine maps) on '
                'points and boxes with unconstrained integer coordinates and offsets (zone domain extended with sums and '
                'floor divisions as terms): for a generic point, membership in images, inverse images, compositions, '
                'inverses, clones and re-dimensioned copies equals the reading of the function as a map from points to '
                '(sets of) points; equal functions map alike.',
                ['Function shapes enumerated: rotations/translations, repeated dimensions, constants, affine with products, '
                 'floor divisions and modulo, ranges and iteration spaces; up to 3 dimensions and 3 results.',
                 'MLIR affine expressions and maps follow their documented folding, simplification and composition rules.',
                 'Arithmetic on 64-bit indices does not overflow; divisors are positive constants.'])
    P = program()
    chk.parallel(tasks(P, chk.thorough))
    chk.control('a shifted result is noticed', control(P))
    chk.floor('access', 620)
    chk.floor('multi', 160)
    chk.floor('dimension', 200)
    return chk


def control(P):
    c2 = Check('C13', '')

    def body(c):
        f = c.build(1, [('+', 'd0', 'k')])
        x = c.pt('x', 1)
        return c.maps_to(f, x, x, 'control')
    decide(c2, 'control', 'x', '', P, body, ctx=ACtx)
    return bool(c2.bad)
