from .matching import *
from sa.report import Check


def run():
    chk = Check('C18', 'Abstract interpretation of the matching of array variables and equations known only through their '
                'traits: it succeeds exactly if every scalar equation and variable can be matched, and then returns each of '
                'them once, each equation with variables to which it has a one-to-one access, for every combination of the '
                'simplification of leaves and of the scalarization and different orders of the parallel steps.',
                ['Undirected graphs, incidence matrices, local matching solutions, access functions and index sets follow '
                 'their contracts; accesses map an index to at most one index.',
                 'Up to four variables and five equations of up to four indices each.'])
    P = matching_program()
    chk.parallel(match_tasks(P, chk.thorough))
    chk.control('a matching of unrelated indices is noticed', control())
    for k, n in FLOORS.items():
        chk.floor(k, n)
    return chk


FLOORS = {'single': 120, 'pairs': 1200, 'scalars': 400, 'mixed': 300, 'counts': 9}


def control():
    """The oracle tells regular incidences from singular ones."""
    a = scene({'x': 2, 'y': 1}, {'e': (2, [('x', 'same'), ('y', 'same')]), 'f': (1, [('x', 'const0')])})
    b = scene({'x': 2, 'y': 1}, {'e': (2, [('x', 'same')]), 'f': (1, [('x', 'const0')])})
    return matchable(a) != matchable(b)
