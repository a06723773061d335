from .scheduling import *
from sa.report import Check


def run():
    chk = Check('C17', 'Abstract interpretation of the scheduler and of its dependency graphs on entities known only through '
                'the traits: an equation scheduled as a range iterates, in every dimension, in a direction in which each '
                'element of its own variable it reads was computed before (offsets symbolic); otherwise its indices, and '
                'the components, are scheduled exactly once, each after those it depends on; array equations depend on '
                'each other exactly if one reads what the other writes, and their components are those of that relation.',
                ['Digraphs, R-trees, index sets, access functions and LLVM graph visits follow their contracts.',
                 'Ranks 1 to 3, up to two (rank 1: three) reads of the written variable; up to three indices, components '
                 'and equations; equations without algebraic loops among their own indices.'])
    P = graphs()
    T = direction_tasks(P, chk.thorough)
    for tag, re_, rv in (('1x1', 1, 1), ('2x1', 2, 1), ('1x2', 1, 2)):
        T += scalar_tasks(P, Dom(re_, rv), tag, chk.thorough)
    T += comp_tasks(P, Dom(1, 1), chk.thorough)
    T += comp_tasks(P, Dom(2, 1), chk.thorough)[::3]
    T += array_tasks(P, Dom(1, 1), chk.thorough)
    chk.parallel(T)
    chk.control('a wrong iteration direction is noticed', control(P))
    for k, n in FLOORS.items():
        chk.floor(k, n)
    return chk


FLOORS = {'direction': 200, 'indices': 600, 'components': 400, 'arrays': 500}


def control(P):
    """Claiming that the write is elsewhere must contradict the directions."""
    bad = [r for o, r in paths(lambda o: direction_path(P, o, 1, (0,), [('same', (0,))], MODES[0], flip=True))]
    return any(bad)
