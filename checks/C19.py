from .containers import *
from sa.report import Check


def run():
    chk = Check('C19', 'Abstract interpretation of the graphs, together with llvm::DirectedGraph, on histories of additions and '
                'removals against a plain list of vertices and edges (listings, filtered listings, incidence, properties, '
                'counts, storage released exactly once), and of the hash keys: reserved keys differ from each other and from '
                'every other key, equality means identity, equal keys hash alike.',
                ['llvm::SetVector, MapVector, SmallVector, filter_iterator and std::vector follow their contracts.',
                 'Up to three vertices and three edges (and the complete graphs on three vertices), two removals.',
                 'Undirected graphs without self loops; ranges and points with small coordinates.'])
    P = program()
    chk.parallel(graph_tasks(P, chk.thorough) + key_tasks(P))
    chk.control('a forgotten edge is noticed', control(P))
    for k, n in FLOORS.items():
        chk.floor(k, n)
    return chk


FLOORS = {'directed': 300, 'undirected': 80, 'entry': 120, 'reserved keys': 8, 'reserved against others': 120, 'keys': 600}


def control(P):
    cls = GRAPHS['directed'][0]
    w = World(P, cls, C + 'Probe<%s>::' % cls)
    w.add()
    w.add()
    w.link(0, 1)
    good = w.check()
    w.link(1, 0)
    w.e.pop()
    return good is None and w.check() is not None
