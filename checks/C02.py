from .astrules import *


def run():
    chk = Check('C02', 'Abstract interpretation of clone() and every copy constructor of every concrete syntax-tree '
                'class on a node whose fields hold distinct opaque tokens and children: the copy must have the same '
                'class, equal attributes, clones of all children in order, each adopted by the copy, and the original '
                'must be unchanged; child lists of length 0..3, every optional child present and absent, every '
                'variant alternative.',
                ['Children are opaque nodes whose own clone() satisfies the same rule (induction over tree height).',
                 'List behaviour is uniform in length; lengths 0..3 (0..6 in the thorough tier) are enumerated.'])
    clone(chk, ast_model(), (0, 1, 2, 3) if not chk.thorough else range(7))
    c = Check('C02', '')
    clone(c, ctl_model())
    chk.control('copy constructor that adopts nothing', any('BadClone' in k for k in c.bad))
    chk.control('sound copy is accepted', not any('Good' in k for k in c.bad))
    chk.floor('clone', 120)
    return chk
