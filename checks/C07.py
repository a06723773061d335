from .boxes import *
from sa.report import Check


def run():
    chk = Check('C07', 'Abstract interpretation of ==, !=, <, >, compare and hash_value of points, ranges and boxes on '
                'unconstrained integer coordinates (zone domain): equality is equality of content, the negation is '
                'its negation, the orders are lexicographic (hence strict and total), equal values feed equal data to '
                'the hash combiners.',
                ['Ranks 1..3 for points and 1..2 (1..3 in the thorough tier) for boxes.',
                 'The LLVM hash combiners are functions of their arguments.'])
    P = modeling_program()
    coherence(chk, P, ranks=(1, 2) if not chk.thorough else (1, 2, 3))
    C = Program([VERIF + '/controls/ranges.cpp'])
    c = Check('C07', '')
    coherence(c, C, ns='ctl::', only=(('Range', 'operator=='), ('Range', 'operator<')))
    chk.control('equality ignoring one end', any('operator==' in k for k in c.bad))
    chk.control('sound order is accepted', not any('operator<' in k for k in c.bad) and len(c.by_kind) == 1)
    chk.floor('coherence', 40)
    return chk
