from .parserchecks import *


def run():
    chk = Check('C12', 'Abstract interpretation of every parsing function on the phrases of the reference grammar: every '
                'expression, statement, equation, argument and modification node spans from its first to its last '
                'token; the location of every other node is well formed and lies inside its phrase.',
                ['Locations of tokens are abstract positions in token order on one line.',
                 'Repetitions and options: all words with at most 3 (thorough 4) optional choices.'])
    missing(chk)
    chk.parallel(tasks(('location',), chk.thorough))
    chk.control('location not covering the phrase', any(probe('for_index', ('location',), swap(
        G.BUILD, 'for_index', lambda n: G.E('ForIndex', (n.span[0], n.span[1] + 1), name=G.name(n.one('n')),
                                            expr=G.opt(n, 'e'))))))
    chk.floor('location', 600)
    return chk
