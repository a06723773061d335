from .parserchecks import *
from .parsing import PI


def run():
    chk = Check('C11', 'Abstract interpretation of every parsing function on every proper beginning of a phrase followed by '
                'any token that does not continue it (and on every phrase): no path uses an absent node, an empty '
                'optional or the payload of a token of another kind, no loop runs without consuming tokens, and '
                'every path that gives up has reported an error located at the first offending token.',
                ['Repetitions and options: all words with at most 3 (thorough 4) optional choices.',
                 'Termination is judged by a bound on abstract steps between two consumed tokens.'])
    missing(chk)
    chk.parallel(tasks(('robust',), chk.thorough))

    def mute():
        old = PI.clang
        PI.clang = lambda I, n, nm: old(I, dict(n), nm) if nm != 'Report' else parsing.Tok('builder')

        def undo():
            PI.clang = old
        return undo
    chk.control('silent failure', any(probe('annotation', ('robust',), mute)))

    def shift():
        old = PI.srange
        PI.srange = lambda I, i, j=None: old(I, i + 1, None if j is None else j + 1)

        def undo():
            PI.srange = old
        return undo
    chk.control('misplaced error', any(probe('annotation', ('robust',), shift)))
    chk.floor('phrase', 500)
    chk.floor('rejection', 1500)
    chk.floor('propagation', 200)
    return chk
