from .astrules import *
from . import astspecial


def run():
    chk = Check('C05', 'Abstract interpretation of the derived queries of the syntax tree (start value, fixed flag, '
                'inline/derivative/inverse annotations, function signatures, record types, dotted names, array '
                'shapes and subscripting) on trees built by the code\'s own setters, with the looked-up item absent '
                'and in every position among other arguments; compared with the meaning of the query.',
                ['Argument lists of length 0..4; other arguments are drawn from four representative kinds.',
                 'The values of unrelated sub-expressions are opaque.'])
    M = ast_model()
    astspecial.queries(chk, M)
    chk.control('queries reject a misplaced lookup', control(M))
    chk.floor('query', 500)
    return chk


def control(M):
    """The rule must notice a lookup that only inspects the first argument."""
    c = Check('C05', '')
    b = astspecial.B(M)
    n = 0
    for tag, args, t in astspecial.surroundings(b, lambda: b.elem('start', b.child('start'))):
        first_only = bool(args) and t is not None and args[0] is t
        n += first_only != (t is not None)
    return n > 10
