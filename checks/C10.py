from .parserchecks import *


def run():
    chk = Check('C10', 'Abstract interpretation of every parsing function on the phrases of the reference grammar with '
                'opaque subphrases and opaque token payloads: the produced tree, read through the public accessors, '
                'has the node classes, operators, operand order, names, flags and child lists that the phrase denotes.',
                ['The denotation of phrases in checks/parsegrammar.py is the oracle.',
                 'Repetitions and options: all words with at most 3 (thorough 4) optional choices.'])
    missing(chk)
    chk.parallel(tasks(('tree',), chk.thorough))

    chk.control('wrong operand order', any(probe('relation', ('tree',), swap(
        G.BUILD, 'relation', lambda n: G.op(n, 'less', G.vals(n.all('x')[::-1]))))))
    chk.control('lost flag', any(probe('argument', ('tree',), swap(
        G.BUILD, 'argument', lambda n: G.E('ElementModification', None, name=G.name(n.one('n')), each=False, final=False,
                                           mod=G.opt(n, 'm'))))))
    chk.floor('tree', 600)
    return chk
