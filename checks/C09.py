from .parserchecks import *


def run():
    chk = Check('C09', 'Abstract interpretation of every parsing function on token streams whose subphrases are opaque '
                '(only the kinds of their first tokens are constrained): each phrase of the reference grammar is '
                'accepted and consumed exactly, in every context that may follow it; each proper beginning of a phrase '
                'followed by any token that does not continue it is refused without taking that token; a subphrase '
                'that is refused makes the phrase refused. Calls parsing a subphrase are replaced by the property '
                'itself (assume-guarantee over the grammar).',
                ['The reference grammar of checks/parsegrammar.py (the documented subset of Modelica) is the oracle.',
                 'Repetitions and options: all words with at most 3 (thorough 4) optional choices.'])
    missing(chk)
    chk.parallel(tasks(('language',), chk.thorough))
    chk.control('phrase outside of the grammar', any(k.startswith('rejection/') for k in probe(
        'subscript', ('language',), wrong_rule('subscript', 'Colon:colon'))))
    chk.control('phrase the parser refuses', any(k.startswith('phrase/') for k in probe(
        'annotation', ('language',), wrong_rule('annotation', 'Annotation:c [class_modification:c]'))))
    chk.floor('phrase', 500)
    chk.floor('rejection', 1500)
    chk.floor('propagation', 200)
    return chk
