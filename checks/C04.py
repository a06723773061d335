from .astrules import *


def run():
    chk = Check('C04', 'Abstract interpretation of toJSON() of every concrete syntax-tree class with distinct opaque '
                'tokens in every field: every attribute and every child must reach the output (or decide what is '
                'output), each child once, under a kind name that no other class uses; all branches explored.',
                ['Children are opaque; their own dump satisfies the same rule.'])
    json(chk, ast_model(), (0, 2) if not chk.thorough else (0, 1, 2, 3, 4))
    c = Check('C04', '')
    json(c, ctl_model())
    chk.control('dump that drops a child', any('BadKind' in k for k in c.bad))
    chk.control('sound dump is accepted', not any('Good' in k for k in c.bad))
    chk.floor('json', 60)
    chk.floor('json-kind', 60)
    chk.floor('json-kind-unique', 30)
    return chk
