from .astrules import *
from . import astspecial


def run():
    chk = Check('C03', 'Abstract interpretation of every setter of every syntax-tree class followed by every accessor '
                'of the same attribute, on opaque tokens: the accessors return what was set (children by identity or '
                'as clones in order, counts, presence flags, both const and non-const overloads), children are '
                'adopted by the node, re-setting replaces, and no other attribute changes.',
                ['An attribute\'s accessors are recognised by the public naming scheme '
                 'setX/getX/isX/hasX/getNumOfX/getSingular(i)/operator[] plus a fixed list of irregular names.'])
    accessors(chk, ast_model())
    astspecial.run(chk, ast_model())
    c = Check('C03', '')
    accessors(c, ctl_model())
    chk.control('setter that appends and adopts nothing', any('BadAcc' in k for k in c.bad))
    chk.control('sound accessors are accepted', not any('Good' in k for k in c.bad))
    chk.floor('accessor', 60)
    chk.floor('qualifier', 20)
    return chk
