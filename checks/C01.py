from .astrules import *
from .modelrtti import modeling


def run():
    chk = Check('C01', 'Abstract evaluation of every class\'s type test on the kind tag that every concrete '
                'class\'s constructor stores: isa<T>(C node) must equal "C derives from T", for all pairs (T, C) of '
                'the syntax-tree hierarchy and of the access-function and dimension-access hierarchies.',
                ['Casts go through the classof predicates (llvm::isa/cast/dyn_cast).'])
    M = ast_model()
    rtti(chk, M)
    modeling(chk)
    c = Check('C01', '')
    rtti(c, ctl_model())
    chk.control('a class storing another class\'s kind', any('BadKind' in k for k in c.bad))
    chk.control('the sound class is accepted', not any('isa<Good>(Good)' in k or 'isa<Base>(Good)' in k for k in c.bad))
    chk.floor('type-test', 1500)
    chk.floor('modeling-type-test', 60)
    return chk
