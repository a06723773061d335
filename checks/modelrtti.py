"""Type tests of the access-function and dimension-access hierarchies (C01)."""
from sa.facts import Program, AnalysisBroken, srcs, loc, walk
from sa.interp import Interp, Cell, Tok, Obj, Unsupported, Trap
from .astrules import guard, nm, find_classof

PARAM = 'param'
ROOTS = ('marco::modeling::AccessFunction', 'marco::modeling::DimensionAccess')


def program():
    return Program(srcs('lib/Modeling/AccessFunction*.cpp', 'lib/Modeling/DimensionAccess*.cpp'))


def concrete_kinds(P, root, cls):
    """Kind values that a constructor of the concrete class cls can leave in the
    root's kind field: the base-initialiser chain is followed."""
    def ctors(c):
        return [P.fn[m['id']] for m in P.rec[c]['methods'] if m.get('kind') == 'ctor' and m['id'] in P.fn]

    def args_of(f, c):
        """[(base class, constructor id, argument nodes)] of f's base or delegating initialisers."""
        for i in f['inits']:
            if 'f' in i:
                continue
            for x in walk(i['e']):
                if x['k'] == 'ctor':
                    yield i.get('base', c), x
                    break

    def konst(e, env):
        for x in walk(e):
            if x['k'] in ('enum', 'int'):
                return x.get('v')
            if x['k'] == 'ref':
                return env.get(x['d'], PARAM)
        return None

    out = []

    def go(c, f, env, depth=0):
        if depth > 8:
            return
        if c == root:
            for i in f['inits']:
                if i.get('f') == 'kind':
                    out.append(konst(i['e'], env))
            return
        for b, x in args_of(f, c):
            g = P.fn.get(x['id'])
            if g is None or x.get('ck') in ('copy', 'move'):
                continue
            go(b, g, {p['d']: konst(a, env) for p, a in zip(g['p'], x['a'])}, depth + 1)
    for f in ctors(cls):
        go(cls, f, {})
    return out


def modeling(chk):
    P = program()
    for root in ROOTS:
        classes = sorted(P.subclasses(root))
        concrete = [c for c in classes if not P.rec[c].get('abstract')]
        if len(concrete) < 5:
            raise AnalysisBroken('only %d concrete classes below %s' % (len(concrete), root))
        for c in concrete:
            kinds = set(concrete_kinds(P, root, c)) - {PARAM}   # kind chosen by a derived class
            if not kinds or None in kinds:
                chk.undecided('modeling-type-test', nm(c), 'kind stored by the constructors is not a constant')
                continue
            for t in classes:
                key = 'isa<%s>(%s)' % (nm(t), nm(c))
                ms = [m for m in find_classof(P, t) if m['id'] in P.fn]
                if not ms:
                    chk.undecided('modeling-type-test', key, 'no analysable type test')
                    continue
                f = P.fn[ms[0]['id']]
                for k in sorted(kinds):
                    with guard(chk, 'modeling-type-test', key):
                        I = Interp(P)
                        o = I.new_obj(c)
                        o.cell('kind').v = k
                        v = I.truth(I.call_fn(f, None, [Cell(o)]))
                        want = P.is_base(t, c)
                        chk.ok('modeling-type-test', key, v == want,
                               'a %s object answers %s to the type test for %s, but %s from it' % (
                                   nm(c), v, nm(t), 'derives' if want else 'does not derive'), loc(f))
                        chk.paths += 1
                        chk.visited(I.visited, P)
