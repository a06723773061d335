"""Shared support of the index-algebra checks: symbolic points, ranges, boxes."""
from sa.facts import Program, AnalysisBroken, srcs, loc, VERIF
from sa.interp import Interp, Cell, Tok, Obj, ListV, Unsupported, Trap, Infeasible, paths, PairV
from sa.domains import Zone, ZNum, lift
from sa import lib
from .astrules import guard

NS = 'marco::modeling::'
_c = {}


def modeling_program():
    if 'p' not in _c:
        _c['p'] = Program(srcs('lib/Modeling/Point.cpp', 'lib/Modeling/Range.cpp',
                               'lib/Modeling/MultidimensionalRange.cpp', 'lib/Modeling/RTree.cpp',
                               'lib/Modeling/IndexSet.cpp'))
    return _c['p']


class Ctx:
    """One abstract path: a fresh zone and interpreter."""

    def __init__(self, P, o, hooks=None, ns=NS):
        self.P, self.o, self.ns = P, o, ns
        self.z = Zone()
        self.I = Interp(P, o, hooks=hooks, fuel=3000000)

    def num(self, name):
        return self.z.new(name)

    def lt(self, x, y):
        """Assume x < y."""
        if not self.I.truth(self.assume('<', x, y)):
            raise Infeasible()

    def assume(self, op, x, y):
        e = lift(self.z, x).add(lift(self.z, y), -1)
        i, j, c = e.diff()
        if op == '<':
            self.z.add(i, j, -c - 1)
        elif op == '<=':
            self.z.add(i, j, -c)
        elif op == '==':
            self.z.add(i, j, -c)
            self.z.add(j, i, c)
        return True

    def test(self, op, x, y):
        return self.I.truth(self.I.binop(op, x, y))

    def rng(self, name):
        b, e = self.num(name + '.b'), self.num(name + '.e')
        self.assume('<', b, e)
        return self.mkrange(b, e)

    def mkrange(self, b, e):
        return self.I.new(self.ns + 'Range', b, e)

    def box(self, name, rank):
        return self.mkbox([self.rng('%s%d' % (name, i)) for i in range(rank)])

    def mkbox(self, ranges):
        """A MultidimensionalRange made by its own constructor."""
        cls = self.ns + 'MultidimensionalRange'
        return self.I.new(cls, ListV([self.I.copy(r) for r in ranges], 'llvm::ArrayRef<R>'),
                          pred=lambda m: 'ArrayRef' in m['p'][0]['t'] and m.get('kind') == 'ctor')

    def point(self, coords):
        cls = self.ns + 'Point'
        return self.I.new(cls, ListV(coords, 'llvm::ArrayRef<long>'),
                          pred=lambda m: 'ArrayRef' in m['p'][0]['t'])

    def call(self, obj, name, *args, pred=None):
        return self.I.call_method(obj, name, *args, pred=pred)

    def forall(self, f):
        """Explore f() in all refinements of the current state, without
        re-running what led here; returns the first complaint."""
        z, outer = self.z, self.I.o
        n, d, sg = len(z.names), [r[:] for r in z.d], dict(z.signs)
        terms, meaning, tmpl = dict(z.terms), dict(z.meaning), dict(z.tmpl)

        def restore():
            del z.names[n:]
            z.d = [r[:] for r in d]
            z.signs, z.terms, z.meaning, z.tmpl = dict(sg), dict(terms), dict(meaning), dict(tmpl)

        def run(o):
            restore()
            self.I.o = o
            return f()
        try:
            for o, r in paths(run):
                self.sub = getattr(self, 'sub', 0) + 1
                if r is not None:
                    return r
            restore()
        finally:
            self.I.o = outer
        return None

    # -- meaning ------------------------------------------------------------
    def ends(self, r):
        return self.call(r, 'getBegin'), self.call(r, 'getEnd')

    def coords(self, p):
        n = self.call(p, 'rank')
        return [self.call(p, 'operator[]', i) for i in range(n)]

    def in_range(self, p, r):
        b, e = self.ends(r)
        return self.test('<=', b, p) and self.test('<', p, e)

    def dims(self, b):
        n = self.call(b, 'rank')
        return [self.call(b, 'operator[]', i) for i in range(n)]

    def in_box(self, pt, b):
        ds = self.dims(b)
        if len(ds) != len(pt):
            return False
        return all(self.in_range(p, r) for p, r in zip(pt, ds))

    def wellformed(self, r):
        b, e = self.ends(r)
        return self.test('<', b, e)

    def show(self, v):
        if isinstance(v, Obj):
            n = v.cls.rsplit('::', 1)[-1]
            if n == 'Range':
                return '[%r,%r)' % self.ends(v)
            if n == 'MultidimensionalRange':
                return 'x'.join(self.show(r) for r in self.dims(v))
            if n == 'Point':
                return '(%s)' % ','.join(map(repr, self.coords(v)))
        if isinstance(v, ListV):
            return '{%s}' % ', '.join(self.show(x) for x in v.vals)
        return repr(v)

    def instance(self):
        m = self.z.model()
        return None if m is None else self.z.show(m)


def decide(chk, kind, key, where, P, body, limit=20000, hooks=None, ns=NS, ctx=None):
    """All abstract paths of body(ctx); body returns None or a complaint."""
    n = 0
    with guard(chk, kind, key):
        bad = unsure = None
        vis = set()
        cx = [None]

        def run(o):
            c = cx[0] = (ctx or Ctx)(P, o, hooks, ns)
            try:
                r = body(c)
            except Trap as e:
                r = 'execution traps: %s' % e
            except RecursionError:
                raise Unsupported('recursion')
            finally:
                vis.update(c.I.visited)
            return r
        for o, r in paths(run, limit):
            n += 1
            if r is not None:
                c = cx[0]
                if c.z.refuted():
                    n -= 1
                    continue
                inst = c.instance()
                if inst is None:
                    unsure = unsure or r
                    continue
                bad = '%s (for instance %s)' % (r, inst)
                break
        chk.paths += n
        chk.visited(vis, P)
        if n == 0:
            raise AnalysisBroken('no feasible path for %s' % key)
        if bad is None and unsure:
            chk.undecided(kind, key, 'abstract counterexample without an instance: %s' % unsure)
            return n
        chk.ok(kind, key, bad is None, bad or '', where)
    return n
