"""Access functions as functions from points to points (C13)."""
from .boxes import *
from .indexsets import make, holds, parts, union, S, ISET, b2
from .affine import AffInterp, AFFCTORS, AE, AM, CONST, DIM, floordiv
from sa.interp import UPtr

AF = NS + 'AccessFunction'
DA = NS + 'DimensionAccess'
OPS = {'+': 'Add', '-': 'Sub', '*': 'Mul', '/': 'Div'}
_p = {}


def program():
    if 'p' not in _p:
        _p['p'] = Program(srcs('lib/Modeling/Point.cpp', 'lib/Modeling/Range.cpp', 'lib/Modeling/RTree.cpp',
                               'lib/Modeling/MultidimensionalRange.cpp', 'lib/Modeling/IndexSet.cpp',
                               'lib/Modeling/AccessFunction*.cpp', 'lib/Modeling/DimensionAccess*.cpp'))
    return _p['p']


class ACtx(Ctx):
    def __init__(self, P, o, hooks=None, ns=NS):
        super().__init__(P, o, hooks, ns)
        self.I = AffInterp(P, o, hooks=hooks, fuel=3000000, ctor_hooks=AFFCTORS)
        self.A = self.I.aff
        self.z.use_templates = True
        self.mctx = Tok('mlirctx')
        self.syms = {}
        self.spaces, self.spaceboxes, self.spacepoints = {}, {}, {}

    def sym(self, name):
        if isinstance(name, int):
            return name
        if name not in self.syms:
            self.syms[name] = self.num(name)
        return self.syms[name]

    # ---- building from specifications
    def dim(self, t):
        """A DimensionAccess object for the term t."""
        if isinstance(t, int) or isinstance(t, str) and t[0] != 'd':
            return self.I.new(DA + 'Constant', self.mctx, self.sym(t))
        if isinstance(t, str):
            return self.I.new(DA + 'Dimension', self.mctx, int(t[1:]))
        if t[0] == 'range':
            return self.I.new(DA + 'Range', self.mctx, self.named_range(t[1]))
        if t[0] == 'in':
            return self.I.new(DA + 'Indices', self.mctx, UPtr(self.space(t[1]), True), t[2],
                              ListV([i for i in t[3]] if len(t) > 3 else [], 'llvm::SetVector<unsigned long>'))
        return self.I.new(DA + OPS[t[0]], self.mctx, UPtr(self.dim(t[1])), UPtr(self.dim(t[2])))

    def named_range(self, n):
        if n not in self.syms:
            self.syms[n] = self.rng(n)
        return self.I.copy(self.syms[n])

    def mkspace(self, n):
        """Sn: one unconstrained box of rank n; Tn: two points of rank n."""
        r = int(n[1])
        if n[0] == 'S':
            self.spaceboxes[n] = [self.box(n, r)]
        else:
            ps = [[self.num('%s%d%d' % (n, i, j)) for j in range(r)] for i in (0, 1)]
            self.spaceboxes[n] = [self.cell(p) for p in ps]
            self.spacepoints[n] = ps
        return make(self, self.spaceboxes[n])

    def member(self, t, x, pick, v):
        """v is one of the values of the term t at x."""
        if isinstance(t, tuple) and t[0] == 'range':
            return self.in_range(v, self.syms[t[1]])
        if isinstance(t, tuple) and t[0] == 'in':
            if len(t) > 3:
                return self.test('==', v, pick[t[1]][t[2]])
            return any(self.in_range(v, self.dims(b)[t[2]]) for b in self.spaceboxes[t[1]])
        if isinstance(t, tuple) and isinstance(t[1], tuple) and t[1][0] in ('range', 'in'):
            o = self.value(t[2], x)
            return self.member(t[1], x, pick, self.I.binop({'+': '-', '-': '+'}[t[0]], v, o))
        if isinstance(t, tuple) and t[0] == '+' and isinstance(t[2], tuple) and t[2][0] in ('range', 'in'):
            return self.member(('+', t[2], t[1]), x, pick, v)
        return self.test('==', v, self.value(t, x))

    def members(self, ts, x, p):
        def leaves(t):
            if isinstance(t, tuple) and t[0] in OPS:
                return leaves(t[1]) + leaves(t[2])
            return [t[1]] if isinstance(t, tuple) and t[0] == 'in' and len(t) > 3 else []
        deps = sorted({d for t in ts for d in leaves(t)})
        picks = [{}]
        for d in deps:
            picks = [dict(k, **{d: q}) for k in picks for q in self.spacepoints[d]]
        return any(all(self.member(t, x, k, v) for t, v in zip(ts, p)) for k in picks)

    def space(self, n):
        if n not in self.spaces:
            self.spaces[n] = self.mkspace(n)
        return self.spaces[n]

    def expr(self, t):
        """The affine expression for the term t."""
        A = self.A
        if isinstance(t, int) or isinstance(t, str) and t[0] != 'd':
            return A.const(self.sym(t))
        if isinstance(t, str):
            return AE(DIM, int(t[1:]))
        x, y = self.expr(t[1]), self.expr(t[2])
        return {'+': A.add, '-': lambda a, b: A.add(a, A.neg(b)), '*': A.mul, '/': A.fdiv}[t[0]](x, y)

    def fn(self, name, pred):
        ms = [m for m in self.P.rec[AF]['methods'] if m['n'] == name and pred(m) and m['id'] in self.P.fn]
        if len(ms) != 1:
            raise AnalysisBroken('%d overloads of AccessFunction::%s' % (len(ms), name))
        return self.P.fn[ms[0]['id']]

    def assign(self, dst, src):
        """dst = src through the assignment operator of the class, if it has one."""
        f = [m for m in self.P.rec[dst.cls]['methods'] if m['n'] == 'operator=' and m['id'] in self.P.fn and
             m['p'][0]['t'].startswith('const ')]
        if len(f) != 1:
            return False
        self.I.call_fn(self.P.fn[f[0]['id']], dst, [Cell(src)])
        return True

    def build(self, n, terms):
        f = self.fn('build', lambda m: len(m['p']) == 3)
        l = ListV([UPtr(self.dim(t)) for t in terms], 'llvm::ArrayRef<std::unique_ptr<%s>>' % DA)
        return lib.V(self.I.call_fn(f, None, [Cell(self.mctx), Cell(n), Cell(l)])).p

    def build_map(self, n, terms):
        f = self.fn('build', lambda m: len(m['p']) == 1)
        return lib.V(self.I.call_fn(f, None, [Cell(AM(n, [self.expr(t) for t in terms]))])).p

    # ---- meaning
    def value(self, t, x):
        I = self.I
        if isinstance(t, int) or isinstance(t, str) and t[0] != 'd':
            return self.sym(t)
        if isinstance(t, str):
            return x[int(t[1:])]
        a, b = self.value(t[1], x), self.value(t[2], x)
        if t[0] == '/':
            return floordiv(I, a, b)
        return I.binop(t[0], a, b)

    def values(self, ts, x):
        return [self.value(t, x) for t in ts]

    def same(self, x, y):
        return len(x) == len(y) and all(self.test('==', a, b) for a, b in zip(x, y))

    def pt(self, name, n):
        return [self.num('%s%d' % (name, i)) for i in range(n)]

    def cell(self, x):
        """The box holding just the point x."""
        return self.mkbox([self.mkrange(a, self.I.binop('+', a, 1)) for a in x])

    def set_of(self, boxes):
        return make(self, boxes)

    def ptr(self, v):
        v = lib.V(v)
        return v.p if isinstance(v, UPtr) else v

    def apply(self, f, x):
        return self.call(f, 'map', self.point(x), pred=PTM)

    def maps_to(self, f, x, want, what):
        """f(x) is exactly the point `want`."""
        r = lib.V(self.apply(f, x))
        e = holds(self, r, lambda p: self.same(p, want), len(want), what, False)
        return e


PTM = lambda m: 'Point' in m['p'][0]['t'] and 'IndexSet' not in m['p'][0]['t']
SETM = lambda m: 'IndexSet' in m['p'][0]['t']

# (dimensions, results): rotations and translations
ROTO = [(1, ['d0']), (1, [('+', 'd0', 'k')]), (1, [('+', 'k', 'd0')]), (1, [('-', 'd0', 'k')]),
        (2, [('+', 'd1', 'k'), ('+', 'd0', 'l')]), (2, ['d0', 'd1']), (2, [('+', 'd1', 'k')]), (2, [('+', 'd0', 'k')]),
        (2, [('+', 'd0', 'k'), 'c']), (2, ['c', ('+', 'd1', 'k')]), (1, ['c', ('+', 'd0', 'k')]),
        (3, [('+', 'd2', 'k'), 'd0', ('+', 'd1', 'l')]), (3, ['d2', 'c', ('+', 'd0', 'k')]), (3, [('+', 'd1', 'k')])]
DIAG = [(1, ['d0', ('+', 'd0', 'k')]), (2, ['d1', 'd0', 'd1']), (2, ['d0', 'd0'])]
KONST = [(1, ['c']), (2, ['c', 'e']), (0, ['c']), (1, [3, 'c'])]
GENERAL = [(1, [('*', 'd0', 2)]), (1, [('+', ('*', 'd0', 3), 'k')]), (1, [('/', 'd0', 2)]), (1, [('/', ('+', 'd0', 'k'), 2)]),
           (2, [('+', 'd0', 'd1')]), (2, [('-', 'd0', 'd1'), 'd1']), (1, [('-', 'k', 'd0')]), (1, [('*', 'd0', -1), 'd0']),
           (2, [('+', ('+', 'd0', 'd1'), 'k'), 'c']), (1, [('-', 'd0', ('*', ('/', 'd0', 2), 2))]),
           (1, [('/', ('*', 'd0', 4), 2)]), (2, [('+', ('*', 'd1', 2), ('/', 'd0', 3)), 'd0']),
           (1, [('*', ('+', 'd0', 'k'), 2)]), (1, [('-', ('-', 'd0', 'k'), 'k')]), (2, [('-', 'd0', 'd0'), 'd1'])]


def show(n, ts):
    def t(x):
        if isinstance(x, tuple) and x[0] in OPS:
            return '(%s %s %s)' % (t(x[1]), x[0], t(x[2]))
        if isinstance(x, tuple):
            return x[1] if x[0] == 'range' else '%s%s[%d]' % (x[1], '*' if len(x) > 3 else '', x[2])
        return str(x)
    return '(%s) -> (%s)' % (', '.join('d%d' % i for i in range(n)), ', '.join(map(t, ts)))


def used(t):
    """(dimension, offset is plain) of a rotation-translation result, or None for a constant."""
    if isinstance(t, tuple):
        return used(t[1]) if used(t[1]) is not None else used(t[2])
    return int(t[1:]) if isinstance(t, str) and t[0] == 'd' else None


def tasks(P, thorough):
    T = []

    def ob(key, body, name='map', kind='access', limit=20000):
        def go(chk):
            w = fwhere(P, AF, name)

            def b(c):
                return body(c)
            decide(chk, kind, key, w, P, b, limit=limit, ctx=ACtx)
        T.append(go)

    every = ROTO + DIAG + KONST + GENERAL
    for n, ts in every:
        s = show(n, ts)

        def point(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x = c.pt('x', n)
            want = c.values(ts, x)
            e = c.maps_to(f, x, want, '%s on a point' % s)
            if e:
                return e
            if lib.V(c.call(f, 'getNumOfDims')) != n or lib.V(c.call(f, 'getNumOfResults')) != len(ts):
                return '%s: wrong number of dimensions or results' % s
        ob('%s: point' % s, point)

        def affine(c, n=n, ts=ts, s=s):
            f = c.build_map(n, ts)
            x = c.pt('x', n)
            want = c.values(ts, x)
            e = c.maps_to(f, x, want, '%s built from an affine map' % s)
            if e:
                return e
            if not b2(c, c.call(f, 'isAffine')):
                return '%s: not reported as affine' % s
            m = lib.V(c.call(f, 'getAffineMap'))
            if m.n != n or not c.same([c.A.eval(r, x) for r in m.res], want):
                return '%s: its affine map is %r' % (s, m)
        ob('%s: affine map' % s, affine, 'build')

        def copies(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x = c.pt('x', n)
            want = c.values(ts, x)
            g = c.ptr(c.call(f, 'clone'))
            e = c.maps_to(g, x, want, 'a clone of %s' % s)
            if e:
                return e
            h = c.build(n, ts)
            for o, w in ((g, 'its clone'), (h, 'the same function built again')):
                if not b2(c, c.call(f, 'operator==', o, pred=BASEEQ)) or b2(c, c.call(f, 'operator!=', o, pred=BASEEQ)):
                    return '%s differs from %s' % (s, w)
            k = c.ptr(c.call(f, 'getWithGivenDimensions', n + 1))
            y = x + [c.num('y')]
            e = c.maps_to(k, y, want, '%s with one more dimension' % s)
            if e:
                return e
            if lib.V(c.call(k, 'getNumOfDims')) != n + 1:
                return '%s: one more dimension requested, %r obtained' % (s, lib.V(c.call(k, 'getNumOfDims')))
            k = c.ptr(c.call(f, 'getWithGivenDimensions', 0))
            if lib.V(c.call(k, 'getNumOfDims')) != n:
                return '%s: dimensions lost when fewer are requested' % s
            da = lib.V(c.call(f, 'getGeneralizedAccesses')).vals
            fb = c.fn('build', lambda m: len(m['p']) == 3)
            l = ListV(da, 'llvm::ArrayRef<std::unique_ptr<%s>>' % DA)
            k = lib.V(c.I.call_fn(fb, None, [Cell(c.mctx), Cell(n), Cell(l)])).p
            return c.maps_to(k, x, want, '%s rebuilt from its generalized accesses' % s)
        ob('%s: copies' % s, copies, 'clone')

        def traits(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x, y = c.pt('x', n), c.pt('y', n)
            u, v = c.values(ts, x), c.values(ts, y)
            if b2(c, c.call(f, 'isConstant')) and not c.same(u, v):
                return '%s is reported as constant' % s
            idt = b2(c, c.call(f, 'isIdentity'))
            if idt and not (len(ts) == n and c.same(u, x)):
                return '%s is reported as the identity' % s
            if not idt and ts == ['d%d' % i for i in range(n)]:
                return '%s is not reported as the identity' % s
        ob('%s: traits' % s, traits, 'isIdentity')

        def inv(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            g = c.ptr(c.call(f, 'inverse'))
            if b2(c, c.call(f, 'isInvertible')) != (g is not None):
                return '%s: isInvertible() disagrees with the existence of inverse()' % s
            if (n, ts) in ROTO and len(ts) == n and sorted(x for x in map(used, ts) if x is not None) == list(range(n)) \
                    and g is None:
                return '%s has no inverse' % s
            if g is None:
                return
            x = c.pt('x', n)
            e = c.maps_to(g, c.values(ts, x), x, 'the inverse of %s' % s)
            if e:
                return e
            if lib.V(c.call(g, 'getNumOfDims')) != len(ts):
                return '%s: the inverse has %r dimensions' % (s, lib.V(c.call(g, 'getNumOfDims')))
        ob('%s: inverse' % s, inv, 'inverse')

    # ---- images of sets
    for n, ts in ROTO + KONST:
        if not n:
            continue
        s = show(n, ts)
        for nb in ((1, 2) if n < 3 else (1,)):
            def image(c, n=n, ts=ts, s=s, nb=nb):
                f = c.build(n, ts)
                bs = [c.box('A%d' % i, n) for i in range(nb)]
                r = lib.V(c.call(f, 'map', c.set_of(bs), pred=SETM))

                def want(p):
                    for b in bs:
                        ds = c.dims(b)
                        ok = True
                        for q, t in zip(p, ts):
                            i = used(t)
                            if i is None:
                                if not c.test('==', q, c.value(t, None)):
                                    ok = False
                                    break
                            else:
                                off = c.value(t, [0] * n)
                                if not c.in_range(c.I.binop('-', q, off), ds[i]):
                                    ok = False
                                    break
                        if ok:
                            return True
                    return False
                return holds(c, r, want, len(ts), 'image of %s under %s' % (', '.join(map(c.show, bs)), s), False)
            ob('%s: image of %d boxes' % (s, nb), image)

    for n, ts in DIAG + GENERAL:
        s = show(n, ts)

        def image(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x = c.pt('x', n)
            wide = c.mkbox([c.mkrange(a, c.I.binop('+', a, 2 if i == 0 else 1)) for i, a in enumerate(x)])
            x2 = [c.I.binop('+', x[0], 1)] + x[1:]
            r = lib.V(c.call(f, 'map', c.set_of([wide]), pred=SETM))
            im = [c.values(ts, q) for q in (x, x2)]
            return holds(c, r, lambda p: any(c.same(p, q) for q in im), len(ts), 'image of two points under %s' % s, False)
        ob('%s: image of a box of two points' % s, image, limit=60000)

        def two(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x, y = c.pt('x', n), c.pt('y', n)
            r = lib.V(c.call(f, 'map', c.set_of([c.cell(x), c.cell(y)]), pred=SETM))
            im = [c.values(ts, q) for q in (x, y)]
            return holds(c, r, lambda p: any(c.same(p, q) for q in im), len(ts), 'image of two points under %s' % s, False)
        if thorough or (n, ts) in DIAG[:1] + GENERAL[2:3]:
            ob('%s: image of two points' % s, two, limit=60000)

    # ---- inverse images
    for n, ts in ROTO:
        s = show(n, ts)
        for nb in (1, 2):
            if n > 2 and nb > 1 and not thorough:
                continue

            def inverse(c, n=n, ts=ts, s=s, nb=nb):
                f = c.build(n, ts)
                q = c.box('Q', n)
                par = [c.box('P', n)]
                for a, b in zip(c.dims(q), c.dims(par[0])):
                    (x, y), (u, v) = c.ends(a), c.ends(b)
                    c.assume('<=', u, x)
                    c.assume('<=', y, v)
                if nb > 1:
                    par.append(c.box('R', n))
                acc = []
                for t in ts:
                    i = used(t)
                    if i is None:
                        k = c.value(t, None)
                        acc.append(c.mkrange(k, c.I.binop('+', k, 1)))
                    else:
                        lo, hi = c.ends(c.dims(q)[i])
                        off = c.value(t, [0] * n)
                        acc.append(c.mkrange(c.I.binop('+', lo, off), c.I.binop('+', hi, off)))
                inside = union(c, par)
                qs = c.dims(q)
                us = {used(t) for t in ts} - {None}
                r = lib.V(c.call(f, 'inverseMap', c.set_of([c.mkbox(acc)]), c.set_of(par)))
                return holds(c, r, lambda p: inside(p) and all(c.in_range(p[i], qs[i]) for i in us), n,
                             'inverse image under %s of %s within %s' % (s, c.show(c.mkbox(acc)),
                                                                        ', '.join(map(c.show, par))), False)
            if nb > 1 and len({used(t) for t in ts} - {None}) == n == len(ts):
                # the preimages are computed without the parent: covered by one box and by the precondition
                pass
            ob('%s: inverse image, %d parent boxes' % (s, nb), inverse, 'inverseMap', limit=60000)

    for n, ts in DIAG + GENERAL + KONST:
        if not n:
            continue
        s = show(n, ts)

        def inverse(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x, y = c.pt('x', n), c.pt('y', n)
            u, v = c.values(ts, x), c.values(ts, y)
            r = lib.V(c.call(f, 'inverseMap', c.set_of([c.cell(u)]), c.set_of([c.cell(x), c.cell(y)])))
            hit = c.same(u, v)
            return holds(c, r, lambda p: c.same(p, x) or hit and c.same(p, y), n,
                         'inverse image under %s of the image of one of two points' % s, False)
        ob('%s: inverse image of a point' % s, inverse, 'inverseMap', limit=60000)

        def none(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x = c.pt('x', n)
            r = lib.V(c.call(f, 'inverseMap', c.I.default_construct(S), c.set_of([c.cell(x)])))
            if not b2(c, c.call(r, 'empty')):
                return 'inverse image of nothing under %s is not empty' % s
        ob('%s: inverse image of nothing' % s, none, 'inverseMap')

    # ---- combination
    fs = ROTO[:10] + DIAG[:2] + KONST[:2] + GENERAL[:6]
    for n, ts in fs:
        for m, us in ROTO[:10] + KONST[:2] + DIAG[:1] + GENERAL[:6]:
            if m > len(ts):
                continue
            us = [ren(u) for u in us]

            def comb(c, n=n, ts=ts, m=m, us=us):
                f, g = c.build(n, ts), c.build(m, us)
                h = c.ptr(c.call(f, 'combine', g))
                x = c.pt('x', n)
                want = c.values(us, c.values(ts, x))
                e = c.maps_to(h, x, want, '%s combined with %s' % (show(n, ts), show(m, us)))
                if e:
                    return e
                if lib.V(c.call(h, 'getNumOfDims')) != n:
                    return '%s combined with %s has %r dimensions' % (show(n, ts), show(m, us), lib.V(c.call(h, 'getNumOfDims')))
            ob('%s combined with %s' % (show(n, ts), show(m, us)), comb, 'combine')

    # ---- equality
    eqs = ROTO[:9] + DIAG + KONST[:2] + GENERAL[:8]
    for i, (n, ts) in enumerate(eqs):
        for m, us in eqs[i:]:
            us = [ren(u) for u in us]

            def eq(c, n=n, ts=ts, m=m, us=us):
                f, g = c.build(n, ts), c.build(m, us)
                e = b2(c, c.call(f, 'operator==', g, pred=BASEEQ))
                if b2(c, c.call(f, 'operator!=', g, pred=BASEEQ)) == e:
                    return '== and != agree on %s and %s' % (show(n, ts), show(m, us))
                if e:
                    if n != m or len(ts) != len(us):
                        return '%s equals %s' % (show(n, ts), show(m, us))
                    x = c.pt('x', n)
                    if not c.same(c.values(ts, x), c.values(us, x)):
                        return '%s equals %s but maps a point elsewhere' % (show(n, ts), show(m, us))
            ob('%s == %s' % (show(n, ts), show(m, us)), eq, 'operator==')

    # ---- dimension accesses by themselves
    DM = lambda m: len(m['p']) == 2 and 'Point' in m['p'][0]['t']
    EXT = lambda m: len(m['p']) == 2
    PURE = lambda m: not m['p']
    BASE = lambda m: m['p'][0]['t'].split('::')[-1].startswith('DimensionAccess &')

    def dmap(c, d, x):
        return lib.V(c.call(d, 'map', c.point(x), lib.MapV(), pred=DM))

    def dob(key, body, name='map'):
        ob(key, body, name, kind='dimension')

    for i, t in enumerate(DIMS):
        s = show(2, [t])[len('(d0, d1) -> '):]

        def one(c, t=t, s=s):
            d = c.dim(t)
            x = c.pt('x', 2)
            want = c.value(t, x)
            e = holds(c, dmap(c, d, x), lambda p: c.same(p, [want]), 1, '%s on a point' % s, False)
            if e:
                return e
            g = c.ptr(c.call(d, 'clone'))
            if not b2(c, c.call(d, 'operator==', g, pred=BASE)) or b2(c, c.call(d, 'operator!=', g, pred=BASE)):
                return '%s differs from its clone' % s
            e = holds(c, dmap(c, g, x), lambda p: c.same(p, [want]), 1, 'a clone of %s' % s, False)
            if e:
                return e
            if b2(c, c.call(d, 'isConstant')) and not c.test('==', want, c.value(t, c.pt('y', 2))):
                return '%s is reported as constant' % s
        dob('%s: value' % s, one)

        def aff(c, t=t, s=s):
            d = c.dim(t)
            x = c.pt('x', 2)
            want = c.value(t, x)
            e = lib.V(c.call(d, 'getAffineExpr', 2, lib.MapV(), pred=EXT))
            if not c.test('==', c.A.eval(e, x), want):
                return '%s has the extended affine expression %r' % (s, e)
            if b2(c, c.call(d, 'isAffine')):
                e = lib.V(c.call(d, 'getAffineExpr', pred=PURE))
                if not c.test('==', c.A.eval(e, x), want):
                    return '%s has the affine expression %r' % (s, e)
        for u in DIMS:
            def assign(c, t=t, u=u, s=s):
                a, b = c.dim(ren(u)), c.dim(t)
                if a.cls != b.cls or not c.assign(a, b):
                    return
                x = c.pt('x', 2)
                want = c.value(t, x)
                for o, w in ((a, 'the assigned access'), (b, 'the source of an assignment')):
                    e = holds(c, dmap(c, o, x), lambda p: c.same(p, [want]), 1, '%s: %s' % (s, w), False)
                    if e:
                        return e
                if not b2(c, c.call(a, 'operator==', b, pred=BASE)):
                    return '%s: the assigned access differs' % s
            if kindof(t) == kindof(u) and t != u:
                dob('%s := %s' % (show(2, [u])[len('(d0, d1) -> '):], s), assign, 'operator=')
        if not (isinstance(t, tuple) and t[0] == '*' and all(isinstance(u, str) and u[0] == 'd' for u in t[1:])):
            dob('%s: affine expression' % s, aff, 'getAffineExpr')

        for u in DIMS[i:]:
            v = show(2, [u])[len('(d0, d1) -> '):]

            def eq(c, t=t, u=u, s=s, v=v):
                a, b = c.dim(t), c.dim(ren(u))
                e = b2(c, c.call(a, 'operator==', b, pred=BASE))
                if b2(c, c.call(a, 'operator!=', b, pred=BASE)) == e:
                    return '== and != agree on %s and %s' % (s, v)
                if e:
                    x = c.pt('x', 2)
                    if not c.test('==', c.value(t, x), c.value(ren(u), x)):
                        return '%s equals %s but maps a point elsewhere' % (s, v)
            dob('%s == %s' % (s, v), eq, 'operator==')

    for op in '+-*/':
        for t, u in (('d0', 2), ('d1', 3), (('+', 'd0', 'k'), 2), ('d0', 'd1'), ('k', 2)):
            if op == '/' and u == 'd1':
                continue

            def arith(c, op=op, t=t, u=u):
                a, b = c.dim(t), c.dim(u)
                r = c.ptr(c.call(a, 'operator' + op, b, pred=BASE))
                x = c.pt('x', 2)
                want = c.value((op, t, u), x)
                return holds(c, dmap(c, r, x), lambda p: c.same(p, [want]), 1, '%s %s %s' % (t, op, u), False)
            dob('%s %s %s' % (t, op, u), arith, 'operator' + op)

    # ---- multi-valued accesses
    for n, ts in MULTI:
        s = show(n, ts)

        def point(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x = c.pt('x', n)
            want = lambda p: c.members(ts, x, p)
            e = holds(c, lib.V(c.apply(f, x)), want, len(ts), '%s on a point' % s, False)
            if e:
                return e
            if lib.V(c.call(f, 'getNumOfDims')) != n or lib.V(c.call(f, 'getNumOfResults')) != len(ts):
                return '%s: wrong number of dimensions or results' % s
            g = c.ptr(c.call(f, 'clone'))
            if not b2(c, c.call(f, 'operator==', g, pred=BASEEQ)):
                return '%s differs from its clone' % s
            return holds(c, lib.V(c.apply(g, x)), want, len(ts), 'a clone of %s' % s, False)
        ob('%s: point' % s, point, kind='multi')

        def assigned(c, n=n, ts=ts, s=s):
            f, g = c.build(2, ['d1', R_, ('*', 'd0', 'd1')]), c.build(n, ts)
            if f.cls != g.cls or not c.assign(f, g):
                return
            x = c.pt('x', n)
            want = lambda p: c.members(ts, x, p)
            for o, w in ((f, 'assigned'), (g, 'the source of an assignment')):
                e = holds(c, lib.V(c.apply(o, x)), want, len(ts), '%s, %s' % (s, w), False)
                if e:
                    return e
                if lib.V(c.call(o, 'getNumOfDims')) != n or lib.V(c.call(o, 'getNumOfResults')) != len(ts):
                    return '%s, %s: wrong number of dimensions or results' % (s, w)
        ob('%s: assigned' % s, assigned, 'operator=', kind='multi')

        def image(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            x, y = c.pt('x', n), c.pt('y', n)
            r = lib.V(c.call(f, 'map', c.set_of([c.cell(x), c.cell(y)]), pred=SETM))
            return holds(c, r, lambda p: c.members(ts, x, p) or c.members(ts, y, p), len(ts),
                         'image of two points under %s' % s, False)
        if n and not any(isinstance(t, tuple) and t[0] in OPS and any(isinstance(u, tuple) for u in t[1:]) for t in ts):
            ob('%s: image of two points' % s, image, kind='multi')

        def dims(c, n=n, ts=ts, s=s):
            f = c.build(n, ts)
            k = c.ptr(c.call(f, 'getWithGivenDimensions', n + 1))
            if lib.V(c.call(k, 'getNumOfDims')) != n + 1:
                return '%s: one more dimension requested, %r obtained' % (s, lib.V(c.call(k, 'getNumOfDims')))
            x = c.pt('x', n + 1)
            return holds(c, lib.V(c.apply(k, x)), lambda p: c.members(ts, x, p), len(ts),
                         '%s with one more dimension' % s, False)
        ob('%s: dimensions' % s, dims, 'getWithGivenDimensions', kind='multi')

    for (n, ts), (m, us) in COMBOS:
        s = '%s combined with %s' % (show(n, ts), show(m, us))

        def comb(c, n=n, ts=ts, m=m, us=us, s=s):
            f, g = c.build(n, ts), c.build(m, us)
            h = c.ptr(c.call(f, 'combine', g))
            if lib.V(c.call(h, 'getNumOfDims')) != n:
                return '%s has %r dimensions' % (s, lib.V(c.call(h, 'getNumOfDims')))
            x = c.pt('x', n)
            vs = [subst(u, ts) for u in us]
            return holds(c, lib.V(c.apply(h, x)), lambda p: c.members(vs, x, p), len(us), s, False)
        ob(s, comb, 'combine', kind='multi')

    for i, (n, ts) in enumerate(MULTI):
        for m, us in MULTI[i + 1:]:
            def eq(c, n=n, ts=ts, m=m, us=us):
                f, g = c.build(n, ts), c.build(m, us)
                if b2(c, c.call(f, 'operator==', g, pred=BASEEQ)):
                    if n != m or len(ts) != len(us):
                        return '%s equals %s' % (show(n, ts), show(m, us))
                    x = c.pt('x', n)

                    def differ():
                        p = c.pt('p', len(ts))
                        if c.members(ts, x, p) != c.members(us, x, p):
                            return '%s equals %s but maps a point elsewhere' % (show(n, ts), show(m, us))
                    return c.forall(differ)
            ob('%s == %s' % (show(n, ts), show(m, us)), eq, 'operator==', kind='multi')
    return T


def subst(u, ts):
    if isinstance(u, str) and u[0] == 'd':
        return ts[int(u[1:])]
    if isinstance(u, tuple) and u[0] in OPS:
        return (u[0], subst(u[1], ts), subst(u[2], ts))
    return u


DIMS = ['d0', 'd1', 'k', 3, ('+', 'd0', 'k'), ('+', 'd0', 'd1'), ('-', 'd0', 'd1'), ('-', 'd0', 'k'), ('-', 'd1', 'd0'),
        ('-', 'k', 'd0'), ('*', 'd0', 2), ('*', 2, 'd1'), ('*', 'd0', 'd1'), ('/', 'd0', 2), ('/', 'd0', 3), ('/', 'd1', 2),
        ('*', ('+', 'd0', 'k'), 3), ('/', ('-', 'd0', 'd1'), 2), ('+', ('*', 'd0', 2), ('/', 'd1', 2))]
R_, R2 = ('range', 'R'), ('range', 'Q')
MULTI = [(1, [R_]), (1, [R_, 'd0']), (1, [('+', 'd0', 'k'), R_]), (2, [R_, R2]), (1, ['c', R_]), (2, [R_, 'd1']),
         (1, [('in', 'S1', 0)]), (1, [('in', 'S2', 1), 'd0']), (1, [('in', 'S2', 0), ('in', 'S2', 1)]),
         (1, [('in', 'T2', 0, [1]), ('in', 'T2', 1, [0])]), (1, [('in', 'T2', 0, [1]), ('+', 'd0', 'k'), ('in', 'T2', 1, [0])]),
         (1, [('in', 'T2', 0), ('in', 'T2', 1)]), (2, [('in', 'T2', 1, [0]), ('in', 'T2', 0, [1])]),
         (1, [('in', 'T1', 0, [0]), 'd0']), (1, [('+', ('in', 'T1', 0, [0]), 'k'), 'd0']),
         (1, [('in', 'T2', 0, [1]), ('in', 'T2', 1, [0]), ('in', 'T1', 0, [0])]),
         (1, [('+', 'd0', ('in', 'T1', 0, [0]))]), (2, ['d1', ('-', ('in', 'T1', 0, [0]), 'd0')]),
         (1, [('+', 'd0', ('in', 'T2', 0, [1])), ('in', 'T2', 1, [0])])]
COMBOS = [((1, ['d0']), (1, [R_])), ((1, [R_]), (1, ['d0'])), ((1, [('+', 'd0', 'k')]), (1, ['d0', R_])),
          ((1, [R_, 'd0']), (2, ['d1', 'd0'])), ((1, [R_, 'd0']), (2, ['d1'])), ((1, [R_, 'd0']), (2, ['d0'])),
          ((1, [R_]), (1, [R2])), ((1, [R_]), (1, ['d0', R2])), ((1, [R_, 'd0']), (2, ['d1', R2, 'd0'])),
          ((2, ['d1', R_]), (2, [('+', 'd0', 'k'), 'd1'])), ((1, ['c']), (1, [R_])), ((1, ['c']), (1, ['d0', R_])),
          ((1, [R_]), (1, ['c'])), ((1, [('in', 'S1', 0)]), (1, ['d0'])), ((1, ['d0', R_]), (2, ['d1', ('in', 'S1', 0), 'd0'])),
          ((1, [('in', 'T2', 0, [1]), ('in', 'T2', 1, [0])]), (2, ['d1', 'd0'])),
          ((2, ['d0', 'd1']), (1, [R_, 'd0'])), ((2, ['d1', R_, 'd0']), (3, ['d2', 'd1']))]


def kindof(t):
    return t[0] if isinstance(t, tuple) else 'd' if isinstance(t, str) and t[0] == 'd' else 'k'


def ren(t):
    """Rename the constants of the second function."""
    if isinstance(t, tuple):
        return (t[0], ren(t[1]), ren(t[2])) if t[0] in OPS else t
    if isinstance(t, str) and t[0] != 'd':
        return t + "'"
    return t


BASEEQ = lambda m: m['p'][0]['t'].split('::')[-1].startswith('AccessFunction &')
