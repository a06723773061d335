"""Matching of array equations and variables (C18).

The matching graph is interpreted on variables and equations known only through
their traits.  Undirected graphs, incidence matrices, local matching solutions,
index sets and access functions answer by their contracts (decided by C08, C13,
C14, C15); the points are opaque, hence each scene stands for all placements of
the indices having that incidence."""
import itertools
from .scheduling import *
from .scheduling import Hooks as SchedHooks, VERTEX, LOCKS
from .incidence import Val, conv
from sa.interp import Infeasible, UNINIT

MT = MI + 'matching::'
UG = (MI + 'UndirectedGraph<', MI + 'Graph<' + MI + 'UndirectedGraph<')
EDGE = MI + 'impl::EdgeDescriptor<'
MTRAIT = re.compile(re.escape(NS) + r'matching::(Variable|Equation)Traits<ctl::')


def matching_program():
    if 'm' not in _g:
        import os
        _g['m'] = Program([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'controls/matching.cpp')]
                          + srcs('lib/Modeling/Matching.cpp'))
    return _g['m']


_g = {}


class UGraphV:
    """An undirected graph: vertices, edges and their properties."""
    lib_boxed = True

    def __init__(self):
        self.props = []
        self.edges = []
        self.lists = {}

    def seq(self, key, vals):
        key = (key, tuple(vals))
        if key not in self.lists:
            self.lists[key] = ListV(list(vals))
        return self.lists[key]


class EDV(Val):
    """An edge of an undirected graph, seen from one of its ends."""
    __slots__ = ('g', 'i', 'flip')

    def __init__(self, g, i, flip):
        self.g, self.i, self.flip = g, i, flip

    def __eq__(self, o):
        return type(o) is EDV and self.g is o.g and (self.i, self.flip) == (o.i, o.flip)

    def __hash__(self):
        return hash((id(self.g), self.i, self.flip))

    def __repr__(self):
        return 'e%d' % self.i

    def end(self, to):
        a, b, c = self.g.edges[self.i]
        return VD(self.g, b if to != self.flip else a)


class MatV(Val):
    """An incidence matrix: its spaces and the pairs it holds."""
    __slots__ = ('E', 'W', 'p')

    def __init__(self, E, W, p=()):
        self.E, self.W, self.p = E, W, frozenset(p)

    def __eq__(self, o):
        return type(o) is MatV and (self.E, self.W, self.p) == (o.E, o.W, o.p)

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'matrix %s' % sorted(self.p, key=repr)

    def within(self, E, W):
        return MatV(E, W, [(e, v) for e, v in self.p if e in E.p and v in W.p])


SOLS = MI + 'LocalMatchingSolutions'


def solutions(m, mode):
    """One-to-one parts of a matrix that together make it up."""
    left = sorted(m.p, key=repr, reverse=mode['rev'])
    out = []
    if mode['merge'] == 0:
        out = [[x] for x in left]
    else:
        # diagonals: each is extended as far as possible
        todo = list(left)
        while todo:
            s = [todo[0]]
            for x in (left if mode['merge'] == 2 else todo):
                if all(x[0] != y[0] and x[1] != y[1] for y in s):
                    s.append(x)
            out.append(s)
            todo = [x for x in todo if x not in s]
    return [MatV(m.E, m.W, s) for s in out]


class MatchHooks(SchedHooks):
    def get(self, c, d=None):
        if c == MI + 'MCIM':
            return matrix_ctor
        if c == SOLS:
            return lambda I, e: I.copyless(e)
        if c.startswith(UG):
            return lambda I, e: UGraphV()
        if c.startswith(EDGE):
            return lambda I, e: lib.V(I.ev(e['a'][0])) if e['a'] else UNINIT
        return super().get(c, d)


def matrix_ctor(I, e):
    a = [lib.V(I.ev(x)) for x in e['a']]
    if len(a) == 1 and isinstance(a[0], MatV):
        return a[0]
    s = [lib.V(x.p) if isinstance(x, UPtr) else x for x in a]
    return MatV(conv(I, s[0]), conv(I, s[1]))


class MatchInterp(SchedInterp):
    def __init__(self, P, scene, o=None, mode=None):
        super().__init__(P, scene, o, mode)
        self.ctor_hooks = MatchHooks()
        self.buckets = {}

    def copyless(self, e):
        v = lib.V(self.ev(e['a'][0]))
        if isinstance(v, ListV):
            return v
        return super().copyless(e)

    def default_construct(self, t):
        b = base_type(t)
        if not t.endswith('*'):
            if b.startswith(UG):
                return UGraphV()
            if b.startswith(EDGE):
                return UNINIT
        return super().default_construct(t)

    def truth(self, v, node=None):
        return True if isinstance(v, UGraphV) else super().truth(v, node)

    def deref(self, v, node=None):
        return Cell(v) if isinstance(v, UGraphV) else super().deref(v, node)

    def keyof(self, v):
        while isinstance(v, Cell):
            v = v.v
        if isinstance(v, Obj):
            info = 'llvm::DenseMapInfo<%s, void>::' % v.cls
            h, e = self.P.by_name.get(info + 'getHashValue'), self.P.by_name.get(info + 'isEqual')
            if h and e:
                b = self.buckets.setdefault((v.cls, lib.V(self.call_fn(h[0], None, [Cell(v)]))), [])
                for i, o in enumerate(b):
                    if self.truth(lib.V(self.call_fn(e[0], None, [Cell(v), Cell(o)]))):
                        break
                else:
                    i = len(b)
                    b.append(self.copy(v))
                return ('key', id(b), i)
        return super().keyof(v)

    def same(self, x, y):
        if isinstance(x, EDV) and isinstance(y, EDV):
            return x == y
        return super().same(x, y)

    def member(self, b, e):
        v = b
        while isinstance(v, (Cell, UPtr)):
            v = v.v if isinstance(v, Cell) else v.p
        if isinstance(v, EDV):
            if e['f'] in ('from', 'to'):
                return Cell(v.end(e['f'] == 'to'))
            raise Unsupported('member %s of an edge at %s' % (e['f'], self.where()))
        return super().member(b, e)

    def call(self, n):
        fn = n.get('fn') or ''
        m = MTRAIT.match(fn)
        if m:
            return self.scene.trait(self, m.group(1), short(fn), [lib.V(self.ev(a)) for a in n['a']])
        nm = short(fn)
        if fn.startswith('mlir::failableParallelForEach'):
            return self.parallel(n, 'parallelForEach', True)
        if fn.startswith(('llvm::', 'mlir::')):
            if nm in ('succeeded', 'failed') and len(n['a']) == 1:
                return self.succeeded(lib.V(self.ev(n['a'][0]))) == (nm == 'succeeded')
            if nm in ('success', 'failure'):
                a = [x for x in n['a'] if x.get('k') != 'defarg']
                b = self.truth(lib.V(self.ev(a[0]))) if a else True
                return b == (nm == 'success')
        if fn == MI + 'solveLocalMatchingProblem' and len(n['a']) == 1:
            m = lib.V(self.ev(n['a'][0]))
            return ListV(solutions(m, self.mode), SOLS)
        if 'obj' in n:
            cls = fn.rsplit('::', 1)[0]
            if cls.startswith((EDGE, MI + 'MCIM', SOLS) + UG):
                n = self.once_obj(n)
                o = lib.V(self.ev(n['obj']))
                self.line = n.get('l', self.line)
                if o is None:
                    raise Trap('%s called on a null pointer' % fn)
                if isinstance(o, UGraphV):
                    return self.m_ugraph(n, o, nm)
                if isinstance(o, MatV):
                    return self.m_matrix(n, o, nm)
                if isinstance(o, ListV) and cls == SOLS:
                    return self.m_sols(n, o, nm)
                if cls.startswith(EDGE):
                    x = lib.V(self.ev(n['a'][0])) if n['a'] else None
                    if nm == 'operator=':
                        c = self.lval(n['obj'])
                        c.v = x
                        return c
                    if nm in ('operator==', 'operator!='):
                        return (o == x) == (nm == 'operator==')
                raise Unsupported('%s at %s' % (fn, self.where()))
        return super().call(n)

    def parallel(self, n, nm, failable=False):
        if not failable:
            return super().parallel(n, nm)
        a = n['a'][1:]
        items = lib.cells(self, self.ev(a[0])) if len(a) == 2 else \
            lib.cells_between(self, lib.V(self.ev(a[0])), lib.V(self.ev(a[1])))
        f = lib.V(self.ev(a[-1]))
        for c in self.order(items):
            r = lib.V(self.invoke(f, [c]))
            if not self.succeeded(r):
                return r
        return self.success()

    def succeeded(self, r):
        if isinstance(r, Tok) and r.name[0] == 'result':
            return r.name[1]
        if isinstance(r, bool):
            return r
        raise Unsupported('result %r at %s' % (r, self.where()))

    def success(self):
        return True

    # ------------------------------------------------------------ contracts
    def own(self, g, v):
        if v is UNINIT or not isinstance(v, (VD, EDV)):
            raise Trap('an uninitialised descriptor is used at %s' % self.where())
        if v.g is not g:
            raise Trap('a descriptor of another graph is used at %s' % self.where())

    def m_ugraph(self, n, g, nm):
        a = n['a']
        if nm == 'addVertex':
            g.props.append(Cell(lib.take(self, a[0])))
            return VD(g, len(g.props) - 1)
        if nm == 'addEdge':
            x, y = lib.V(self.ev(a[0])), lib.V(self.ev(a[1]))
            self.own(g, x)
            self.own(g, y)
            g.edges.append((x.i, y.i, Cell(lib.take(self, a[2]))))
            return EDV(g, len(g.edges) - 1, False)
        if nm == 'operator[]':
            x = lib.V(self.ev(a[0]))
            self.own(g, x)
            return g.props[x.i] if isinstance(x, VD) else g.edges[x.i][2]
        if nm == 'verticesCount':
            return len(g.props)
        if nm == 'edgesCount':
            return len(g.edges)
        begin = nm.endswith('Begin')
        if nm.endswith(('Begin', 'End')):
            kind = nm[:-5] if begin else nm[:-3]
            a = [x for x in a if x.get('k') != 'defarg']
            at = 0
            if kind in ('outgoingEdges', 'linkedVertices'):
                v = lib.V(self.ev(a[0]))
                self.own(g, v)
                l = [EDV(g, i, e[0] != v.i) for i, e in enumerate(g.edges) if v.i in e[:2]]
                if kind == 'linkedVertices':
                    l = [e.end(True) for e in l]
                at = 1
            elif kind == 'vertices':
                l = [VD(g, i) for i in range(len(g.props))]
            elif kind == 'edges':
                l = [EDV(g, i, self.mode['rev']) for i in range(len(g.edges))]
            else:
                raise Unsupported('%s at %s' % (n['fn'], self.where()))
            if len(a) > at:
                f = lib.V(self.ev(a[at]))
                l = [x for x in l if self.truth(lib.V(self.invoke(f, [g.props[x.i] if isinstance(x, VD) else g.edges[x.i][2]])))]
            l = g.seq(kind, l)
            return IterV(l, 0 if begin else len(l.items))
        raise Unsupported('%s at %s' % (n['fn'], self.where()))

    def m_matrix(self, n, o, nm):
        a = [lib.V(self.ev(x)) for x in n['a'] if x.get('k') != 'defarg']
        a = [lib.V(x.p) if isinstance(x, UPtr) else x for x in a]

        def put(v):
            c = self.lval(n['obj'])
            c.v = v
            return c
        if nm == 'operator=':
            return put(a[0])
        if nm in ('operator==', 'operator!='):
            return (o.p == a[0].p) == (nm == 'operator==')
        if nm == 'getEquationSpace':
            return o.E
        if nm == 'getVariableSpace':
            return o.W
        if nm == 'setEquationSpace':
            return put(o.within(a[0], o.W))
        if nm == 'setVariableSpace':
            return put(o.within(o.E, a[0]))
        if nm in ('setSpaces', 'withSpace'):
            r = o.within(a[0], a[1])
            return put(r) if nm == 'setSpaces' else r
        if nm in ('operator+=', 'operator-=', 'operator+', 'operator-'):
            r = MatV(o.E, o.W, o.p | a[0].p if '+' in nm else o.p - a[0].p)
            return put(r) if nm.endswith('=') else r
        if nm == 'apply':
            if len(a) == 2 and not conv(self, a[0]).p <= o.E.p:
                raise Trap('an access is applied to indices out of the equations at %s' % self.where())
            es = conv(self, a[0]).p if len(a) == 2 else o.E.p
            return put(MatV(o.E, o.W, o.p | {(e, v) for e in es for v in a[-1].at(e) if v in o.W.p}))
        if nm in ('get', 'set', 'unset'):
            k = (point(self, a[0]).c, point(self, a[1]).c)
            if k[0] not in o.E.p or k[1] not in o.W.p:
                raise Trap('a pair out of the spaces of the matrix at %s' % self.where())
            if nm == 'get':
                return k in o.p
            return put(MatV(o.E, o.W, o.p | {k} if nm == 'set' else o.p - {k}))
        if nm == 'empty':
            return not o.p
        if nm == 'clear':
            return put(MatV(o.E, o.W))
        if nm == 'flattenRows':
            return SetV(v for e, v in o.p)
        if nm == 'flattenColumns':
            return SetV(e for e, v in o.p)
        if nm in ('filterRows', 'filterColumns'):
            s = conv(self, a[0]).p
            return MatV(o.E, o.W, [x for x in o.p if x[nm == 'filterColumns'] in s])
        raise Unsupported('%s at %s' % (n['fn'], self.where()))

    def m_sols(self, n, o, nm):
        if nm == 'size':
            return len(o.items)
        if nm in ('begin', 'end'):
            return IterV(o, 0 if nm == 'begin' else len(o.items))
        if nm == 'operator[]':
            return self.elem(o, lib.V(self.ev(n['a'][0])), n)
        raise Unsupported('%s at %s' % (n['fn'], self.where()))

    def contract(self, n, o, nm):
        if isinstance(o, MatV):
            return self.m_matrix(n, o, nm)
        return super().contract(n, o, nm)


# ---------------------------------------------------------------- scenes
class MScene:
    """Variables: name -> points; equations: name -> (points, accesses), an
    access being (variable, function)."""

    def __init__(self, vs, es):
        self.vs, self.es = vs, es

    def trait(self, I, kind, nm, a):
        x = a[0]
        while isinstance(x, Cell):
            x = x.v
        if not isinstance(x, Name):
            raise Unsupported('trait of %r at %s' % (x, I.where()))
        if nm == 'getId':
            return x
        sp = self.vs[x.n] if kind == 'Variable' else self.es[x.n][0]
        if nm in ('getRank', 'getNumOfIterationVars'):
            return len(sp[0])
        if nm == 'getIndices':
            return SetV(sp)
        if nm == 'getAccesses':
            return ListV([self.access(I, v, f) for v, f in self.es[x.n][1]], 'std::vector<%s>' % MACCESS)
        if nm == 'dump':
            return a[1]
        raise Unsupported('trait %s at %s' % (nm, I.where()))

    def access(self, I, v, f):
        if MACCESS not in I.P.rec:
            raise AnalysisBroken('class %s' % MACCESS)
        o = Obj(MACCESS)
        for c, fl in I.P.fields(o.cls):
            t = fl['t']
            o.f[c + '::' + fl['n']] = Cell(UPtr(f) if 'unique_ptr' in t else Name(v) if t.endswith('*') else I.default_construct(t))
        return o

    def pairs(self):
        return {((q, e), (v, p)) for q, (es, acc) in self.es.items() for e in es for v, f in acc if v in self.vs
                for p in f.at(e) if p in self.vs[v]}


MACCESS = NS + 'matching::Access<ctl::Var *>'


def perfect(left, right, pairs):
    """A one-to-one assignment of all of left to all of right within pairs?"""
    if len(left) != len(right):
        return False
    to = {}

    def go(a, seen):
        for b in right:
            if (a, b) in pairs and b not in seen:
                seen.add(b)
                if b not in to or go(to[b], seen):
                    to[b] = a
                    return True
        return False
    return all(go(a, set()) for a in left)


def named(P, n):
    fs = P.by_name.get('ctl::' + n, [])
    if len(fs) != 1:
        raise AnalysisBroken('ctl::' + n)
    return fs[0]


def match_once(P, sc, opts, mode, o=None):
    """A complaint about the result of the matching, or None."""
    I = MatchInterp(P, sc, o, mode)
    out = ListV([], 'llvm::SmallVector<%s>' % RESULT)
    r = lib.V(I.call_fn(named(P, 'solve'), None, [
        Cell(Tok('context')), Cell(ListV([Name(v) for v in sc.vs], 'llvm::ArrayRef<ctl::Var *>')),
        Cell(ListV([Name(e) for e in sc.es], 'llvm::ArrayRef<ctl::Eq *>')), Cell(out)] + [Cell(x) for x in opts]))
    r = I.truth(r)
    ps = sc.pairs()
    L = [(q, e) for q, (es, acc) in sc.es.items() for e in es]
    R = [(v, p) for v, pts in sc.vs.items() for p in pts]
    want = perfect(L, R, ps)
    if r != want:
        return 'the matching %s although %s matches every equation and variable' % (
            'succeeds' if r else 'fails', 'a choice of accesses' if want else 'no choice of accesses')
    if not r:
        return None
    gotL, gotR = [], []
    for c in out.vals:
        q, ei, v, vi = [lib.V(lib.user_op(I, c, g, 0)) for g in ('getEquation', 'getEquationIndices', 'getVariable', 'getVariableIndices')]
        l, rr = [(q.n, e) for e in ei.p], [(v.n, p) for p in vi.p]
        if not perfect(l, rr, ps):
            return 'the indices %s of %s are matched with the indices %s of %s, to which they have no one-to-one access' % (ei, q.n, vi, v.n)
        gotL += l
        gotR += rr
    if sorted(map(repr, gotL)) != sorted(map(repr, L)):
        return 'the equations matched are %s' % sorted(gotL, key=repr)
    if sorted(map(repr, gotR)) != sorted(map(repr, R)):
        return 'the variables matched are %s' % sorted(gotR, key=repr)
    return None


RESULT = MI + 'matching::result::MatchingSolution<ctl::Eq *, ctl::Var *>'


# ---------------------------------------------------------------- scenes of C18
OPTS = [(leaves, scalar, t) for leaves in (False, True) for scalar, t in ((False, 0.5), (True, 0.0), (True, 0.4), (True, 1.0))]


def pts(n):
    return tuple(('p%d' % i,) for i in range(n))


def fn(kind, ne, nv):
    """An access of ne indices of an equation to nv indices of a variable."""
    E = pts(ne)
    if kind.startswith('const'):
        c = ('p%d' % (int(kind[5:]) % nv),)
        return FnA(kind, {e: frozenset([c]) for e in E}, 'const')
    f = {'same': lambda i: i, 'next': lambda i: (i + 1) % max(ne, nv), 'back': lambda i: ne - 1 - i, 'far': lambda i: i + 1,
         'fold': lambda i: i // 2}[kind]
    return FnA(kind, {e: frozenset([('p%d' % f(i),)]) for i, e in enumerate(E)}, 'generic' if kind in ('back', 'fold') else 'roto')


def describe(sc):
    return '%s; %s' % (' '.join('%s:%d' % (v, len(p)) for v, p in sc.vs.items()), ' '.join(
        '%s:%d(%s)' % (q, len(p), ' '.join('%s.%s' % (v, f.name) for v, f in acc)) for q, (p, acc) in sc.es.items()))


def scene(vs, es):
    """vs: name -> size; es: name -> (size, [(variable, kind)])."""
    return MScene({v: pts(n) for v, n in vs.items()},
                  {q: (pts(n), [(v, fn(k, n, vs.get(v, 1))) for v, k in acc]) for q, (n, acc) in es.items()})


def single_scenes():
    """One variable, one equation."""
    K = ['same', 'next', 'back', 'far', 'fold', 'const0', 'const1']
    for n in (1, 2, 3):
        for m in (n, n + 1):
            for k in range(3):
                for c in itertools.combinations(K, k):
                    yield scene({'x': m}, {'e': (n, [('x', x) for x in c])})
    yield scene({'x': 1}, {'e': (1, [('w', 'same')])})
    yield scene({'x': 1}, {'e': (1, [('w', 'same'), ('x', 'same')])})


def pair_scenes():
    """Two variables, two equations."""
    for sx, sy, se, sf in ((2, 2, 2, 2), (2, 1, 1, 2), (3, 1, 2, 2), (1, 2, 2, 1), (1, 1, 2, 1), (3, 2, 2, 2)):
        K = [None, 'same', 'next', 'const1'] if max(sx, sy) > 2 or sx == sy else [None, 'same', 'const0', 'back']
        for c in itertools.product(K, repeat=4):
            a, b, d, e = c
            yield scene({'x': sx, 'y': sy}, {'e': (se, [(v, k) for v, k in (('x', a), ('y', b)) if k]),
                                             'f': (sf, [(v, k) for v, k in (('x', d), ('y', e)) if k])})


def scalar_scenes():
    """Three scalar variables and equations, and every incidence."""
    for c in itertools.product((0, 1), repeat=9):
        yield scene({'x': 1, 'y': 1, 'z': 1}, {'e%d' % i: (1, [(v, 'same') for j, v in enumerate('xyz') if c[3 * i + j]]) for i in range(3)})


def mixed_scenes(n):
    """Up to four variables and equations of sizes up to four, in a fixed order of enumeration."""
    x = 12345

    def draw(k):
        nonlocal x
        x = (x * 6364136223846793005 + 1442695040888963407) & (2 ** 64 - 1)
        return (x >> 33) % k
    K = ['same', 'same', 'next', 'back', 'far', 'fold', 'const0', 'const1', 'const2']
    while n:
        vs = {'xyzu'[i]: 1 + draw(4) for i in range(2 + draw(3))}
        left = sum(vs.values())
        es = {}
        while left:
            k = min(left, 1 + draw(4))
            left -= k
            acc = [(v, K[draw(len(K))]) for v in vs for _ in range((0, 1, 1, 2)[draw(4)])]
            es['e%d' % len(es)] = (k, acc)
        if len(es) > 5:
            continue
        sc = scene(vs, es)
        # mostly the ones with a matching: the others are often trivially without
        if draw(3) and not matchable(sc):
            continue
        n -= 1
        yield sc


def matchable(sc):
    return perfect([(q, e) for q, (es, a) in sc.es.items() for e in es], [(v, p) for v, ps in sc.vs.items() for p in ps], sc.pairs())


def match_tasks(P, thorough):
    where = loc(named(P, 'solve'))
    f = [g for g in P.fn.values() if g['n'].startswith(MT + 'MatchingGraphCRTP<') and short(g['n']) == 'match' and len(g['p']) == 2]
    if f:
        where = loc(f[0])
    T = []

    def task(kind, sc, opts, mode, o):
        def run(chk):
            name = '%s, %s%s%s' % (describe(sc), 'leaves' if opts[0] else 'no leaves',
                                   ', scalars from %g' % opts[2] if opts[1] else '', ', order %d' % mode)
            ob(chk, P, kind, name, where, lambda: match_once(P, sc, opts, MODES[mode], o))
        return run
    i = 0
    for kind, gen in (('single', single_scenes()), ('pairs', pair_scenes()), ('scalars', scalar_scenes()),
                      ('mixed', mixed_scenes(2000 if thorough else 400))):
        for sc in gen:
            i += 1
            if thorough and kind != 'mixed':
                for j, o in enumerate(OPTS):
                    T.append(task(kind, sc, o, (i + j) % 3, None))
            else:
                T.append(task(kind, sc, OPTS[(i * 5 + i // 8) % len(OPTS)], (i + i // 24) % 3, None))
    for sizes in itertools.product(range(3), repeat=2):
        T.append(count_task(P, sizes))
    return T


def count_task(P, sizes):
    def run(chk):
        sc = scene({'v%d' % i: 1 + i for i in range(sizes[0])}, {'e%d' % i: (2 + i, []) for i in range(sizes[1])})

        def body():
            I = MatchInterp(P, sc, None, MODES[0])
            r = lib.V(I.call_fn(named(P, 'count'), None, [
                Cell(Tok('context')), Cell(ListV([Name(v) for v in sc.vs], 'llvm::ArrayRef<ctl::Var *>')),
                Cell(ListV([Name(e) for e in sc.es], 'llvm::ArrayRef<ctl::Eq *>'))]))
            got = tuple(lib.V(c) for c in r.c)
            want = (sum(len(p) for p in sc.vs.values()), sum(len(p) for p, a in sc.es.values()))
            return None if got == want else 'counts %r of the scalar variables and equations instead of %r' % (got, want)
        ob(chk, P, 'counts', 'counts of %s' % describe(sc), loc(named(P, 'count')), body)
    return run
