"""Scheduling of equations (C17).

The scheduler and the dependency graphs are interpreted on entities known only
through the traits.  Digraphs, R-trees, access functions and index sets answer
by their contracts; offsets of the accesses are symbolic integers, compared in
the zone domain, so that one analysed path stands for every pair of offsets of
the same relation."""
import itertools
import re
from .incidence import *
from .incidence import Val, conv, CTORS as BASE_CTORS
from sa.interp import MapV, FnV, Tok, Infeasible, is_ref
from sa.domains import Zone, ZNum

DEP = MI + 'dependency::'
DIGRAPH = (DEP + 'SingleEntryWeaklyConnectedDigraph<', DEP + 'SingleEntryDigraph<')
VERTEX = MI + 'impl::VertexDescriptor<'
TREE = (NS + 'RTree<', NS + 'r_tree::impl::RTreeCRTP<')
TRAIT = re.compile(re.escape(NS) + r'dependency::(Variable|Equation|SCC)Traits<ctl::')
_g = {}


def graphs():
    if 'p' not in _g:
        import os
        _g['p'] = Program([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'controls/graphs.cpp')])
    return _g['p']


class Name(Val):
    """A variable, an equation or a component."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is type(self) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return str(self.n)


class VD(Val):
    """A vertex of a digraph."""
    __slots__ = ('g', 'i')

    def __init__(self, g, i):
        self.g, self.i = g, i

    def __eq__(self, o):
        return type(o) is VD and self.g is o.g and self.i == o.i

    def __hash__(self):
        return hash((id(self.g), self.i))

    def __repr__(self):
        return 'v%d' % self.i


class GraphV:
    """A digraph; vertex 0 is the entry node, linked to all the others."""
    lib_boxed = True

    def __init__(self):
        self.props = [None]
        self.edges = []
        self.lists = {}

    def seq(self, key, vals):
        """One list per kind of traversal, so that begin and end agree."""
        key = (key, len(self.props), len(self.edges))
        if key not in self.lists:
            self.lists[key] = ListV(vals)
        return self.lists[key]

    def succ(self, i, rev):
        r = list(range(1, len(self.props))) if i == 0 else [b for a, b in self.edges if a == i]
        return r[::-1] if rev else r

    def post_order(self, rev, seen=()):
        out, seen = [], set(seen)

        def go(i):
            seen.add(i)
            for j in self.succ(i, rev):
                if j not in seen:
                    go(j)
            out.append(i)
        if 0 not in seen:
            go(0)
        return out

    def sccs(self, rev):
        """Strongly connected components, successors first."""
        reach = {}
        for i in range(len(self.props)):
            r, todo = {i}, [i]
            while todo:
                for j in self.succ(todo.pop(), False):
                    if j not in r:
                        r.add(j)
                        todo.append(j)
            reach[i] = r
        out, done = [], set()
        for i in self.post_order(rev):
            if i not in done:
                c = [j for j in self.post_order(rev) if j in reach[i] and i in reach[j]]
                done |= set(c)
                out.append(c)
        return out


class TreeV:
    """A collection of objects having boxes."""
    lib_boxed = True

    def __init__(self):
        self.l = ListV()


class ImgV(Val):
    """The image of the indices of an equation through an access function."""
    __slots__ = ('of',)

    def __init__(self, of):
        self.of = of

    def __eq__(self, o):
        return type(o) is ImgV and self.of == o.of

    def __hash__(self):
        return hash(self.of)

    def __repr__(self):
        return 'image of %s' % (self.of,)


class RotoV(Val):
    """Results are induction variable + offset (variable None: a constant)."""
    __slots__ = ('name', 'dims', 'res')

    def __init__(self, name, dims, res):
        self.name, self.dims, self.res = name, dims, res

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return self.name

    def isa(self, c):
        c = base_type(c)
        if not c.startswith(NS + 'AccessFunction'):
            raise Unsupported('cast of an access function to %s' % c)
        return c[len(NS):] in ('AccessFunction', 'AccessFunctionAffineMap', 'AccessFunctionRotoTranslation')

    def lib_isa(self, I, n):
        return any(self.isa(t) for t in n['ta'])

    def bijective(self):
        return self.dims == len(self.res) and sorted(d for d, o in self.res if d is not None) == list(range(self.dims))


class OtherV(Val):
    """An access function about which only its class is known."""
    __slots__ = ('name', 'dims', 'nres', 'cls')

    def __init__(self, name, dims, nres, cls=('AccessFunctionGeneric',)):
        self.name, self.dims, self.nres, self.cls = name, dims, nres, cls

    def __repr__(self):
        return self.name

    def isa(self, c):
        c = base_type(c)
        if not c.startswith(NS + 'AccessFunction'):
            raise Unsupported('cast of an access function to %s' % c)
        return c == NS + 'AccessFunction' or c[len(NS):] in self.cls

    def lib_isa(self, I, n):
        return any(self.isa(t) for t in n['ta'])


class ScalarPath(Exception):
    """The equation is going to be scheduled index by index."""


def hooked(f):
    def h(I, e):
        if len(e['a']) == 1:
            v = lib.V(I.ev(e['a'][0]))
            if isinstance(v, ImgV):
                return v
            e = dict(e, a=[{'k': 'val', 'c': Cell(v)}])
        return f(I, e)
    return h


class Hooks(dict):
    """Constructors of the modelled classes, by prefix of the class name."""

    def __init__(self):
        super().__init__(BASE_CTORS)
        self[NS + 'IndexSet'] = hooked(BASE_CTORS[NS + 'IndexSet'])

    def __contains__(self, c):
        return self.get(c) is not None

    def __getitem__(self, c):
        return self.get(c)

    def get(self, c, d=None):
        h = super().get(c)
        if h is not None:
            return h
        if c.startswith(DIGRAPH):
            return lambda I, e: I.copyless(e) if e['a'] else GraphV()
        if c.startswith(TREE[0]):
            return lambda I, e: I.copyless(e) if e['a'] else TreeV()
        if c.startswith(LOCKS):
            return lambda I, e: Tok('lock')
        if c.startswith(VERTEX):
            return lambda I, e: lib.V(I.ev(e['a'][0])) if e['a'] else VD(None, -1)
        if c.startswith(NS + 'ScalarEquationsDependencyGraph<'):
            return scalar_graph
        return d


def scalar_graph(I, e):
    if not I.scalar:
        raise ScalarPath()
    return NotImplemented


LOCKS = ('std::unique_lock<', 'std::lock_guard<', 'std::scoped_lock<', 'std::mutex', 'std::recursive_mutex')


class LockV:
    lib_boxed = True

    def __init__(self, ms):
        self.ms = ms
        self.held = True


class SchedInterp(SetInterp):
    """Interpreter of the scheduler; `scene` answers the traits."""

    def __init__(self, P, scene, o=None, mode=None, scalar=True):
        super().__init__(P, o, mode)
        self.ctor_hooks = Hooks()
        self.scene, self.scalar = scene, scalar
        self.zone = None

    def copyless(self, e):
        v = lib.V(self.ev(e['a'][0]))
        if isinstance(v, TreeV):
            t = TreeV()
            t.l = ListV(v.l.vals)
            return t
        raise Unsupported('copy of %r' % v)

    def default_construct(self, t):
        b = base_type(t)
        if not t.endswith('*'):
            if b.startswith(TREE[0]):
                return TreeV()
            if b.startswith(DIGRAPH):
                return GraphV()
            if b.startswith(LOCKS):
                return Tok('mutex')
            if b.startswith(VERTEX):
                return VD(None, -1)
        return super().default_construct(t)

    def truth(self, v, node=None):
        return True if isinstance(v, (GraphV, TreeV)) else super().truth(v, node)

    def deref(self, v, node=None):
        return Cell(v) if isinstance(v, (GraphV, TreeV)) else super().deref(v, node)

    def same(self, x, y):
        if isinstance(x, (Name, VD)) and isinstance(y, (Name, VD)):
            return x == y
        if isinstance(x, Name) and y is None or x is None and isinstance(y, Name):
            return False
        return super().same(x, y)

    def call(self, n):
        fn = n.get('fn') or ''
        m = TRAIT.match(fn)
        if m:
            return self.scene.trait(self, m.group(1), short(fn), [lib.V(self.ev(a)) for a in n['a']])
        nm = short(fn)
        if fn.startswith('mlir::parallelForEach') or fn.startswith('mlir::parallelFor'):
            return self.parallel(n, nm)
        if 'obj' not in n and nm in ('post_order', 'post_order_ext', 'scc_begin', 'scc_end'):
            return self.visit_graph(n, nm)
        if 'obj' in n:
            cls = fn.rsplit('::', 1)[0]
            if cls.startswith(LOCKS + ('std::__mutex',)):
                return None
            if cls.startswith(VERTEX):
                n = self.once_obj(n)
                o = lib.V(self.ev(n['obj']))
                if isinstance(o, VD):
                    x = lib.V(self.ev(n['a'][0])) if n['a'] else None
                    if nm == 'operator=':
                        c = self.lval(n['obj'])
                        c.v = x
                        return c
                    if nm in ('operator==', 'operator!='):
                        return (o == x) == (nm == 'operator==')
                    raise Unsupported('%s at %s' % (fn, self.where()))
            if cls.startswith(DIGRAPH + TREE):
                n = self.once_obj(n)
                o = lib.V(self.ev(n['obj']))
                self.line = n.get('l', self.line)
                if o is None:
                    raise Trap('%s called on a null graph' % fn)
                if isinstance(o, GraphV):
                    return self.m_graph(n, o, nm)
                if isinstance(o, TreeV):
                    return self.m_tree(n, o, nm)
        return super().call(n)

    def contract(self, n, o, nm):
        if isinstance(o, ImgV) and nm == 'operator=':
            c = self.lval(n['obj'])
            c.v = lib.V(self.ev(n['a'][0]))
            return c
        if isinstance(o, (RotoV, OtherV, ImgV)):
            a = [lib.V(self.ev(x)) for x in n['a']]
            r = (self.m_img if isinstance(o, ImgV) else self.m_roto)(n, o, nm, a)
            if r is NotImplemented:
                raise Unsupported('%s at %s' % (n['fn'], self.where()))
            return r
        if isinstance(o, SetV) and nm == 'overlaps':
            a = lib.V(self.ev(n['a'][0]))
            if isinstance(a, ImgV):
                return self.m_img(n, a, nm, [o])
        return super().contract(n, o, nm)

    def m_img(self, n, o, nm, a):
        if nm in ('overlaps', 'contains', 'empty', 'operator==', 'operator!='):
            x = a[0] if a else None
            if nm == 'overlaps' and isinstance(x, ImgV):
                return self.scene.overlap(self, o, x)
        return NotImplemented

    def m_fn(self, n, o, nm, a):
        if nm in ('isInvertible', 'isAffine'):
            return o.kind != 'generic'
        return super().m_fn(n, o, nm, a)

    def m_roto(self, n, o, nm, a):
        roto = isinstance(o, RotoV)
        if nm == 'map':
            return ImgV((o, a[0]))
        if nm == 'clone':
            return UPtr(o)
        if nm in ('dyn_cast', 'cast'):
            t = n['ta'][0] if n.get('ta') else n['t']
            if nm == 'cast' and not o.isa(t):
                raise Trap('cast of %r to %s at %s' % (o, t, self.where()))
            return o if o.isa(t) else None
        if nm == 'isa':
            return o.isa(n['ta'][0])
        if nm == 'getNumOfDims':
            return o.dims
        if nm == 'getNumOfResults':
            return len(o.res) if roto else o.nres
        if nm == 'isAffine':
            return roto
        if nm == 'isInvertible':
            return roto and o.bijective()
        if nm == 'isConstant':
            return roto and all(d is None for d, x in o.res)
        if nm == 'isIdentityLike' and roto:
            return all(d == i for i, (d, x) in enumerate(o.res))
        if nm == 'isIdentity' and roto:
            return o.dims == len(o.res) and all(d == i and self.truth(self.binop('==', x, 0)) for i, (d, x) in enumerate(o.res))
        if nm == 'inverse':
            if not roto or not o.bijective():
                return UPtr(None)
            res = [None] * o.dims
            for i, (d, x) in enumerate(o.res):
                res[d] = (i, self.binop('-', 0, x))
            return UPtr(RotoV('inverse of ' + o.name, o.dims, res))
        if nm == 'combine':
            x = a[0]
            if (len(o.res) if roto else o.nres) != x.dims:
                raise Trap('combination of %r with %d results and %r of %d variables at %s' % (
                    o, len(o.res) if roto else o.nres, x, x.dims, self.where()))
            if roto and isinstance(x, RotoV):
                return UPtr(RotoV('%s then %s' % (o.name, x.name), o.dims, [
                    (None, k) if d is None else (o.res[d][0], self.binop('+', o.res[d][1], k)) for d, k in x.res]))
            return UPtr(OtherV('%s then %s' % (o.name, x.name), o.dims, len(x.res) if isinstance(x, RotoV) else x.nres))
        if nm in ('getOffset', 'getInductionVariableIndex') and roto:
            if not 0 <= a[0] < len(o.res):
                raise Trap('%s(%d) of %d results at %s' % (nm, a[0], len(o.res), self.where()))
            d, x = o.res[a[0]]
            if nm == 'getOffset':
                return x
            return OptV(Cell(d)) if d is not None else OptV()
        return NotImplemented

    # ------------------------------------------------------------ containers
    def m_graph(self, n, g, nm):
        if nm == 'addVertex':
            v = lib.take(self, n['a'][0])
            g.props.append(Cell(v))
            return VD(g, len(g.props) - 1)
        a = [lib.V(self.ev(x)) for x in n['a'] if x.get('k') != 'defarg'] if nm not in ('addEdge',) else \
            [lib.V(self.ev(x)) for x in n['a'][:2]]
        if nm == 'operator[]':
            self.own(g, a[0])
            if a[0].i == 0:
                raise Trap('property of the entry node at %s' % self.where())
            return g.props[a[0].i]
        if nm == 'addEdge':
            self.own(g, a[0])
            self.own(g, a[1])
            g.edges.append((a[0].i, a[1].i))
            return Tok('edge', len(g.edges))
        if nm == 'getEntryNode':
            return VD(g, 0)
        if nm == 'size':
            return len(g.props)
        if nm in ('verticesBegin', 'verticesEnd'):
            l = g.seq('vertices', [VD(g, i) for i in range(1, len(g.props))])
            return IterV(l, 0 if nm == 'verticesBegin' else len(l.items))
        if nm in ('linkedVerticesBegin', 'linkedVerticesEnd'):
            l = g.seq(('linked', a[0].i), [VD(g, i) for i in g.succ(a[0].i, False)])
            return IterV(l, 0 if nm == 'linkedVerticesBegin' else len(l.items))
        raise Unsupported('%s at %s' % (n['fn'], self.where()))

    def own(self, g, v):
        if not isinstance(v, VD):
            raise Trap('a value that is no vertex is used as one at %s' % self.where())
        if v.g is not g:
            raise Trap('vertex of another graph at %s' % self.where())

    def m_tree(self, n, t, nm):
        if nm == 'insert':
            t.l.items.append(Cell(lib.take(self, n['a'][0])))
            return None
        if nm == 'walkOverlappingObjects':
            q = box(self, self.ev(n['a'][0])).pts()
            f = self.ev(n['a'][1])
            for c in self.order(t.l.items):
                if self.shape(c.v) & q:
                    self.invoke(lib.V(f), [c])
            return None
        if nm in ('begin', 'end'):
            return IterV(t.l, 0 if nm == 'begin' else len(t.l.items))
        if nm == 'empty':
            return not t.l.items
        raise Unsupported('%s at %s' % (n['fn'], self.where()))

    def shape(self, o):
        s = lib.V(lib.user_op(self, o, 'getWrittenVariableIndices', 0))
        return box(self, s).pts()

    def order(self, l):
        return list(l)[::-1] if self.mode['rev'] else list(l)

    def parallel(self, n, nm):
        a = n['a'][1:]
        if nm == 'parallelForEach' and len(a) == 2:
            items = lib.cells(self, self.ev(a[0]))
        elif nm == 'parallelForEach' and len(a) == 3:
            items = lib.cells_between(self, lib.V(self.ev(a[0])), lib.V(self.ev(a[1])))
        else:
            raise Unsupported('%s at %s' % (n['fn'], self.where()))
        f = lib.V(self.ev(a[-1]))
        for c in self.order(items):
            self.invoke(f, [c])
        return None

    def visit_graph(self, n, nm):
        g = lib.V(self.ev(n['a'][0]))
        if isinstance(g, Cell):
            g = g.v
        if not isinstance(g, GraphV):
            raise Unsupported('%s over %r at %s' % (nm, g, self.where()))
        if nm in ('post_order_ext', 'post_order'):
            seen = ()
            if nm == 'post_order_ext':
                s = lib.V(self.ev(n['a'][1]))
                seen = [p.c[0].v.i for p in s.d.values()]
            return ListV([VD(g, i) for i in g.post_order(self.mode['rev'], seen)])
        if nm in ('scc_begin', 'scc_end'):
            l = g.seq('sccs', [ListV([VD(g, i) for i in c]) for c in g.sccs(self.mode['rev'])])
            return IterV(l, 0 if nm == 'scc_begin' else len(l.items))
        raise Unsupported('%s at %s' % (nm, self.where()))


# ---------------------------------------------------------------- scenes
class Scene:
    """Equations: name -> dict(rank, space, writes, reads); accesses are
    (variable, function).  Components: name -> (equations, dependencies)."""

    def __init__(self, eqs, comps=None):
        self.eqs = eqs
        self.comps = comps or {}

    def trait(self, I, kind, nm, a):
        x = a[0]
        while isinstance(x, Cell):
            x = x.v
        if not isinstance(x, Name):
            raise Unsupported('trait of %r at %s' % (x, I.where()))
        if nm == 'getId':
            return x
        if kind == 'SCC':
            els, deps = self.comps[x.n]
            if nm == 'getElements':
                return ListV([Name(e) for e in els])
            if nm == 'getDependencies':
                return ListV([Name(d) for d in deps.get(a[1].n, ())])
        if kind == 'Equation':
            q = self.eqs[x.n]
            if nm == 'getNumOfIterationVars':
                return q['rank']
            if nm == 'getIterationRanges':
                return q['space']
            if nm in ('getWrites', 'getReads'):
                return ListV([self.access(I, v, f) for v, f in q['writes' if nm == 'getWrites' else 'reads']],
                             'std::vector<%s>' % ACCESS)
        raise Unsupported('trait %s at %s' % (nm, I.where()))

    def access(self, I, v, f):
        o = Obj(access_class(I.P))
        for c, fl in I.P.fields(o.cls):
            t = fl['t']
            val = UPtr(f) if 'unique_ptr' in t else Name(v) if t.endswith('*') else I.default_construct(t)
            o.f[c + '::' + fl['n']] = Cell(val)
        return o

    def overlap(self, I, x, y):
        """Whether two images overlap is open; recorded by the function read."""
        raise Unsupported('overlap')


ACCESS = NS + 'dependency::Access<ctl::Var *, %sinternal::dependency::EmptyAccessProperty>' % NS


def access_class(P):
    if ACCESS not in P.rec:
        raise AnalysisBroken('class %s' % ACCESS)
    return ACCESS


class DirScene(Scene):
    def __init__(self, *a):
        super().__init__(*a)
        self.ov = {}

    def overlap(self, I, x, y):
        k = tuple(sorted([x.of[0].name, y.of[0].name]))
        if x.of[0].name == y.of[0].name:
            return True
        if k not in self.ov:
            self.ov[k] = bool(I.choose(('overlap', k), 2))
        return self.ov[k]


SCHED = NS + 'Scheduler<ctl::Var *, ctl::Comp *>'


def schedule_fn(P):
    c = [m for m in P.rec[SCHED]['methods'] if m['n'] == 'schedule' and m['id'] in P.fn]
    if len(c) != 1:
        raise AnalysisBroken('Scheduler::schedule')
    return P.fn[c[0]['id']]


DIRS = {}


def direction(I, P, v):
    """Name of an enumerator of scheduling::Direction."""
    if not DIRS:
        DIRS.update({v: n for n, v in P.enum.get(NS + 'scheduling::Direction', {'v': []})['v']})
        if set(DIRS.values()) != {'Any', 'Forward', 'Backward', 'Unknown'}:
            raise AnalysisBroken('enumerators of scheduling::Direction: %s' % DIRS)
    return DIRS[v]


def run_schedule(I, P, comps):
    o = I.new_obj(SCHED)
    for c, f in P.fields(SCHED):
        o.f[c + '::' + f['n']] = Cell(Tok('context'))
    l = ListV([Name(c) for c in comps], 'llvm::ArrayRef<ctl::Comp *>')
    r = lib.V(I.call_fn(schedule_fn(P), o, [Cell(l)]))
    out = []
    for c in lib.iterate(I, r):
        scc = c.v
        eqs = []
        for k in range(lib.V(lib.user_op(I, scc, 'size', 0))):
            f = I.find_method(scc.cls, 'operator[]', 1)
            q = lib.V(I.call_fn(f, scc, [Cell(k)]))
            ds = [direction(I, P, d.v) for d in lib.iterate(I, lib.V(lib.user_op(I, q, 'getIterationDirections', 0)))]
            eqs.append((lib.V(lib.user_op(I, q, 'getEquation', 0)).n, lib.V(lib.user_op(I, q, 'getIndexes', 0)), ds))
        out.append(eqs)
    return out


# ---------------------------------------------------------------- directions
def shapes(n, w):
    """Access functions a read may have, for a write of permutation w."""
    out = [('same', w)]
    out += [('turned%s' % ''.join(map(str, q)), q) for q in itertools.permutations(range(n)) if q != w]
    out += [('fixed%d' % k, tuple(None if i == k else d for i, d in enumerate(w))) for k in range(n)]
    if n > 1:
        out.append(('doubled', (w[0],) * n))
    out.append(('opaque', None))
    return out


def access_of(z, name, n, spec, nres=None):
    if spec is None:
        return OtherV(name, n, nres or n)
    return RotoV(name, n, [(d, z.new('%s%d' % (name, i))) for i, d in enumerate(spec)])


def direction_path(P, o, n, w, reads, mode, twice=False, flip=False):
    """Analyse one path; a complaint or None."""
    z = Zone()
    wf = access_of(z, 'write', n, w)
    rf = [access_of(z, 'read%d' % k, n, q, n) for k, (nm, q) in enumerate(reads)]
    sc = DirScene({'e': {'rank': n, 'space': SetV([('i',) + ('s',) * (n - 1)]),
                         'writes': [('x', wf)] * (2 if twice else 1), 'reads': [('x', f) for f in rf]}},
                  {'c': (['e'], {'e': ['e']})})
    I = SchedInterp(P, sc, o, mode, scalar=False)
    I.zone = z
    z.I = I
    try:
        r = run_schedule(I, P, ['c'])
    except ScalarPath:
        return None
    if len(r) != 1 or len(r[0]) != 1 or r[0][0][0] != 'e' or r[0][0][1] != sc.eqs['e']['space']:
        return 'the equation is scheduled as %r' % (r,)
    ds = r[0][0][2]
    if len(ds) != n:
        return '%d directions for %d induction variables' % (len(ds), n)
    for (nm, q), f in zip(reads, rf):
        if not sc.ov.get(tuple(sorted(['write', f.name])), False):
            if tuple(sorted(['write', f.name])) not in sc.ov:
                return 'the read %s is not examined' % nm
            continue
        if q != w or w is None or None in w or len(set(w)) < n:
            return 'scheduled as a range with the directions %s although it reads its variable through another order of ' \
                   'the indices (%s)' % (ds, nm)
        for i in range(n):
            d = wf.res[i][0]
            lo, hi = (f.res[i][1] - wf.res[i][1]).bounds() if hasattr(ZNum, '__sub__') else \
                f.res[i][1].add(wf.res[i][1], -1).bounds()
            if flip:
                lo, hi = -hi, -lo
            need = ([] if lo >= 0 else ['Forward']) + ([] if hi <= 0 else ['Backward'])
            for x in need:
                if ds[d] != x:
                    return 'dimension %d iterates %s, but the read at displacement %s there needs %s' % (
                        d, ds[d], '< 0' if x == 'Forward' else '> 0', x)
    return None


def direction_tasks(P, thorough):
    T = []
    wh = loc(schedule_fn(P))

    def one(n, w, reads, i, twice):
        def task(chk):
            name = 'write %s of %d, reads %s%s' % ('opaque' if w is None else ''.join(str(x) for x in w), n,
                                                   ', '.join(r[0] for r in reads), ', written twice' if twice else '')

            def body():
                k = 0
                for o, r in paths(lambda o: guarded(lambda: direction_path(P, o, n, w, reads, MODES[i % 3], twice)), 20000):
                    chk.paths += 1
                    k += 1
                    if r:
                        return '%s: %s' % (name, r)
                if not k:
                    return 'no path'
            ob(chk, P, 'direction', name, wh, body)
        return task
    i = 0
    for n in (1, 2, 3):
        perms = list(itertools.permutations(range(n)))
        if n == 3 and not thorough:
            perms = perms[:1] + perms[3:5]
        ws = perms + [None, (None,) + tuple(range(1, n))]
        for w in ws:
            base = w if w is not None and None not in w else tuple(range(n))
            sh = shapes(n, base)
            cs = [[]] + [[a] for a in sh]
            cs += [[a, b] for a in sh for b in sh if n < 3 or thorough or a[0] == 'same' or b[0] == 'same']
            if n == 1 or n == 2 and thorough:
                cs += [[a, b, c] for a in sh for b in sh for c in sh if a[0] == b[0] == 'same' or c[0] == b[0] == 'same']
            if w not in perms:
                cs = cs[:1 + len(sh)]
            for c in cs:
                T.append(one(n, w, c, i, i % 5 == 4))
                i += 1
    return T


def guarded(f):
    try:
        return f()
    except Trap as e:
        return 'execution traps: %s' % e


# ---------------------------------------------------------------- single indices
def dags(names_):
    """All acyclic relations on up to three names: sets of (p, q), p needs q."""
    ns = list(names_)
    pairs = [(a, b) for a in ns for b in ns if a != b]
    for k in range(len(pairs) + 1):
        for es in itertools.combinations(pairs, k):
            if acyclic(ns, es):
                yield es


def acyclic(ns, es):
    left = set(ns)
    while left:
        free = [a for a in left if not any(x == a and y in left for x, y in es)]
        if not free:
            return False
        left -= set(free)
    return True


def table(dom, names_, f, name, extra=None):
    t = {dom.e[p]: frozenset(dom.v[v] for v in f(p)) for p in names_}
    return FnA(name, t, 'generic')


def scalar_scene(dom, ks, perm, dag, how):
    """One equation on the points ks writing through perm."""
    wr = dict(zip(ks, perm))
    need = {p: [q for a, q in dag if a == p] for p in ks}
    if how == 'together':
        fs = [lambda p: {wr[q] for q in need[p]}]
    elif how == 'padded':
        fs = [lambda p: {wr[q] for q in need[p]} | {'u'}]
    else:
        fs = [lambda p, k=k: {wr[need[p][k]]} if k < len(need[p]) else {'u'} for k in (0, 1)]
        if how == 'swapped':
            fs.reverse()
    w = table(dom, ks, lambda p: {wr[p]}, 'write')
    reads = [('x', table(dom, ks, f, 'read%d' % k)) for k, f in enumerate(fs)]
    if how != 'together':
        reads.insert(len(dag) % 2, ('y', table(dom, ks, lambda p: {'x'}, 'other')))
    return Scene({'e': {'rank': dom.re, 'space': dom.es(ks), 'writes': [('x', w)], 'reads': reads}},
                 {'c': (['e'], {'e': ['e'] if dag else []})}), need


def order_of(r):
    """The scheduled (equation, point) pairs, grouped by what is iterated at once."""
    return [(e, s, ds, len(scc)) for scc in r for e, s, ds in scc]


def scalar_tasks(P, dom, tag, thorough):
    wh = loc(schedule_fn(P))
    dom.v.setdefault('u', dom.pt('u', dom.rv))
    T = []

    def one(i, ks, perm, dag, how):
        def task(chk):
            name = '%s %s writing %s, %s %s' % (tag, ks, ''.join(perm), how, ' '.join('%s<%s' % (b, a) for a, b in dag) or 'nothing')

            def body():
                sc, need = scalar_scene(dom, ks, perm, dag, how)
                I = SchedInterp(P, sc, None, MODES[i % 3])
                r = run_schedule(I, P, ['c'])
                done = set()
                inv = {p: k for k, p in dom.e.items()}
                for e, s, ds, size in order_of(r):
                    if e != 'e' or size != 1:
                        return 'scheduled as %r' % (r,)
                    pts = [inv[p] for p in s.p]
                    if len(ds) != dom.re:
                        return '%d directions for %d induction variables' % (len(ds), dom.re)
                    for p in pts:
                        if p in done:
                            return 'the index %s is scheduled twice' % p
                        if len(pts) > 1 and any(q in pts for q in need[p]):
                            return 'the indices %s are iterated together, %s depending on another' % (' '.join(sorted(pts)), p)
                        late = [q for q in need[p] if q not in done]
                        if late:
                            return 'the index %s is computed before %s, which it reads' % (p, ' '.join(late))
                    done |= set(pts)
                if done != set(ks):
                    return 'the indices %s are not scheduled' % ' '.join(sorted(set(ks) - done))
            ob(chk, P, 'indices', name, wh, lambda: (lambda r: r and '%s: %s' % (name, r))(body()))
        return task
    i = 0
    for ks in ('ab', 'abc'):
        for perm in itertools.permutations('xyz'[:len(ks)]):
            if not thorough and len(ks) == 3 and perm not in (('x', 'y', 'z'), ('y', 'z', 'x'), ('x', 'z', 'y')):
                continue
            for dag in dags(ks):
                for how in ('together', 'padded', 'apart', 'swapped'):
                    if len(ks) == 3 and not thorough and how == 'swapped' and i % 2:
                        i += 1
                        continue
                    T.append(one(i, ks, perm, dag, how))
                    i += 1
    return T


# ---------------------------------------------------------------- components
def comp_tasks(P, dom, thorough):
    """Several components: each exactly once, after those it depends on."""
    wh = loc(schedule_fn(P))
    T = []

    def eq(v, pts='a'):
        return {'rank': dom.re, 'space': dom.es(pts), 'reads': [],
                'writes': [(v, table(dom, pts, lambda p: {{'a': 'x', 'b': 'y', 'c': 'z'}[p]}, 'w' + v))]}

    def one(i, sizes, dag, spread):
        def task(chk):
            eqs, comps = {}, {}
            for c, k in sizes.items():
                els = ['%s%d' % (c, j) for j in range(k)]
                for e in els:
                    eqs[e] = eq('x' + e, 'ab' if i % 2 else 'a')
                comps[c] = (els, {e: ([els[(j + 1) % k]] if k > 1 else []) for j, e in enumerate(els)})
            for a, b in dag:
                ea = comps[a][0]
                eb = comps[b][0]
                comps[a][1][ea[-1 if spread else 0]].append(eb[0])
                if spread > 1:
                    comps[a][1][ea[0]].append(eb[-1])
            name = 'components %s, %s%s' % (' '.join('%s:%d' % x for x in sizes.items()),
                                            ' '.join('%s<%s' % (b, a) for a, b in dag) or 'independent', '/%d' % spread)

            def body():
                I = SchedInterp(P, Scene(eqs, comps), None, MODES[i % 3])
                r = run_schedule(I, P, list(sizes))
                of = {e: c for c, (els, d) in comps.items() for e in els}
                done, seen = set(), {}
                for scc in r:
                    cs = {of[e] for e, s, ds in scc}
                    if len(cs) != 1:
                        return 'components %s are mixed' % ' '.join(sorted(cs))
                    c = cs.pop()
                    if len(comps[c][0]) > 1:
                        if sorted(e for e, s, ds in scc) != sorted(comps[c][0]):
                            return 'the component %s is scheduled as %r' % (c, scc)
                        if any(d != 'Unknown' for e, s, ds in scc for d in ds):
                            return 'an equation of the cyclic component %s is given a direction' % c
                    for e, s, ds in scc:
                        if len(ds) != eqs[e]['rank']:
                            return '%d directions for %s' % (len(ds), e)
                        if s.p & seen.get(e, frozenset()):
                            return 'indices of %s are scheduled twice' % e
                        seen[e] = seen.get(e, frozenset()) | s.p
                    late = [b for a, b in dag if a == c and b not in done]
                    if late:
                        return 'the component %s is scheduled before %s, on which it depends' % (c, ' '.join(late))
                    if all(seen.get(e, frozenset()) == eqs[e]['space'].p for e in comps[c][0]):
                        done.add(c)
                if done != set(sizes):
                    return 'the components %s are not scheduled completely' % ' '.join(sorted(set(sizes) - done))
            ob(chk, P, 'components', name, wh, lambda: (lambda r: r and '%s: %s' % (name, r))(body()))
        return task
    i = 0
    cases = [{'A': 1}, {'A': 2}, {'A': 3}]
    cases += [{'A': a, 'B': b} for a in (1, 2) for b in (1, 2)]
    cases += [{'A': 1, 'B': 1, 'C': 1}, {'A': 2, 'B': 1, 'C': 1}, {'A': 1, 'B': 2, 'C': 1}, {'A': 1, 'B': 1, 'C': 2},
              {'A': 2, 'B': 2, 'C': 2}]
    for sizes in cases:
        for dag in dags(sizes):
            for spread in (0, 1, 2) if max(sizes.values()) > 1 else (0,):
                T.append(one(i, sizes, dag, spread))
                i += 1
    return T


# ---------------------------------------------------------------- array equations
def array_tasks(P, dom, thorough):
    f = P.one('ctl::arrays')
    T = []
    G = [c for c in P.rec if c.startswith(NS + 'ArrayEquationsDependencyGraph<')]
    wh = where(P, G[0], 'addEdges') or where(P, G[0], 'addEquations') if G else ''
    vs = 'xyz'

    def one(i, rel, how):
        def task(chk):
            name = 'equations %s, %s' % (how, ' '.join('%d<%d' % (b, a) for a, b in rel) or 'independent')

            def body():
                eqs = {}
                need = {k: [b for a, b in rel if a == k] for k in range(3)}
                for k in range(3):
                    if how == 'variables':      # each its own variable, two elements written
                        sp = 'ab'
                        w = [('v%d' % k, table(dom, sp, lambda p: {{'a': 'x', 'b': 'y'}[p]}, 'w'))]
                        r = [('v%d' % b, table(dom, sp, lambda p: {'y'} if p == 'b' else {'z'}, 'r%d' % b)) for b in need[k]]
                        r += [('v%d' % b, table(dom, sp, lambda p: {'z'}, 'n%d' % b)) for b in range(3) if b not in need[k]]
                    elif how == 'shared':       # one variable, one element each
                        sp = 'a'
                        w = [('x', table(dom, sp, lambda p: {vs[k]}, 'w'))]
                        r = [('x', table(dom, sp, lambda p: {vs[b] for b in need[k]} | {'u'}, 'r'))]
                    else:                       # one variable, several writes each, reads apart
                        sp = 'ab'
                        w = [('x', table(dom, sp, lambda p: {vs[k]}, 'w')), ('x', table(dom, sp, lambda p: {'%s%s' % (vs[k], p)}, 'W'))]
                        r = [('x', table(dom, sp, lambda p, b=b: {vs[b] + p} if p == 'b' else {'u'}, 'r%d' % b)) for b in need[k]]
                    eqs['e%d' % k] = {'rank': dom.re, 'space': dom.es(sp), 'writes': w, 'reads': r}
                I = SchedInterp(P, Scene(eqs), None, MODES[i % 3])
                l = ListV([Name('e%d' % k) for k in range(3)], 'llvm::ArrayRef<ctl::Eq *>')
                out = lib.V(I.call_fn(f, None, [Cell(Tok('context')), Cell(l)]))
                got = []
                for c in lib.iterate(I, out):
                    vds = [lib.V(x) for x in lib.iterate(I, c)]
                    g = vds[0].g
                    got.append([v.i for v in vds])
                names_ = {}
                for j, c in enumerate(g.props):
                    if j:
                        names_[j] = int(lib.V(lib.user_op(I, c.v, 'getId', 0)).n[1:])
                part = sorted(sorted(names_[x] for x in c) for c in got)
                edges = {(names_[a], names_[b]) for a, b in g.edges}
                if edges != set(rel):
                    miss, more = set(rel) - edges, edges - set(rel)
                    return ' and '.join(['the dependency of %d on %d is missing' % x for x in sorted(miss)] +
                                        ['%d wrongly depends on %d' % x for x in sorted(more)])
                reach = {k: {k} for k in range(3)}
                for _ in range(3):
                    for a, b in rel:
                        for k in reach:
                            if a in reach[k]:
                                reach[k].add(b)
                want = sorted({tuple(sorted(j for j in range(3) if j in reach[k] and k in reach[j])) for k in range(3)})
                if part != [list(x) for x in want]:
                    return 'the components are %s instead of %s' % (part, want)
            ob(chk, P, 'arrays', name, wh, lambda: (lambda r: r and '%s: %s' % (name, r))(body()))
        return task
    dom.v['u'] = dom.pt('u', dom.rv)
    for v in ('x', 'y', 'z'):
        for p in 'ab':
            dom.v[v + p] = dom.pt(v + p, dom.rv)
    pairs = [(a, b) for a in range(3) for b in range(3)]
    i = 0
    for how in ('variables', 'shared', 'several'):
        for k in range(len(pairs) + 1):
            for es in itertools.combinations(pairs, k):
                if (thorough or i % 3 == 0 or k <= 2):
                    T.append(one(i, es, how))
                i += 1
    return T
