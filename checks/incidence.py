"""Incidence matrices (C14) and local matching solutions (C15) over an abstract
domain of index sets.

Points are opaque (tuples of named coordinates), index sets are finite sets of
them, access functions are opaque maps given by a table.  Index sets, boxes and
access functions answer by their contracts, which C06, C08 and C13 decide for
the implementation; the code of the matrices and groups is interpreted."""
import itertools
from sa.facts import Program, AnalysisBroken, srcs, loc
from sa.interp import (Interp, Cell, Obj, ListV, UPtr, OptV, IterV, PairV, Num, Unsupported, Trap, UNINIT, short, base_type,
                       paths)
from sa import lib
from .astrules import guard

NS = 'marco::modeling::'
MI = NS + 'internal::'
_p = {}


def program():
    if 'p' not in _p:
        _p['p'] = Program(srcs('lib/Modeling/MCIM*.cpp', 'lib/Modeling/LocalMatchingSolutions*.cpp'))
    return _p['p']


class At(Num):
    """An opaque coordinate."""
    __slots__ = ('n',)
    lib_boxed = True

    def __init__(self, n):
        self.n = n

    def lib_op(self, I, op, o, swapped):
        if isinstance(o, At) and op in ('==', '!='):
            return (self.n == o.n) == (op == '==')
        if op == '+' and o == 1:
            return At((self.n, 1))
        raise Unsupported('%s on opaque coordinates at %s' % (op, I.where()))

    def binop(self, I, op, o, swapped):
        return self.lib_op(I, op, o, swapped)


def atom(x):
    return x.n if isinstance(x, At) else x


class Val:
    """Base of the modelled values; immutable."""
    __slots__ = ()
    lib_boxed = True

    def lib_op(self, I, op, o, swapped):
        if op in ('==', '!=') and type(o) is type(self):
            return (self == o) == (op == '==')
        return lib.NI


class PtV(Val):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = tuple(c)

    def __eq__(self, o):
        return type(o) is type(self) and self.c == o.c

    def __hash__(self):
        return hash(self.c)

    def __repr__(self):
        return '(%s)' % ','.join(map(str, self.c))

    def lib_iter(self, I):
        return [Cell(At(x) if not isinstance(x, int) else x) for x in self.c]


class RgV(Val):
    """The atoms of one dimension of a box."""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = tuple(a)

    def __eq__(self, o):
        return type(o) is type(self) and set(self.a) == set(o.a)

    def __hash__(self):
        return hash(frozenset(self.a))


class BoxV(Val):
    __slots__ = ('d', '_l')

    def __init__(self, d):
        self.d = tuple(d)           # of RgV
        self._l = None

    def pts(self):
        return frozenset(itertools.product(*[r.a for r in self.d]))

    def lib_iter(self, I):
        return [Cell(v) for v in self.seq().vals]

    def seq(self):
        if self._l is None:
            self._l = ListV([PtV(p) for p in itertools.product(*[r.a for r in self.d])])
        return self._l

    def __eq__(self, o):
        return type(o) is type(self) and self.d == o.d

    def __hash__(self):
        return hash(self.d)


class SetV(Val):
    __slots__ = ('p', '_l', '_b')

    def __init__(self, p=()):
        self.p = frozenset(p)
        self._l = self._b = None

    def __eq__(self, o):
        return type(o) is type(self) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return '{%s}' % ' '.join('(%s)' % ','.join(map(str, x)) for x in sorted(self.p, key=repr))

    def rank(self):
        return len(next(iter(self.p))) if self.p else 0

    def seq(self, I):
        if self._l is None:
            s = sorted(self.p, key=repr, reverse=I.mode['rev'])
            self._l = ListV([PtV(x) for x in s])
        return self._l

    def lib_iter(self, I):
        return [Cell(v) for v in self.seq(I).vals]

    def boxes(self, I):
        if self._b is None:
            self._b = ListV(partition(self.p, I.mode))
        return self._b


def partition(p, mode):
    """One of the partitions of a set into boxes."""
    bs = [tuple((a,) for a in x) for x in sorted(p, key=repr, reverse=mode['rev'])]
    if mode['merge'] and bs:
        dims = list(range(len(bs[0])))
        if mode['merge'] == 2:
            dims.reverse()
        for d in dims:
            out = {}
            for b in bs:
                k = b[:d] + b[d + 1:]
                out[k] = out.get(k, ()) + b[d]
            bs = [k[:d] + (v,) + k[d:] for k, v in out.items()]
    return [BoxV(RgV(a) for a in b) for b in bs]


class FnA(Val):
    """A map from points to sets of points, and the class implementing it."""
    __slots__ = ('name', 'tab', 'kind', 'uses', 'dims', 'fun')

    def __init__(self, name, tab, kind, uses=None, fun=None):
        self.fun = fun
        self.name, self.tab, self.kind, self.uses = name, tab, kind, uses
        self.dims = len(next(iter(tab)))

    def __eq__(self, o):
        return type(o) is type(self) and (self.name, self.kind) == (o.name, o.kind) and self.tab == o.tab

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return '%s:%s' % (self.kind, self.name)

    def at(self, p):
        if p in self.tab:
            return self.tab[p]
        if isinstance(p[0], tuple) and p[0][:2] == ('pre', self.name):
            return frozenset([p[0][2]])
        if self.fun:
            return frozenset(self.fun(p))
        raise Unsupported('access function at the point %r' % (p,))

    CLS = {'generic': ('AccessFunctionGeneric',), 'const': ('AccessFunctionAffineMap', 'AccessFunctionAffineConstant'),
           'roto': ('AccessFunctionAffineMap', 'AccessFunctionRotoTranslation'),
           'constant': ('AccessFunctionGeneric', 'AccessFunctionConstant'),
           'empty': ('AccessFunctionEmpty',)}

    def isa(self, c):
        c = base_type(c)
        if not c.startswith(NS + 'AccessFunction'):
            raise Unsupported('cast of an access function to %s' % c)
        return c == NS + 'AccessFunction' or c[len(NS):] in self.CLS[self.kind]

    def lib_isa(self, I, n):
        return any(self.isa(t) for t in n['ta'])

    def map(self, s):
        if self.kind == 'const' and not s and self.dims:
            return frozenset()
        return frozenset().union(*[self.at(p) for p in s])

    def inverse(self, acc, par):
        """Inverse image; a bijection maps back whatever its argument is."""
        if self.kind == 'roto' and self.uses is None and acc and par:
            inv = {}
            for k, v in self.tab.items():
                inv[next(iter(v))] = k
            n = len(next(iter(par)))
            return frozenset(inv.get(v, (('pre', self.name, v),) + (0,) * (n - 1)) for v in acc)
        return frozenset(p for p in par if self.at(p) <= acc)


def conv(I, v):
    """An index set from anything an index set is built from."""
    v = lib.V(v)
    if isinstance(v, SetV):
        return v
    if isinstance(v, PtV):
        return SetV([v.c])
    if isinstance(v, BoxV):
        return SetV(v.pts())
    if isinstance(v, RgV):
        return SetV((a,) for a in v.a)
    if isinstance(v, ListV):
        return SetV(frozenset().union(*[conv(I, x).p for x in v.vals]))
    if isinstance(v, (At, int)) and not isinstance(v, bool):
        return SetV([(atom(v),)])
    raise Unsupported('index set from %r at %s' % (v, I.where()))


def box(I, v):
    v = lib.V(v)
    if isinstance(v, BoxV):
        return v
    if isinstance(v, PtV):
        return BoxV(RgV((a,)) for a in v.c)
    if isinstance(v, RgV):
        return BoxV([v])
    if isinstance(v, ListV):
        return BoxV([x for x in v.vals])
    raise Unsupported('box from %r at %s' % (v, I.where()))


def point(I, v):
    v = lib.V(v)
    if isinstance(v, PtV):
        return v
    if isinstance(v, ListV):
        return PtV(atom(x) for x in v.vals)
    if isinstance(v, (At, int)) and not isinstance(v, bool):
        return PtV([atom(v)])
    raise Unsupported('point from %r at %s' % (v, I.where()))


def set_ctor(I, e):
    a = [I.ev(x) for x in e['a']]
    return conv(I, a[0]) if a else SetV()


def box_ctor(I, e):
    return box(I, I.ev(e['a'][0]))


def point_ctor(I, e):
    a = [I.ev(x) for x in e['a']]
    if len(a) > 1:
        raise Unsupported('point of several values')
    return point(I, a[0])


def range_ctor(I, e):
    a = [lib.V(I.ev(x)) for x in e['a']]
    if len(a) == 1 and isinstance(a[0], RgV):
        return a[0]
    b, c = map(atom, a)
    if c == (b, 1) or isinstance(b, int) and c == b + 1:
        return RgV((b,))
    raise Unsupported('range from %r to %r at %s' % (b, c, I.where()))


def iter_ctor(I, e):
    v = lib.V(I.ev(e['a'][0]))
    if isinstance(v, (IterV, _U)):
        return v
    raise Unsupported('iterator from %r' % (v,))


_U = type(UNINIT)
CTORS = {NS + 'IndexSet': set_ctor, NS + 'MultidimensionalRange': box_ctor, NS + 'Point': point_ctor,
         NS + 'Range': range_ctor, NS + 'IndexSet::PointIterator': iter_ctor, NS + 'IndexSet::RangeIterator': iter_ctor}
ITERS = ('PointIterator', 'RangeIterator')


VISITED = set()


class SetInterp(Interp):
    """Interpreter in which index sets and access functions are values with contracts."""

    def __init__(self, P, o=None, mode=None, **k):
        super().__init__(P, o, fuel=3000000, ctor_hooks=CTORS, **k)
        self.visited = VISITED
        self.mode = mode or {'rev': False, 'merge': 1}

    def call(self, n):
        fn = n.get('fn') or ''
        if fn.startswith(NS):
            cls = fn.rsplit('::', 1)[0][len(NS):] if 'operator' not in fn else fn[len(NS):fn.rfind('::operator')]
            top = cls.split('::')[0].split('<')[0]
            n = self.once_obj(n)
            if 'obj' in n and (top in ('IndexSet', 'Point', 'MultidimensionalRange', 'Range', 'r_tree') or
                               top.startswith('AccessFunction')):
                self.line = n.get('l', self.line)
                o = lib.V(self.ev(n['obj']))
                if o is None:
                    raise Trap('%s called on a null pointer' % fn)
                if isinstance(o, Val):
                    return self.contract(n, o, short(fn))
                if isinstance(o, IterV):
                    return super().call(n)
                if o is UNINIT and short(fn) == 'operator=':
                    c = self.lval(n['obj'])
                    v = lib.V(self.ev(n['a'][0]))
                    c.v = v
                    return c
                if o is UNINIT:
                    raise Trap('%s on an uninitialised value' % fn)
        return super().call(n)

    def default_construct(self, t):
        if base_type(t) == NS + 'IndexSet' and not t.endswith('*'):
            return SetV()
        return super().default_construct(t)

    def truth(self, v, node=None):
        return True if isinstance(v, Val) else super().truth(v, node)

    def deref(self, v, node=None):
        return Cell(v) if isinstance(v, Val) else super().deref(v, node)

    def contract(self, n, o, nm):
        a = [lib.V(self.ev(x)) for x in n['a']]
        if nm == 'operator=':
            c = self.lval(n['obj'])
            c.v = conv(self, a[0]) if isinstance(o, SetV) else a[0]
            return c
        if nm in ('operator==', 'operator!='):
            x = a[0]
            if isinstance(o, SetV):
                x = conv(self, x)
            elif isinstance(o, PtV):
                x = point(self, x)
            elif isinstance(o, BoxV):
                x = box(self, x)
            return (o == x) == (nm == 'operator==')
        r = getattr(self, {SetV: 'm_set', PtV: 'm_pt', BoxV: 'm_box', RgV: 'm_rg', FnA: 'm_fn'}[type(o)])(n, o, nm, a)
        if r is NotImplemented:
            raise Unsupported('%s at %s' % (n['fn'], self.where()))
        return r

    def m_set(self, n, o, nm, a):
        if nm in ('operator+=', 'operator-=', 'insert', 'remove'):
            x = conv(self, a[0])
            c = self.lval(n['obj'])
            cur = lib.V(c)
            c.v = SetV(cur.p | x.p if nm in ('operator+=', 'insert') else cur.p - x.p)
            return c
        if nm == 'clear':
            self.lval(n['obj']).v = SetV()
            return None
        if nm in ('operator+', 'operator-'):
            x = conv(self, a[0])
            return SetV(o.p | x.p if nm == 'operator+' else o.p - x.p)
        if nm == 'empty':
            return not o.p
        if nm == 'size':
            return len(o.p)
        if nm == 'rank':
            if not o.p:
                return self.space_rank(n, o)
            return o.rank()
        if nm == 'contains':
            return conv(self, a[0]).p <= o.p
        if nm == 'overlaps':
            return bool(conv(self, a[0]).p & o.p)
        if nm == 'intersect':
            return SetV(conv(self, a[0]).p & o.p)
        if nm == 'complement':
            return SetV(conv(self, a[0]).p - o.p)
        if nm in ('takeFirstDimensions', 'dropLastDimensions', 'takeLastDimensions', 'dropFirstDimensions'):
            k = a[0]
            out = set()
            for x in o.p:
                if k > len(x):
                    raise Trap('%s(%d) of an index set of rank %d at %s' % (nm, k, len(x), self.where()))
                out.add({'takeFirst': x[:k], 'dropLast': x[:len(x) - k], 'takeLast': x[len(x) - k:],
                         'dropFirst': x[k:]}[nm[:-10]])
            return SetV(out)
        if nm in ('append', 'prepend'):
            x = conv(self, a[0])
            return SetV(p + q if nm == 'append' else q + p for p in o.p for q in x.p)
        if nm in ('begin', 'end'):
            l = o.seq(self)
            return IterV(l, 0 if nm == 'begin' else len(l.items))
        if nm in ('rangesBegin', 'rangesEnd'):
            l = o.boxes(self)
            return IterV(l, 0 if nm == 'rangesBegin' else len(l.items))
        return NotImplemented

    def space_rank(self, n, o):
        raise Unsupported('rank of an empty index set at %s' % self.where())

    def m_pt(self, n, o, nm, a):
        if nm == 'append':
            return PtV(o.c + point(self, a[0]).c)
        if nm in ('takeFront', 'takeBack'):
            k = a[0]
            if k > len(o.c):
                raise Trap('%s(%d) of a point of rank %d at %s' % (nm, k, len(o.c), self.where()))
            return PtV(o.c[:k] if nm == 'takeFront' else o.c[len(o.c) - k:])
        if nm == 'rank':
            return len(o.c)
        if nm == 'operator[]':
            if not 0 <= a[0] < len(o.c):
                raise Trap('coordinate %d of a point of rank %d at %s' % (a[0], len(o.c), self.where()))
            v = o.c[a[0]]
            return At(v) if not isinstance(v, int) else v
        return NotImplemented

    def m_box(self, n, o, nm, a):
        if nm == 'operator[]':
            if not 0 <= a[0] < len(o.d):
                raise Trap('dimension %d of a box of rank %d at %s' % (a[0], len(o.d), self.where()))
            return o.d[a[0]]
        if nm == 'rank':
            return len(o.d)
        if nm in ('takeFirstDimensions', 'dropLastDimensions', 'takeLastDimensions', 'dropFirstDimensions'):
            k = a[0]
            if k > len(o.d):
                raise Trap('%s(%d) of a box of rank %d at %s' % (nm, k, len(o.d), self.where()))
            m = len(o.d)
            return BoxV({'takeFirst': o.d[:k], 'dropLast': o.d[:m - k], 'takeLast': o.d[m - k:],
                         'dropFirst': o.d[k:]}[nm[:-10]])
        if nm == 'append':
            return BoxV(o.d + box(self, a[0]).d)
        if nm == 'prepend':
            return BoxV(box(self, a[0]).d + o.d)
        if nm in ('begin', 'end'):
            l = o.seq()
            return IterV(l, 0 if nm == 'begin' else len(l.items))
        if nm == 'contains':
            return conv(self, a[0]).p <= o.pts()
        if nm == 'overlaps':
            return bool(conv(self, a[0]).p & o.pts())
        if nm == 'flatSize':
            return len(o.pts())
        return NotImplemented

    def m_rg(self, n, o, nm, a):
        if nm == 'size':
            return len(o.a)
        if nm == 'contains':
            return all(x in o.a for x in (a[0].a if isinstance(a[0], RgV) else [atom(a[0])]))
        return NotImplemented

    def m_fn(self, n, o, nm, a):
        if nm == 'map':
            return SetV(o.map(conv(self, a[0]).p))
        if nm == 'inverseMap':
            return SetV(o.inverse(conv(self, a[0]).p, conv(self, a[1]).p))
        if nm == 'clone':
            return UPtr(o)
        if nm in ('dyn_cast', 'cast'):
            t = n['ta'][0] if n.get('ta') else n['t']
            return o if o.isa(t) else None
        if nm == 'isa':
            return o.isa(n['ta'][0])
        if nm == 'getMappedPoint':
            return OptV(Cell(PtV(next(iter(next(iter(o.tab.values())))))))
        if nm == 'countVariablesUsages':
            l = lib.V(self.ev(n['a'][0]))
            l.items[:] = [Cell(u) for u in (o.uses or [1] * o.dims)]
            return None
        if nm == 'isConstant':
            return o.kind in ('const', 'constant')
        if nm == 'getNumOfDims':
            return o.dims
        if nm == 'getNumOfResults':
            return len(next(iter(next(iter(o.tab.values())))))
        return NotImplemented


# ---------------------------------------------------------------- the domain
class Dom:
    """Names of the points of one configuration of ranks."""

    def __init__(self, re, rv):
        self.re, self.rv = re, rv
        self.e = {k: self.pt(k, re) for k in 'abc'}
        self.v = {k: self.pt(k, rv) for k in 'xyz'}

    @staticmethod
    def pt(k, r):
        return tuple([k] + ['s%d' % i for i in range(1, r)])

    def es(self, ks):
        return SetV(self.e[k] for k in ks)

    def vs(self, ks):
        return SetV(self.v[k] for k in ks)

    def fn(self, kind, spec):
        """spec: the images of a, b, c (a string over xyz)."""
        return FnA(spec, {self.e[k]: frozenset([self.v[i]]) for k, i in zip('abc', spec)}, kind)


class World:
    """An interpreter with the operations on matrices."""

    def __init__(self, P, dom, mode, o=None):
        self.P, self.d = P, dom
        self.I = SetInterp(P, o, mode)

    def method(self, cls, name, n, types=()):
        c = [m for m in self.P.rec[cls]['methods'] if m['n'] == name and len(m['p']) == n and m['id'] in self.P.fn and
             all(t in str(p['t'] if isinstance(p, dict) else p) for p, t in zip(m['p'], types))]
        if len(c) != 1:
            raise AnalysisBroken('%d overloads of %s::%s' % (len(c), cls, name))
        return self.P.fn[c[0]['id']]

    def call(self, o, name, *a, types=(), cls=None):
        if cls:
            f = self.I.find_method(o.cls, name, len(a))
        else:
            f = self.method(MI + 'MCIM', name, len(a), types)
        return lib.V(self.I.call_fn(f, o, [x if isinstance(x, Cell) else Cell(x) for x in a]))

    def matrix(self, E=None, V=None):
        d = self.d
        f = [m for m in self.P.rec[MI + 'MCIM']['methods'] if m.get('kind') == 'ctor' and len(m['p']) == 2 and
             'shared_ptr' in str(m['p'][0])]
        if len(f) != 1:
            raise AnalysisBroken('constructor of MCIM')
        return self.I.construct_with(MI + 'MCIM', self.P.fn[f[0]['id']],
                                     [Cell(self.sp(E or d.es('ab'))), Cell(self.sp(V or d.vs('xy')))])

    def sp(self, s):
        return UPtr(Cell(s), True)

    def step(self, m, s):
        d = self.d
        if s[0] == 'apply':
            self.call(m, 'apply', d.es(s[2]), s[1], types=('IndexSet',))
        else:
            self.call(m, s[0], PtV(d.e[s[1]]), PtV(d.v[s[2]]))

    def get(self, m, e, v):
        return self.I.truth(self.call(m, 'get', PtV(self.d.e[e]), PtV(self.d.v[v])))

    def pairs(self, m, es='ab', vs='xy'):
        return {(e, v) for e in es for v in vs if self.get(m, e, v)}


def meaning(dom, steps, es='ab', vs='xy'):
    r = set()
    names = {p: k for k, p in dom.v.items()}
    for s in steps:
        if s[0] == 'apply':
            for e in s[2]:
                for p in s[1].tab[dom.e[e]]:
                    if names[p] in vs:
                        r.add((e, names[p]))
        elif s[0] == 'set':
            r.add((s[1], s[2]))
        else:
            r.discard((s[1], s[2]))
    return r


def show(ps):
    return '{%s}' % ' '.join('%s%s' % p for p in sorted(ps))


def functions(dom):
    g = [dom.fn('generic', s) for s in ('xyz', 'yxz', 'xxz', 'yyz', 'xzy', 'zyx', 'zxy', 'zzx')]
    if dom.re == dom.rv:
        g += [dom.fn('roto', s) for s in ('xyz', 'yxz', 'zxy', 'xzy')]
    return g + [dom.fn('const', s * 3) for s in 'xyz']


def states(dom, full=False):
    """Histories building matrices: up to two access functions and extra points."""
    fs = functions(dom)
    out = [[]]
    singles = [[('apply', f, k)] for f in fs for k in (('a', 'ab') if full else ('ab',))]
    doubles = []
    for i, f in enumerate(fs):
        for j, g in enumerate(fs):
            if i != j and (full or (i + 2 * j) % 3 == 0):
                for k in (('ab', 'ab'), ('a', 'b'), ('a', 'ab')) if full else (('ab', 'ab'),):
                    doubles.append([('apply', f, k[0]), ('apply', g, k[1])])
    sames = [[('apply', f, 'a'), ('apply', f, 'b')] for f in fs]
    pts = [[], [('set', 'a', 'y')], [('set', 'b', 'x'), ('set', 'b', 'y')],
           [('set', 'a', 'x'), ('set', 'a', 'y'), ('set', 'b', 'x'), ('set', 'b', 'y')]]
    for p in pts:
        out.append(p)
    for s in singles + sames:
        out += [s + p for p in pts]
    for i, s in enumerate(doubles):
        out += [s + p for p in (pts if full else pts[i % 3:i % 3 + 1])]
    for p in pts[1:]:
        out += [p + s for s in singles]
    return [s for i, s in enumerate(out) if s not in out[:i]]


def text(steps):
    return '; '.join('%s(%s)' % (s[0], ', '.join(map(str, s[1:]))) for s in steps) or 'nothing'


SUBS = ['', 'a', 'b', 'ab', 'c', 'bc', 'abc']


def rename(s, to):
    return s.translate(str.maketrans('abc', to))


# ---------------------------------------------------------------- obligations
MODES = [{'rev': False, 'merge': 1}, {'rev': True, 'merge': 0}, {'rev': False, 'merge': 2}]


def ob(chk, P, kind, key, where, body, o=None):
    """One obligation: body() returns a complaint or None; runs interpreted code."""
    with guard(chk, kind, key):
        try:
            r = body()
        except Trap as e:
            r = 'execution traps: %s' % e
        chk.paths += 1
        chk.ok(kind, key, r is None, r or '', where)
    chk.visited(VISITED, P)
    VISITED.clear()


def where(P, cls, name):
    for m in P.rec[cls]['methods']:
        if m['n'] == name and m['id'] in P.fn:
            return loc(P.fn[m['id']])
    return ''


def built(P, dom, steps, mode):
    w = World(P, dom, mode)
    m = w.matrix()
    for s in steps:
        w.step(m, s)
    return w, m


def names(dom, s, which):
    inv = {p: k for k, p in (dom.e if which == 'e' else dom.v).items()}
    return {inv.get(p, p) for p in s}


def differs(w, m, want, es='ab', vs='xy'):
    got = w.pairs(m, es, vs)
    if got != want:
        return 'holds %s instead of %s' % (show(got), show(want))


def spaces(w, m, es, vs):
    d = w.d
    for f, s in (('getEquationSpace', d.es(es)), ('getVariableSpace', d.vs(vs))):
        g = w.call(m, f)
        if g.p != s.p:
            return '%s is %r' % (f, g)


def state_tasks(P, dom, tag, thorough):
    """Every unary operation on every history."""
    M = MI + 'MCIM'
    sts = states(dom, thorough)
    W = {n: where(P, M, n) for n in ('get', 'set', 'unset', 'filterRows', 'filterColumns', 'flattenRows', 'flattenColumns',
                                     'withSpace', 'setEquationSpace', 'setVariableSpace', 'clear', 'empty', 'operator=',
                                     'operator+=', 'operator-=', 'operator==', 'apply')}

    def one(i, steps):
        mode = MODES[i % 3]
        sem = meaning(dom, steps)
        name = '%s %s' % (tag, text(steps))
        other = [s for s in sts[i % 7::11]][:1]

        def fresh():
            return built(P, dom, steps, mode)

        def t_get():
            w, m = fresh()
            r = differs(w, m, sem)
            if r:
                return 'after %s the matrix %s' % (text(steps), r)
            got = w.I.truth(w.call(m, 'empty'))
            if got and sem:
                return 'after %s the matrix calls itself empty' % text(steps)
            rows, cols = w.call(m, 'flattenRows'), w.call(m, 'flattenColumns')
            if names(dom, rows.p, 'v') != {v for e, v in sem}:
                return 'after %s, flattenRows is %r' % (text(steps), rows)
            if names(dom, cols.p, 'e') != {e for e, v in sem}:
                return 'after %s, flattenColumns is %r' % (text(steps), cols)

        def t_points(op):
            def body():
                for e in 'ab':
                    for v in 'xy':
                        w, m = fresh()
                        w.call(m, op, PtV(dom.e[e]), PtV(dom.v[v]))
                        want = sem | {(e, v)} if op == 'set' else sem - {(e, v)}
                        r = differs(w, m, want)
                        if r:
                            return 'after %s; %s(%s, %s) the matrix %s' % (text(steps), op, e, v, r)
            return body

        def t_filter(op):
            def body():
                w, m = fresh()
                for sub in (('', 'a', 'b', 'ab', 'bc', 'c') if op == 'filterRows' else ('', 'x', 'y', 'xy', 'yz', 'z')):
                    f = dom.es(sub) if op == 'filterRows' else dom.vs(sub)
                    n = w.call(m, op, f)
                    want = {p for p in sem if p[0 if op == 'filterRows' else 1] in sub}
                    r = differs(w, n, want) or spaces(w, n, 'ab', 'xy')
                    if r:
                        return 'after %s, the matrix of %s(%r) %s' % (text(steps), op, f, r)
                    r = differs(w, m, sem)
                    if r:
                        return 'after %s; %s(%r) the receiver %s' % (text(steps), op, f, r)
            return body

        def t_space(op):
            def body():
                for sub in (('a', 'ab', 'b', 'bc', 'abc', 'c') if op == 'e' else ('x', 'xy', 'y', 'yz', 'xyz', 'z')):
                    w, m = fresh()
                    s = dom.es(sub) if op == 'e' else dom.vs(sub)
                    w.call(m, 'setEquationSpace' if op == 'e' else 'setVariableSpace', w.sp(s))
                    es, vs = (sub, 'xy') if op == 'e' else ('ab', sub)
                    want = {p for p in sem if p[0] in es and p[1] in vs}
                    r = spaces(w, m, es, vs) or differs(w, m, want, es, vs) or flat(w, m, want)
                    if r:
                        return 'after %s and moving to the space %s x %s the matrix %s' % (text(steps), es, vs, r)
            return body

        def flat(w, m, want):
            rows, cols = w.call(m, 'flattenRows'), w.call(m, 'flattenColumns')
            if names(dom, rows.p, 'v') != {v for e, v in want}:
                return 'has rows flattening to %r' % rows
            if names(dom, cols.p, 'e') != {e for e, v in want}:
                return 'has columns flattening to %r' % cols

        def t_with():
            w, m = fresh()
            for es, vs in (('a', 'xy'), ('ab', 'x'), ('b', 'y'), ('ab', 'xy'), ('bc', 'xy'), ('ab', 'yz'), ('c', 'xy'),
                           ('abc', 'xyz')):
                n = w.call(m, 'withSpace', w.sp(dom.es(es)), w.sp(dom.vs(vs)))
                want = {p for p in sem if p[0] in es and p[1] in vs}
                r = spaces(w, n, es, vs) or differs(w, n, want, es, vs) or flat(w, n, want) or differs(w, m, sem)
                if r:
                    return 'after %s the matrix withSpace %s x %s %s' % (text(steps), es, vs, r)

        def t_copy():
            w, m = fresh()
            c = w.I.copy(m)
            r = differs(w, c, sem) or spaces(w, c, 'ab', 'xy')
            if r:
                return 'after %s the copy %s' % (text(steps), r)
            for e in 'ab':
                for v in 'xy':
                    (w.call)(c, 'unset' if (e, v) in sem else 'set', PtV(dom.e[e]), PtV(dom.v[v]))
            r = differs(w, m, sem)
            if r:
                return 'after %s, changing a copy: the original %s' % (text(steps), r)
            r = differs(w, c, {(e, v) for e in 'ab' for v in 'xy'} - sem)
            if r:
                return 'after %s, the inverted copy %s' % (text(steps), r)
            x = w.matrix()
            w.step(x, ('set', 'a', 'x'))
            f = [g for g in P.rec[MI + 'MCIM']['methods'] if g['n'] == 'operator=' and g['id'] in P.fn and
                 'const' in str(g['p'][0]['t'] if isinstance(g['p'][0], dict) else g['p'][0])]
            if f:
                w.I.call_fn(P.fn[f[0]['id']], x, [Cell(m)])
            else:
                w.I.assign_into(x, m, False)
            r = differs(w, x, sem)
            if r:
                return 'after %s the assigned matrix %s' % (text(steps), r)
            w.call(m, 'clear')
            r = differs(w, m, set()) or differs(w, x, sem) or spaces(w, m, 'ab', 'xy')
            if r:
                return 'after %s; clear() the matrix or its copy %s' % (text(steps), r)
            if not w.I.truth(w.call(m, 'empty')):
                return 'after %s; clear() the matrix is not empty' % text(steps)

        def task(chk):
            ob(chk, P, 'history', name, W['get'], t_get)
            for op in ('set', 'unset'):
                ob(chk, P, op, name, W[op], t_points(op))
            for op in ('filterRows', 'filterColumns'):
                ob(chk, P, 'filter', '%s of %s' % (op, name), W[op], t_filter(op))
            ob(chk, P, 'space', 'equations of %s' % name, W['setEquationSpace'], t_space('e'))
            ob(chk, P, 'space', 'variables of %s' % name, W['setVariableSpace'], t_space('v'))
            ob(chk, P, 'space', 'withSpace of %s' % name, W['withSpace'], t_with)
            ob(chk, P, 'copy', name, W['operator='], t_copy)
        return task
    T = [one(i, s) for i, s in enumerate(sts)]

    def binary(i, a, rest):
        def task(chk):
            for j, b in rest:
                mode = MODES[(i + j) % 3]
                sa, sb = meaning(dom, a), meaning(dom, b)

                def arith():
                    w = World(P, dom, mode)
                    m, n = w.matrix(), w.matrix()
                    for s in a:
                        w.step(m, s)
                    for s in b:
                        w.step(n, s)
                    for op, want in (('operator+', sa | sb), ('operator-', sa - sb)):
                        x = w.call(m, op, n)
                        r = differs(w, x, want) or differs(w, m, sa) or differs(w, n, sb)
                        if r:
                            return '(%s) %s (%s): a matrix %s' % (text(a), op[-1], text(b), r)
                    for op, want in (('operator+=', sa | sb), ('operator-=', sa - sb)):
                        x = w.I.copy(m)
                        w.call(x, op, n)
                        r = differs(w, x, want) or differs(w, n, sb)
                        if r:
                            return '(%s) %s (%s): the matrix %s' % (text(a), op[-2:], text(b), r)
                    for op in ('operator==', 'operator!='):
                        if w.I.truth(w.call(m, op, n)) != ((sa == sb) == (op == 'operator==')):
                            return '(%s) %s (%s) is wrong' % (text(a), op[-2:], text(b))
                ob(chk, P, 'arithmetic', '%s (%s) with (%s)' % (tag, text(a), text(b)), W['operator-='], arith)
        return task
    step = 1 if not thorough else 5
    left = sts[::step * 3]
    right = sts[1::step * 3]
    for i, a in enumerate(left):
        T.append(binary(i, a, [(j, b) for j, b in enumerate(right)]))

    def misc(chk):
        def order():
            for mode in MODES:
                w = World(P, dom, mode)
                m = w.matrix()
                it, end = w.call(m, 'indicesBegin'), w.call(m, 'indicesEnd')
                seen = []
                it0 = it
                while w.I.truth(w.call(it, 'operator!=', end, cls=it.cls)):
                    if w.I.truth(w.call(it, 'operator==', end, cls=it.cls)):
                        return 'an iterator is both equal to and different from the end'
                    v = w.call(it, 'operator*', cls=it.cls)
                    seen.append((v.c[0].v.c, v.c[1].v.c))
                    if len(seen) % 2:
                        w.call(it, 'operator++', cls=it.cls)
                    else:
                        old = w.call(it, 'operator++', Cell(0), cls=it.cls)
                        v = w.call(old, 'operator*', cls=it.cls)
                        if (v.c[0].v.c, v.c[1].v.c) != seen[-1]:
                            return 'the old value of a post-incremented iterator denotes another pair'
                    if len(seen) > 4:
                        break
                if not w.I.truth(w.call(it, 'operator==', end, cls=it.cls)):
                    return 'the iteration does not reach its end'
                if sorted(seen) != sorted((dom.e[e], dom.v[v]) for e in 'ab' for v in 'xy'):
                    return 'the iteration over the indices visits %r' % seen
        ob(chk, P, 'iteration', '%s indices' % tag, where(P, M, 'indicesBegin'), order)

        def spaces_eq():
            w = World(P, dom, None)
            a = w.matrix()
            for es, vs in (('ab', 'x'), ('a', 'xy'), ('ab', 'xy'), ('bc', 'xy'), ('ab', 'yz')):
                b = w.matrix(dom.es(es), dom.vs(vs))
                same = (es, vs) == ('ab', 'xy')
                if w.I.truth(w.call(a, 'operator==', b)) != same or w.I.truth(w.call(a, 'operator!=', b)) == same:
                    return 'comparison with an empty matrix on %s x %s' % (es, vs)
        ob(chk, P, 'iteration', '%s comparison of spaces' % tag, where(P, M, 'operator=='), spaces_eq)

        for f in functions(dom):
            def whole(f=f):
                for how in ('all', 'box', 'wide'):
                    w = World(P, dom, None)
                    m = w.matrix()
                    if how == 'all':
                        w.call(m, 'apply', f)
                        want = meaning(dom, [('apply', f, 'ab')])
                    else:
                        w.call(m, 'apply', box(w.I, PtV(dom.e['b'])), f, types=('MultidimensionalRange',))
                        want = meaning(dom, [('apply', f, 'b')])
                    r = differs(w, m, want)
                    if r:
                        return 'applying %r to %s: the matrix %s' % (f, how, r)
            ob(chk, P, 'history', '%s whole application of %r' % (tag, f), W['apply'], whole)
    T.append(misc)
    return T


# ---------------------------------------------------------------- groups
def group_tasks(P, dom, tag):
    G = NS + 'MCIMGroup'
    fs = functions(dom)
    pairs_of = {}
    if dom.rv == 1:
        fs = fs + [FnA('nothing', {p: frozenset() for p in dom.e.values()}, 'empty')]
    vals = dict(dom.v)
    zero = (0,)

    def one(f):
        empty = f.kind == 'empty'
        vs = dict(vals, o=zero) if empty else vals

        def img(e):
            return zero if empty else next(iter(f.tab[dom.e[e]]))

        def sem(ks):
            return {(k, v) for k in ks for v in vs if vs[v] == img(k)}

        def make(ks, mode=None):
            w = World(P, dom, mode)
            b = w.method(G, 'build', 1)
            u = lib.V(w.I.call_fn(b, None, [Cell(f)]))
            g = u.p.v if isinstance(u.p, Cell) else u.p
            if ks:
                w.call(g, 'addKeys', dom.es(ks), cls=G)
            return w, g

        def look(w, g, want, what, es='abc'):
            got = {(e, v) for e in es for v in vs
                   if w.I.truth(w.call(g, 'has', PtV(dom.e[e]), PtV(vs[v]), cls=G))}
            if got != want:
                return '%s holds %s instead of %s' % (what, show(got), show(want))
            ks = w.call(g, 'getKeys', cls=G)
            if names(dom, ks.p, 'e') != {e for e, v in want}:
                return '%s has the keys %r instead of those of %s' % (what, ks, show(want))
            if {v for v in vs if vs[v] in w.call(g, 'getValues', cls=G).p} != {v for e, v in want}:
                return '%s has the values %r instead of those of %s' % (what, w.call(g, 'getValues', cls=G), show(want))
            if w.I.truth(w.call(g, 'empty', cls=G)) != (not want):
                return '%s answers the wrong emptiness' % what
            for e in es:
                if w.I.truth(w.call(g, 'hasKey', PtV(dom.e[e]), cls=G)) != any(e == k for k, v in want):
                    return '%s answers wrongly whether it has the key %s' % (what, e)
            if want:
                for v in vs:
                    if w.I.truth(w.call(g, 'hasValue', PtV(vs[v]), cls=G)) != any(v == k for e, k in want):
                        return '%s answers wrongly whether it has the value %s' % (what, v)

        def task(chk):
            for ks in ('', 'a', 'b', 'ab', 'abc'):
                name = '%s %r on {%s}' % (tag, f, ks)

                def basic():
                    w, g = make(ks)
                    r = look(w, g, sem(ks), 'the group')
                    if r:
                        return r
                    c = w.call(g, 'clone', cls=G)
                    c = c.p.v if isinstance(c.p, Cell) else c.p
                    w.call(c, 'setKeys', dom.es('b'), cls=G)
                    r = look(w, g, sem(ks), 'the group after changing a clone') or look(w, c, sem('b'), 'a clone')
                    if r:
                        return r
                    for op, res in (('addKeys', set(ks) | set('bc')), ('removeKeys', set(ks) - set('bc')),
                                    ('setKeys', set('bc'))):
                        w, g = make(ks)
                        w.call(g, op, dom.es('bc'), cls=G)
                        r = look(w, g, sem(res), 'after %s the group' % op)
                        if r:
                            return r

                def points():
                    for op in ('set', 'unset'):
                        for e in 'abc':
                            for v in vs:
                                w, g = make(ks)
                                r = w.I.truth(w.call(g, op, PtV(dom.e[e]), PtV(vs[v]), cls=G))
                                fits = vs[v] == img(e)
                                if r != fits:
                                    return '%s(%s, %s) answers %s' % (op, e, v, r)
                                k = set(ks)
                                if fits:
                                    k = k | {e} if op == 'set' else k - {e}
                                r = look(w, g, sem(k), 'after %s(%s, %s) the group' % (op, e, v))
                                if r:
                                    return r

                def filters():
                    for sub in SUBS:
                        w, g = make(ks)
                        n = w.call(g, 'filterKeys', dom.es(sub), cls=G).p
                        r = look(w, n, sem(set(ks) & set(sub)), 'filterKeys(%s)' % sub) or look(w, g, sem(ks), 'the group')
                        if r:
                            return r
                    for sub in ('', 'x', 'y', 'xy', 'xyz', 'zo', 'o', 'xyo'):
                        sub = [v for v in sub if v in vs]
                        w, g = make(ks)
                        s = SetV(vs[v] for v in sub)
                        n = w.call(g, 'filterValues', s, cls=G).p
                        want = {p for p in sem(ks) if p[1] in sub}
                        r = look(w, n, want, 'filterValues(%s)' % s) or look(w, g, sem(ks), 'the group')
                        if r:
                            return r
                        w.call(g, 'removeValues', s, cls=G)
                        r = look(w, g, sem(ks) - want, 'after removeValues(%s) the group' % s)
                        if r:
                            return r
                ob(chk, P, 'group', 'keys of %s' % name, where(P, NS + 'MCIMGroupGeneric', 'addKeys'), basic)
                ob(chk, P, 'group', 'pairs of %s' % name, where(P, NS + 'MCIMGroupGeneric', 'set'), points)
                ob(chk, P, 'group', 'filters of %s' % name, where(P, NS + 'MCIMGroupGeneric', 'filterValues'), filters)
        return task
    return [one(f) for f in fs]


# ---------------------------------------------------------------- local matching solutions (C15)
def grid(rank, ks):
    """Points of the given rank over named coordinates: subsets of a 2 x 2 grid."""
    if rank == 1:
        return [(k,) for k in ks]
    return [(k[0], k[1]) for k in ks]


def vaf_functions(rank):
    """Access functions of the equations, by name: (table maker, kind, usages)."""
    one = lambda i: lambda p: [(p[i],)]
    F = {}
    if rank == 1:
        F['i'] = (one(0), 'roto', None)
        F['a'] = (lambda p: [('a',)], 'const', None)
        F['ab'] = (lambda p: [('a',), ('b',)], 'constant', None)
        F['a|b'] = (lambda p: [('b' if p[0] == 'a' else 'a',)], 'roto', None)
        F['f'] = (lambda p: [('a',)], 'generic', None)
        F['g'] = (lambda p: [('a',), ('b',)] if p[0] == 'a' else [('b',)], 'generic', None)
        F['h'] = (lambda p: [] if p[0] == 'a' else [('b',)], 'generic', None)
        F['out'] = (lambda p: [('z',)], 'const', None)
    else:
        if rank == 3:
            F['i'] = (one(0), 'roto', [1, 0, 0])
            F['j'] = (one(1), 'roto', [0, 1, 0])
            F['k'] = (one(2), 'roto', [0, 0, 1])
            F['c'] = (lambda p: [('a',)], 'roto', [0, 0, 0])
            F['s'] = (lambda p: [('s',)], 'const', None)
            F['g'] = (lambda p: [('a',), (p[2],)], 'generic', None)
            F['ki'] = (lambda p: [(p[2], p[0])], 'roto', [1, 0, 1])
            F['jj'] = (lambda p: [(p[1], p[1])], 'roto', [0, 2, 0])
            F['jik'] = (lambda p: [(p[1], p[0], p[2])], 'roto', [1, 1, 1])
            return F
        F['i'] = (one(0), 'roto', [1, 0])
        F['j'] = (one(1), 'roto', [0, 1])
        F['s'] = (lambda p: [('s',)], 'const', None)
        F['as'] = (lambda p: [('a',), ('s',)], 'constant', None)
        F['c'] = (lambda p: [('a',)], 'roto', [0, 0])
        F['g'] = (lambda p: [('a',), (p[1],)], 'generic', None)
        F['ij'] = (lambda p: [(p[0], p[1])], 'roto', [1, 1])
        F['ji'] = (lambda p: [(p[1], p[0])], 'roto', [1, 1])
        F['ii'] = (lambda p: [(p[0], p[0])], 'roto', [2, 0])
        F['ia'] = (lambda p: [(p[0], 'a')], 'roto', [1, 0])
    return F


def vaf_cases(thorough):
    out = []
    for rank in (1, 2, 3):
        F = vaf_functions(rank)
        spaces = {1: [('a', 'b'), ('a',)], 2: [('as', 'at', 'bs', 'bt'), ('as', 'at', 'bs'), ('as', 'bt'), ('at', 'bt')],
                  3: [('asa', 'asb', 'bsa', 'bsb'), ('asa', 'ata', 'asb', 'atb', 'bsa', 'bta', 'bsb', 'btb'),
                      ('asa', 'bsa', 'btb')]}[rank]
        vr = lambda n: len(F[n][0](('b', 't', 'a')[:rank])[0])
        names_ = list(F)
        combos = [(n,) for n in names_]
        combos += [(n, m) for n in names_ for m in names_ if n != m and vr(n) == vr(m)]
        if thorough:
            combos += [(n, m, k) for n in names_ for m in names_ for k in names_
                       if len({n, m, k}) == 3 and vr(n) == vr(m) == vr(k)]
        for sp in spaces:
            for c in combos:
                out.append((rank, sp, c))
    return out


def vaf_tasks(P, thorough):
    VS = MI + 'VAFSolutions'

    def one(i, rank, sp, combo):
        def task(chk):
            mode = MODES[i % 3]
            E = [tuple(k) for k in sp]
            F = vaf_functions(rank)
            uni = {p for k in ('as', 'at', 'bs', 'bt') for p in [tuple(k)]} if rank == 2 else {('a',), ('b',)} if rank == 1 \
                else {(x, y, z) for x in 'ab' for y in 'st' for z in 'ab'}
            fs = [FnA(n, {p: frozenset(F[n][0](p)) for p in uni}, F[n][1], F[n][2], F[n][0]) for n in combo]
            vr = len(F[combo[0]][0](('b', 't', 'a')[:rank])[0])
            V = {(k,) for k in 'abst'} if vr == 1 and rank > 1 else {('a',), ('b',)} if rank == 1 else \
                {(x, y) for x in 'abst' for y in 'abst'} if vr == 2 else {(y, x, z) for x in 'ab' for y in 'st' for z in 'ab'}
            want = {(e, v) for f in fs for e in E for v in f.tab[e] if v in V}
            name = '{%s} with %s' % (' '.join(map(','.join, E)), ', '.join(combo))

            def decode(w, ms):
                union = set()
                for m in ms:
                    if w.call(m, 'getEquationSpace').p != frozenset(E) or w.call(m, 'getVariableSpace').p != V:
                        return 'a solution has other spaces'
                    got = {(e, v) for e in E for v in sorted(V) if w.I.truth(w.call(m, 'get', PtV(e), PtV(v)))}
                    if len({e for e, v in got}) < len(got) or len({v for e, v in got}) < len(got):
                        return 'a solution matches an index twice: %s' % sorted(got)
                    union |= got
                if union - want:
                    return 'solutions contain %s, which no access holds' % sorted(union - want)
                if want - union:
                    return 'no solution contains %s' % sorted(want - union)

            def start():
                w = World(P, Dom(1, 1), mode)
                w.I.fuel = w.I.fuel0 = 400000
                w.I.strict_order = True
                l = ListV([UPtr(f) for f in fs], 'llvm::ArrayRef<std::unique_ptr<%sAccessFunction>>' % NS)
                return w, [Cell(l), Cell(SetV(E)), Cell(SetV(V))]

            def lazy(order):
                def body():
                    w, a = start()
                    f = [m for m in P.rec[VS]['methods'] if m.get('kind') == 'ctor' and len(m['p']) == 3]
                    if len(f) != 1:
                        raise AnalysisBroken('constructor of VAFSolutions')
                    s = w.I.construct_with(VS, P.fn[f[0]['id']], a)
                    n = w.call(s, 'size', cls=VS)
                    idx = range(n) if order else range(n - 1, -1, -1)
                    ms = [w.call(s, 'operator[]', k, cls=VS) for k in idx]
                    r = decode(w, [w.call(s, 'operator[]', k, cls=VS) for k in range(n)])
                    return r and 'with equations %s and %d solutions: %s' % (name, n, r)
                return body

            def loop():
                w, a = start()
                LS = MI + 'LocalMatchingSolutions'
                f = [g for g in P.fns(MI + 'solveLocalMatchingProblem') if len(g['p']) == 3]
                if len(f) != 1:
                    raise AnalysisBroken('solveLocalMatchingProblem')
                f = f[0]
                a = [a[1], a[2], a[0]]
                s = lib.V(w.I.call_fn(f, None, a))
                ms = [c.v for c in lib.iterate(w.I, s)]
                r = decode(w, ms)
                if r is None and len(ms) != w.call(s, 'size', cls=LS):
                    r = 'size() is not the number of solutions visited'
                return r and 'with equations %s: %s' % (name, r)
            wh = where(P, VS, 'fetchNext')
            ob(chk, P, 'lazy', name, wh, lazy(True))
            ob(chk, P, 'lazy', name + ', backwards', wh, lazy(False))
            ob(chk, P, 'solve', name, wh, loop)
        return task
    return [one(i, *c) for i, c in enumerate(vaf_cases(thorough))]


def split_tasks(P, dom, tag, thorough):
    """Solutions of a matrix: every pair in one of them, none matching an index twice."""
    sts = states(dom, thorough)

    def one(i, steps):
        def task(chk):
            sem = meaning(dom, steps)

            def check(w, ms):
                union = set()
                for m in ms:
                    got = w.pairs(m)
                    if len({e for e, v in got}) < len(got) or len({v for e, v in got}) < len(got):
                        return 'a solution matches an index twice: %s' % show(got)
                    r = spaces(w, m, 'ab', 'xy')
                    if r:
                        return 'of a solution, %s' % r
                    union |= got
                if union != sem:
                    return 'the solutions hold %s instead of %s' % (show(union), show(sem))

            def split():
                w, m = built(P, dom, steps, MODES[i % 3])
                w.I.strict_order = True
                w.I.fuel = w.I.fuel0 = 400000
                r = check(w, w.call(m, 'splitGroups').vals) or differs(w, m, sem)
                return r and 'after %s: %s' % (text(steps), r)

            def solve():
                w, m = built(P, dom, steps, MODES[i % 3])
                w.I.fuel = w.I.fuel0 = 400000
                f = [g for g in P.fns(MI + 'solveLocalMatchingProblem') if len(g['p']) == 1]
                s = lib.V(w.I.call_fn(f[0], None, [Cell(m)]))
                r = check(w, [c.v for c in lib.iterate(w.I, s)])
                return r and 'after %s: %s' % (text(steps), r)

            def valid():
                w, m = built(P, dom, steps, MODES[i % 3])
                f = P.one(MI + 'isValidLocalMatchingSolution')
                r = w.I.truth(lib.V(w.I.call_fn(f, None, [Cell(m)])))
                fine = len({e for e, v in sem}) == len(sem) == len({v for e, v in sem})
                if r != fine:
                    return 'after %s the matrix is judged %s' % (text(steps), 'valid' if r else 'invalid')
            ob(chk, P, 'split', '%s %s' % (tag, text(steps)), where(P, MI + 'MCIM', 'splitGroups'), split)
            ob(chk, P, 'split', '%s solutions of %s' % (tag, text(steps)), where(P, MI + 'MCIMSolutions', 'compute'), solve)
            ob(chk, P, 'valid', '%s %s' % (tag, text(steps)), loc(P.one(MI + 'isValidLocalMatchingSolution')), valid)
        return task
    return [one(i, s) for i, s in enumerate(sts)]
