"""Graphs and hash keys (C19).

The graphs are interpreted, with the bodies of llvm::DirectedGraph, on histories
of additions and removals; a plain list of vertices and edges is the oracle.
Heap storage is tracked: what is released must not be used or released again."""
import itertools
from sa.facts import *
from sa.facts import LLVM
from sa.interp import *
from sa.interp import DEAD, UNINIT
from sa import lib
from .incidence import NS, MI, Val

C = 'ctl::'
IMPL = MI + 'impl::'
_g = {}
INDEXSET = ('llvm::DenseMapInfo<%sIndexSet>::' % NS, 'llvm::DenseMapInfo<%sIndexSet, void>::' % NS)


def program():
    if 'p' not in _g:
        _g['p'] = Program([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'controls/containers.cpp')]
                          + srcs('lib/Modeling/Point.cpp', 'lib/Modeling/Range.cpp', 'lib/Modeling/MultidimensionalRange.cpp'),
                          more=[LLVM + '/include/llvm/ADT/DirectedGraph.h'])
    return _g['p']


RESERVED = {True: Obj('<empty key pointer>'), False: Obj('<tombstone key pointer>')}


class FiltV:
    """llvm::filter_iterator: the iterator, its end and the predicate."""
    __slots__ = ('cur', 'end', 'pred')

    def __init__(self, cur, end, pred):
        self.cur, self.end, self.pred = cur, end, pred

    def skip(self, I):
        while I.truth(lib.user_ne(I, self.cur, self.end)) and \
                not I.truth(lib.V(I.invoke(self.pred, [lib.as_cell(lib.user_op(I, self.cur, 'operator*', 0))]))):
            lib.user_op(I, self.cur, 'operator++', 0)


class SetName(Val):
    """An index set known only by name."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is SetName and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return self.n


class CHooks:
    def get(self, c, d=None):
        if c.startswith(('llvm::filter_iterator_impl<', 'llvm::filter_iterator_base<')):
            return filt
        if c == NS + 'IndexSet':
            return lambda I, e: lib.V(I.ev(e['a'][0])) if e['a'] else SetName('{}')
        return d

    def __contains__(self, c):
        return self.get(c) is not None


def filt(I, e):
    a = [lib.V(I.ev(x)) for x in e['a']]
    if len(a) == 1 and isinstance(a[0], FiltV):
        return FiltV(I.copy(a[0].cur), I.copy(a[0].end), a[0].pred)
    r = FiltV(I.copy(a[0]), I.copy(a[1]), a[2])
    r.skip(I)
    return r


class GraphInterp(Interp):
    def __init__(self, P):
        super().__init__(P, ctor_hooks=CHooks())
        self.heap = []
        self.owned = []     # what smart pointers release by themselves

    def ptr_own(self, v):
        v = lib.V(v)
        if isinstance(v, Obj):
            for l in (self.heap, self.owned):
                if not any(x is v for x in l):
                    l.append(v)

    def ptr_disown(self, v):
        v = lib.V(v)
        self.owned = [x for x in self.owned if x is not v]

    def copy(self, v):
        if isinstance(v, FiltV):
            return FiltV(self.copy(v.cur), self.copy(v.end), v.pred)
        return super().copy(v)

    def call(self, n):
        fn = n.get('fn') or ''
        if fn.startswith(('llvm::filter_iterator', 'llvm::iterator_adaptor_base<', 'llvm::iterator_facade_base<')):
            o = lib.V(self.ev(n['obj'] if 'obj' in n else n['a'][0]))
            rest = n['a'] if 'obj' in n else n['a'][1:]
            if isinstance(o, FiltV):
                nm = fn.rsplit('::', 1)[-1]
                if nm == 'operator*':
                    return lib.as_cell(lib.user_op(self, o.cur, 'operator*', 0))
                if nm == 'operator++':
                    old = self.copy(o)
                    lib.user_op(self, o.cur, 'operator++', 0)
                    o.skip(self)
                    return old if rest and 'obj' in n else Cell(o)
                if nm in ('operator==', 'operator!='):
                    ne = self.truth(lib.user_ne(self, o.cur, lib.V(self.ev(rest[0])).cur))
                    return ne if nm == 'operator!=' else not ne
        if fn.startswith(INDEXSET) and fn.endswith('isEqual'):
            return lib.V(self.ev(n['a'][0])) == lib.V(self.ev(n['a'][1]))
        if fn.startswith(INDEXSET) and fn.endswith('getHashValue'):
            return Tok('hash', lib.V(self.ev(n['a'][0])).n)
        if fn.startswith('llvm::DenseMapInfo<') and fn.endswith(('::getEmptyKey', '::getTombstoneKey')) and n['id'] not in self.P.fn:
            t = fn[len('llvm::DenseMapInfo<'):fn.rindex('>')].split(',')[0].strip() if '*' not in fn else '*'
            e = fn.endswith('getEmptyKey')
            if t == NS + 'IndexSet':
                return SetName('empty key' if e else 'tombstone key')
            if '*' in fn:
                return RESERVED[e]
            if t.startswith('unsigned'):
                b = 64 if 'long' in t else 32
                return 2 ** b - (1 if e else 2)
            if t == 'long':
                return 2 ** 63 - (1 if e else 2)
            if t in ('int', 'long long'):
                b = 31 if t == 'int' else 63
                return 2 ** b - 1 if e else -2 ** b
        return super().call(n)

    def e_new(self, e):
        v = super().e_new(e)
        if isinstance(v, Obj):
            self.heap.append(v)
        return v

    def e_delete(self, e):
        v = lib.V(self.ev(e['e']))
        if v is None:
            return
        if isinstance(v, Obj):
            if v.f is DEAD:
                raise Trap('%s deleted twice at %s' % (v.cls.split('::')[-1][:40], self.where()))
            if not any(x is v for x in self.heap):
                raise Trap('deletion of a %s that was not allocated, at %s' % (v.cls.split('::')[-1][:40], self.where()))
            self.destroy(v)
            return
        raise Unsupported('deletion of %r at %s' % (v, self.where()))


class World:
    """A graph of the repository and the list of what was put into it."""

    def __init__(self, P, cls, probe):
        self.P, self.cls, self.probe = P, cls, probe
        self.I = GraphInterp(P)
        if not any(f.get('cls') == cls and f.get('kind') == 'ctor' and not f['p'] for f in P.fn.values()):
            raise AnalysisBroken('no default constructor of %s' % cls)
        self.g = self.I.default_construct(cls)
        self.directed = 'Undirected' not in cls
        self.v = []         # [id, descriptor]
        self.e = []         # [id, from id, to id, descriptor]
        self.n = 0

    def has(self, m):
        return bool(self.P.fns(self.probe + m))

    def do(self, m, *a):
        self.I.fuel = 200000
        r = self.I.call_fn(self.P.one(self.probe + m), None, [x if isinstance(x, Cell) else Cell(x) for x in (self.g,) + a])
        return lib.V(r)

    def prop(self):
        self.n += 1
        o = Obj(C + 'P')
        o.f[C + 'P::id'] = Cell(self.n)
        return o

    def add(self):
        p = self.prop()
        self.v.append([self.n, self.do('add', p)])

    def link(self, i, j):
        p = self.prop()
        a, b = self.v[i], self.v[j]
        d = self.do('link', self.I.copy(a[1]), self.I.copy(b[1]), p)
        self.e.append([self.n, a[0], b[0], d])

    def drop(self, i):
        x = self.v.pop(i)
        self.e = [e for e in self.e if x[0] not in (e[1], e[2])]
        self.do('drop', self.I.copy(x[1]))

    def listing(self, m, *a):
        out = ListV((), 'std::vector<X>')
        self.do(m, *[self.I.copy(x) for x in a], Cell(out))
        return out.vals

    def vid(self, d):
        return self.do('vertex', self.I.copy(d)).get('id')

    def edge(self, d):
        """Identity and ends of an edge of a listing."""
        return self.do('edge', self.I.copy(d)).get('id'), self.vid(d.get('from')), self.vid(d.get('to'))

    def seen(self, e):
        return e if self.directed else (e[0],) + tuple(sorted(e[1:]))

    def check(self):
        vs = sorted(x[0] for x in self.v)
        es = sorted(self.seen((e[0], e[1], e[2])) for e in self.e)
        for m, keep in (('vertices', lambda i: True), ('someVertices', lambda i: i % 2 == 1)):
            if self.has(m):
                got = sorted(self.vid(d) for d in self.listing(m))
                want = [i for i in vs if keep(i)]
                if got != want:
                    return 'the vertices are %s instead of %s' % (got, want)
        for m, keep in (('edges', lambda i: True), ('someEdges', lambda i: i % 2 == 1)):
            if self.has(m):
                got = sorted(self.seen(self.edge(d)) for d in self.listing(m))
                want = [e for e in es if keep(e[0])]
                if got != want:
                    return 'the edges (property, from, to) are %s instead of %s' % (got, want)
        for i, d in self.v:
            if self.vid(d) != i or ('cvertex' in self.ms() and self.do('cvertex', self.I.copy(d)).get('id') != i):
                return 'the property of vertex %d is another one' % i
            out = [(e[0], e[1], e[2]) for e in self.e if e[1] == i] + \
                  ([] if self.directed else [(e[0], e[2], e[1]) for e in self.e if e[2] == i])
            for m, keep in (('outgoing', lambda i: True), ('someOutgoing', lambda i: i % 2 == 1)):
                if self.has(m):
                    got = sorted(self.edge(x) for x in self.listing(m, d))
                    want = sorted(e for e in out if keep(e[0]))
                    if got != want:
                        return 'the edges leaving vertex %d are %s instead of %s' % (i, got, want)
            got = sorted(self.vid(x) for x in self.listing('linked', d))
            want = sorted(e[2] for e in out)
            if got != want:
                return 'the vertices linked to %d are %s instead of %s' % (i, got, want)
        for e in self.e:
            if self.edge(e[3]) != (e[0], e[1], e[2]):
                return 'edge %d leads from %s to %s' % self.edge(e[3])
            if 'cedge' in self.ms() and self.do('cedge', self.I.copy(e[3])).get('id') != e[0]:
                return 'the property of edge %d is another one' % e[0]
        if self.has('countVertices') and self.do('countVertices') != len(vs):
            return '%r vertices are counted instead of %d' % (self.do('countVertices'), len(vs))
        if self.has('countEdges') and self.do('countEdges') != len(es):
            return '%r edges are counted instead of %d' % (self.do('countEdges'), len(es))
        if self.has('sameVertex'):
            for x, y in itertools.product(self.v, repeat=2):
                for m, want in (('sameVertex', x is y), ('otherVertex', x is not y)):
                    if self.I.truth(self.do(m, x[1], y[1])) != want:
                        return 'the descriptors of vertices %d and %d compare wrongly' % (x[0], y[0])
                if x is not y and self.I.truth(self.do('before', x[1], y[1])) == self.I.truth(self.do('before', y[1], x[1])):
                    return 'vertices %d and %d are not ordered' % (x[0], y[0])
            for x, y in itertools.product(self.e, repeat=2):
                for m, want in (('sameEdge', x is y), ('otherEdge', x is not y)):
                    if self.I.truth(self.do(m, x[3], y[3])) != want:
                        return 'the descriptors of edges %d and %d compare wrongly' % (x[0], y[0])
        return None

    def ms(self):
        return ('cvertex', 'cedge') if self.has('cvertex') else ()

    def release(self):
        """The destructor gives all storage back, once."""
        base = [c for c in [self.cls] + list(self.P.bases(self.cls))]
        for c in base:
            for f in self.P.fn.values():
                if f.get('cls') == c and short(f['n']).startswith('~') and f.get('body') is not None and not f.get('defaulted'):
                    self.I.call_fn(f, self.g, [])
        left = [x for x in self.I.heap if x.f is not DEAD and not any(y is x for y in self.I.owned)]
        if left:
            return '%d of %d allocations are never released (%s)' % (
                len(left), len(self.I.heap), ', '.join(sorted({x.cls.split('::')[-1][:30] for x in left})))
        return None


def attempt(chk, P, kind, key, where, body, I=None):
    try:
        msg = body()
    except Trap as t:
        msg = str(t)
    except (Unsupported, Infeasible) as u:
        chk.undecided(kind, key, u)
        return
    chk.ok(kind, key, msg is None, msg or '', where)


def histories(directed, thorough):
    """Edges between up to three vertices, then removals and further additions."""
    pairs = [(i, j) for i in range(3) for j in range(3) if directed or i < j]
    if not directed:
        pairs += [(1, 0)]
    for n in range(5 if thorough and directed else 4):
        for es in itertools.combinations_with_replacement(pairs, n):
            for first in range(3):
                for second in range(2):
                    yield es, first, second
    # denser ones
    full = [p for p in pairs if p[0] != p[1]]
    for first in range(3):
        for second in range(2):
            yield tuple(full + full[:1]), first, second
            yield tuple(pairs), first, second


def run_history(P, cls, probe, es, first, second):
    w = World(P, cls, probe)
    w.P = P
    msg = w.check()
    for _ in range(3):
        w.add()
    for i, j in es:
        w.link(i, j)
    msg = msg or w.check()
    if not msg:
        w.drop(first)
        msg = w.check() and 'after removing vertex %d: %s' % (first, w.check())
    if not msg:
        w.add()
        w.link(2, second)
        w.link(1, 2)
        msg = w.check() and 'after adding again: %s' % w.check()
    if not msg:
        w.drop(second)
        msg = w.check() and 'after removing another vertex: %s' % w.check()
    if not msg:
        msg = w.release()
    return msg, w


GRAPHS = {'directed': (MI + 'DirectedGraph<ctl::P, ctl::P>', True),
          'undirected': (MI + 'UndirectedGraph<ctl::P, ctl::P>', False)}
ENTRY = {'single entry': NS + 'dependency::SingleEntryDigraph<ctl::P, ctl::P>',
         'weakly connected': MI + 'dependency::SingleEntryWeaklyConnectedDigraph<ctl::P, ctl::P>'}


def where_of(P, cls):
    for f in P.fn.values():
        if f.get('cls') == cls and short(f['n']) == 'addVertex':
            return loc(f)
    return ''


def graph_tasks(P, thorough):
    T = []
    for name, (cls, directed) in GRAPHS.items():
        w = where_of(P, P.bases(cls)[0])

        def mk(name, cls, es, first, second, w=w):
            def task(chk):
                def body():
                    msg, wd = run_history(P, cls, C + 'Probe<%s>::' % cls, es, first, second)
                    chk.visited(wd.I.visited, P)
                    return msg
                attempt(chk, P, name, '%s graph, edges %s, vertices %d and %d removed' % (
                    name, ' '.join('%d-%d' % e for e in es) or 'none', first, second), w, body)
            return task
        for es, first, second in histories(directed, thorough):
            T.append(mk(name, cls, es, first, second))
    for name, cls in ENTRY.items():
        w = where_of(P, cls)
        pairs = [(i, j) for i in range(3) for j in range(3)]

        def mk(name, cls, n, es, w=w):
            def task(chk):
                def body():
                    return run_entry(chk, P, name, cls, n, es)
                attempt(chk, P, 'entry', '%s, %d vertices, edges %s' % (name, n, ' '.join('%d-%d' % e for e in es) or 'none'), w, body)
            return task
        for n in range(4):
            ps = [p for p in pairs if max(p) < n]
            for k in range(3):
                for es in itertools.combinations_with_replacement(ps, k):
                    T.append(mk(name, cls, n, es))
    return T


def run_entry(chk, P, name, cls, n, es):
    w = World(P, cls, C + 'Entry<%s>::' % cls)
    for _ in range(n):
        w.add()
    for i, j in es:
        w.link(i, j)
    root = w.do('entry')
    got = sorted(w.vid(d) for d in w.listing('vertices'))
    want = sorted(x[0] for x in w.v)
    if got != want:
        return 'the vertices are %s instead of %s' % (got, want)
    rid = root.get('id')
    ids = {x[1].get('id'): x[0] for x in w.v}

    def end(d):
        return 'entry' if d.get('id') == rid else ids[d.get('id')]
    links = sorted((end(d) for d in w.listing('linked', root)), key=str)
    if links != ([] if name == 'single entry' else sorted(want, key=str)):
        return 'the entry leads to %s' % links
    rest = sorted(w.edge(d) for d in w.listing('edges') if end(d.get('from')) != 'entry')
    if rest != sorted((e[0], e[1], e[2]) for e in w.e):
        return 'the edges (property, from, to) are %s' % rest
    for i, d in w.v:
        got = sorted(w.edge(x) for x in w.listing('outgoing', d))
        if got != sorted((e[0], e[1], e[2]) for e in w.e if e[1] == i):
            return 'the edges leaving vertex %d are %s' % (i, got)
        got = sorted(w.vid(x) for x in w.listing('linked', d))
        if got != sorted(e[2] for e in w.e if e[1] == i):
            return 'the vertices linked to %d are %s' % (i, got)
    chk.visited(w.I.visited, P)
    return None


# ------------------------------------------------------------------ hash keys
def reals(P, I, k):
    """Ordinary keys of class k: (identity, value)."""
    def rng(a, b):
        return I.new(NS + 'Range', a, b)

    def box(*r):
        m = Obj(NS + 'MultidimensionalRange')
        f = P.fields(m.cls)
        m.f[f[0][0] + '::' + f[0][1]['n']] = Cell(ListV([rng(*x) for x in r], f[0][1]['t']))
        return m

    def point(*c):
        m = Obj(NS + 'Point')
        f = P.fields(m.cls)
        m.f[f[0][0] + '::' + f[0][1]['n']] = Cell(ListV(list(c), f[0][1]['t']))
        return m
    if k == NS + 'Range':
        return [((a, b), rng(a, b)) for a in range(-1, 3) for b in range(a + 1, 4)]
    if k == NS + 'Point':
        return [(c, point(*c)) for n in (1, 2) for c in itertools.product((-1, 0, 1), repeat=n)]
    if k == NS + 'MultidimensionalRange':
        one = [(0, 1), (0, 2), (1, 2)]
        return [(c, box(*c)) for n in (1, 2) for c in itertools.product(one, repeat=n)]
    return None


def key_tasks(P):
    T = []
    for q in sorted(P.by_name):
        if q.startswith(C + 'Keys<') and q.endswith('>::empty'):
            k = q[len(C + 'Keys<'):-len('>::empty')]
            if k != NS + 'IndexSet':
                T.append(lambda chk, k=k, q=q: keys(chk, P, k, q[:-len('empty')]))
    return T


def kname(k):
    if 'ReducedEquationView<' in k:
        return 'ReducedEquationView'
    for x in ('VertexDescriptor', 'EdgeDescriptor'):
        if k.startswith(IMPL + x):
            return ('undirected ' if 'UndirectedGraph' in k.split('ctl::P')[0] else 'directed ') + x
    return k.split('::')[-1]


def keys(chk, P, k, pre):
    n = kname(k)
    w = ''
    for f in P.fn.values():
        if f.get('cls', '').startswith('llvm::DenseMapInfo<' + k[:60]) and f['file'].startswith(REPO):
            w = loc(f)
            break
    I = GraphInterp(P)

    def f(m, *a):
        I.fuel = 100000
        return lib.V(I.call_fn(P.one(pre + m), None, [Cell(x) for x in a]))

    def eq(a, b):
        return I.truth(f('equal', a, b))
    if 'Descriptor' in n or 'View' in n:
        cls = MI + ('UndirectedGraph' if n.startswith('un') else 'DirectedGraph') + '<ctl::P, ctl::P>'
        wd = World(P, cls, C + 'Probe<%s>::' % cls)
        I = wd.I
        for _ in range(3):
            wd.add()
        for i, j in ((0, 1), (1, 2), (0, 2), (0, 1)):
            wd.link(i, j)
        o = World(P, cls, wd.probe)
        o.I = wd.I
        for _ in range(2):
            o.add()
        o.link(0, 1)
        if 'View' in n:
            vals = [((x[0], s), I.new(k, I.copy(x[1]), SetName(s))) for x in wd.v for s in 'ab']
        elif 'Vertex' in n:
            vals = [(x[0], I.copy(x[1])) for x in wd.v] + [(wd.vid(d), d) for d in wd.listing('vertices')] + \
                [(('other graph', x[0]), I.copy(x[1])) for x in o.v]
        else:
            vals = [(x[0], I.copy(x[3])) for x in wd.e] + [(wd.edge(d)[0], d) for i, v in wd.v for d in wd.listing('outgoing', v)
                                                          if wd.directed or not any(wd.edge(d)[1:] == (e[2], e[1]) for e in wd.e)] + \
                [(('other graph', x[0]), I.copy(x[3])) for x in o.e]
    else:
        vals = reals(P, I, k)
    sp = {}

    def special():
        sp['e'], sp['t'] = f('empty'), f('tombstone')
        if not eq(sp['e'], f('empty')) or not eq(sp['t'], f('tombstone')):
            return 'a reserved key differs from itself'
        if eq(sp['e'], sp['t']) or eq(sp['t'], sp['e']):
            return 'the empty and the tombstone key are equal: elements of a table become unreachable after erasures'
        return None
    attempt(chk, P, 'reserved keys', n, w, special)

    for s in ('e', 't'):
        for i, (a, x) in enumerate(vals):
            attempt(chk, P, 'reserved against others', '%s: %s and %s key' % (n, a, {'e': 'empty', 't': 'tombstone'}[s]), w,
                    lambda: 'a reserved key equals an ordinary one' if s in sp and (eq(sp[s], x) or eq(x, sp[s])) else None)
    for (a, x), (b, y) in itertools.product(vals, repeat=2):
        def body():
            if eq(x, y) != (a == b):
                return 'the keys %s and %s are %s' % (a, b, 'equal' if a != b else 'different')
            if a == b and repr(f('hash', x)) != repr(f('hash', y)):
                return 'equal keys have different hash values'
            return None
        attempt(chk, P, 'keys', '%s: %s and %s' % (n, a, b), w, body)
    chk.visited(I.visited, P)
