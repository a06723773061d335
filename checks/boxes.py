"""Interval and box algebra over symbolic integers (C06), coherence of comparisons (C07)."""
import itertools
from .zones import *

PR = NS


def fwhere(P, cls, name):
    for m in P.rec[cls]['methods']:
        if m['n'] == name and m['id'] in P.fn:
            return loc(P.fn[m['id']])
    return ''


def by_type(sub):
    """Overload whose first parameter mentions the class sub (or is a plain number)."""
    def p(m):
        t = m['p'][0]['t']
        if sub == 'num':
            return not any(x in t for x in ('Range', 'Point', 'IndexSet', 'Vector'))
        return ('::' + sub) in t
    return p


def count_in(c, pt, boxes):
    return sum(c.in_box(pt, b) for b in boxes)


def ranges(chk, P, ns=NS, kind='range', only=None):
    R = ns + 'Range'

    def ob(name, body, key=None):
        if only and name not in only:
            return
        has = any(m['n'] == name for m in P.rec[R]['methods'])
        if only and not has:
            return
        decide(chk, kind, key or name, fwhere(P, R, name), P, body, ns=ns)

    def two(c):
        return c.rng('A'), c.rng('B')

    def relation(name, expect, show):
        def body(c):
            a, b = two(c)
            p = c.num('p')
            got = c.I.truth(c.call(a, name, b, pred=by_type('Range')))
            e = expect(c, a, b)
            if got != e:
                return '%s.%s(%s) is %s; %s' % (c.show(a), name, c.show(b), got, show)
        ob(name, body, name + '(range)')

    def common(c, a, b):
        (x, y), (u, v) = c.ends(a), c.ends(b)
        return c.test('<', x, v) and c.test('<', u, y)

    def within(c, a, b):
        (x, y), (u, v) = c.ends(a), c.ends(b)
        return c.test('<=', x, u) and c.test('<=', v, y)

    def touching(c, a, b):
        (x, y), (u, v) = c.ends(a), c.ends(b)
        return c.test('<=', x, v) and c.test('<=', u, y)
    relation('overlaps', common, 'they %s a common point' % 'must overlap exactly when they share')
    relation('contains', within, 'containment must hold exactly when every point of the argument is contained')
    relation('canBeMerged', touching, 'merging must be possible exactly when the union has no gap')

    def contains_pt(c):
        a, p = c.rng('A'), c.num('p')
        got = c.I.truth(c.call(a, 'contains', p, pred=by_type('num')))
        if got != c.in_range(p, a):
            return '%s.contains(%r) is %s' % (c.show(a), p, got)
    ob('contains', contains_pt, 'contains(point)')

    def size(c):
        a = c.rng('A')
        b, e = c.ends(a)
        s = c.call(a, 'size')
        if not c.test('==', s, c.I.binop('-', e, b)):
            return '%s has size %r' % (c.show(a), s)
    ob('size', size)

    def intersect(c):
        a, b = two(c)
        if not common(c, a, b):
            return
        r = c.call(a, 'intersect', b)
        p = c.num('p')
        if not c.wellformed(r) or c.in_range(p, r) != (c.in_range(p, a) and c.in_range(p, b)):
            return '%s.intersect(%s) = %s' % (c.show(a), c.show(b), c.show(r))
    ob('intersect', intersect)

    def merge(c):
        a, b = two(c)
        if not touching(c, a, b):
            return
        r = c.call(a, 'merge', b)
        p = c.num('p')
        if not c.wellformed(r) or c.in_range(p, r) != (c.in_range(p, a) or c.in_range(p, b)):
            return '%s.merge(%s) = %s' % (c.show(a), c.show(b), c.show(r))
    ob('merge', merge)

    def subtract(c):
        a, b = two(c)
        r = c.call(a, 'subtract', b).vals
        p = c.num('p')
        n = sum(c.in_range(p, x) for x in r)
        if not all(c.wellformed(x) for x in r) or n != int(c.in_range(p, a) and not c.in_range(p, b)):
            return '%s.subtract(%s) = {%s}' % (c.show(a), c.show(b), ', '.join(map(c.show, r)))
    ob('subtract', subtract)

    def ctor(c):
        b, e = c.num('b'), c.num('e')
        c.assume('<', b, e)
        r = c.mkrange(b, e)
        x, y = c.ends(r)
        if not (c.test('==', x, b) and c.test('==', y, e)):
            return 'Range(b, e) is %s' % c.show(r)
    ob('getBegin', ctor, 'constructor')
    for n in (1, 2, 3):
        def iterate(c, n=n):
            b = c.num('b')
            a = c.mkrange(b, c.I.binop('+', b, n))
            out = [x.v for x in itertools.islice(lib.iterate(c.I, a), n + 2)]
            if len(out) != n or not all(c.test('==', x, c.I.binop('+', b, i)) for i, x in enumerate(out)):
                return 'iterating over %s yields %r' % (c.show(a), out)
        ob('begin', iterate, 'iteration of %d points' % n)


def boxes(chk, P, ranks, kind='box'):
    B = NS + 'MultidimensionalRange'

    def ob(name, key, body):
        decide(chk, kind, key, fwhere(P, B, name), P, body, limit=60000)

    for rk in ranks:
        def two(c):
            return c.box('A', rk), c.box('B', rk)

        def pt(c):
            return [c.num('p%d' % i) for i in range(rk)]

        def exists_common(c, a, b):
            return all(c.test('<', c.ends(x)[0], c.ends(y)[1]) and c.test('<', c.ends(y)[0], c.ends(x)[1])
                       for x, y in zip(c.dims(a), c.dims(b)))

        def any_common(c, a, b):
            return any(c.test('<', c.ends(x)[0], c.ends(y)[1]) and c.test('<', c.ends(y)[0], c.ends(x)[1])
                       for x, y in zip(c.dims(a), c.dims(b)))

        def within(c, a, b):
            return all(c.test('<=', c.ends(x)[0], c.ends(y)[0]) and c.test('<=', c.ends(y)[1], c.ends(x)[1])
                       for x, y in zip(c.dims(a), c.dims(b)))

        for name, f in (('overlaps', exists_common), ('contains', within), ('anyDimensionOverlaps', any_common)):
            def rel(c, name=name, f=f):
                a, b = two(c)
                got = c.I.truth(c.call(a, name, b, pred=by_type('MultidimensionalRange')))
                if got != f(c, a, b):
                    return '%s.%s(%s) is %s' % (c.show(a), name, c.show(b), got)
            ob(name, '%s, rank %d' % (name, rk), rel)

        def contains_pt(c):
            a, p = c.box('A', rk), pt(c)
            got = c.I.truth(c.call(a, 'contains', c.point(p), pred=by_type('Point')))
            if got != c.in_box(p, a):
                return '%s.contains(%r) is %s' % (c.show(a), p, got)
        ob('contains', 'contains(point), rank %d' % rk, contains_pt)

        def frompoint(c):
            q, p = [c.num('q%d' % i) for i in range(rk)], pt(c)
            b = c.I.new(B, c.point(q), pred=lambda m: 'Point' in m['p'][0]['t'])
            same = all(c.test('==', x, y) for x, y in zip(p, q))
            if c.in_box(p, b) != same:
                return 'the box of point %r is %s' % (q, c.show(b))
        ob('MultidimensionalRange', 'box of a point, rank %d' % rk, frompoint)

        def size(c):
            a = c.box('A', rk)
            want = 1
            for d in c.dims(a):
                x, y = c.ends(d)
                want = c.I.binop('*', want, c.I.binop('-', y, x))
            s = c.call(a, 'size')
            if not c.test('==', s, want):
                return '%s has size %r' % (c.show(a), s)
            out = ListV((), 'llvm::SmallVector<unsigned long>')
            c.call(a, 'getSizes', out)
            if len(out.vals) != rk or not all(c.test('==', s, c.I.binop('-', c.ends(d)[1], c.ends(d)[0]))
                                              for s, d in zip(out.vals, c.dims(a))):
                return '%s has sizes %r' % (c.show(a), out.vals)
        ob('size', 'size, rank %d' % rk, size)

        def intersect(c):
            a, b = two(c)
            if not exists_common(c, a, b):
                return
            r = c.call(a, 'intersect', b)
            p = pt(c)
            if not all(c.wellformed(d) for d in c.dims(r)) or \
                    c.in_box(p, r) != (c.in_box(p, a) and c.in_box(p, b)):
                return '%s.intersect(%s) = %s' % (c.show(a), c.show(b), c.show(r))
        ob('intersect', 'intersect, rank %d' % rk, intersect)

        def subtract(c):
            a, b = two(c)
            p = pt(c)
            want = c.in_box(p, a) and not c.in_box(p, b)
            r = c.call(a, 'subtract', b).vals
            if any(len(c.dims(x)) != rk or not all(c.wellformed(d) for d in c.dims(x)) for x in r) or \
                    count_in(c, p, r) != int(want):
                return '%s.subtract(%s) = {%s}' % (c.show(a), c.show(b), ', '.join(map(c.show, r)))
        if rk <= 3:
            ob('subtract', 'subtract, rank %d' % rk, subtract)

        def merge(c):
            a, b = two(c)
            r = c.call(a, 'canBeMerged', b)
            can, dim = c.I.truth(r.c[0].v), r.c[1].v
            diff = [i for i, (x, y) in enumerate(zip(c.dims(a), c.dims(b)))
                    if not (c.test('==', c.ends(x)[0], c.ends(y)[0]) and c.test('==', c.ends(x)[1], c.ends(y)[1]))]
            want = False
            if len(diff) == 1:
                (x, y), (u, v) = c.ends(c.dims(a)[diff[0]]), c.ends(c.dims(b)[diff[0]])
                want = c.test('<=', x, v) and c.test('<=', u, y)
            if can != want:
                return '%s.canBeMerged(%s) is %s, but they %s' % (
                    c.show(a), c.show(b), can, 'differ in one dimension without a gap' if want else
                    'do not differ in exactly one dimension without a gap')
            if not can:
                return
            if dim != diff[0]:
                return '%s.canBeMerged(%s) names dimension %r' % (c.show(a), c.show(b), dim)
            m = c.call(a, 'merge', b, dim)
            p = pt(c)
            if c.in_box(p, m) != (c.in_box(p, a) or c.in_box(p, b)):
                return '%s.merge(%s) = %s' % (c.show(a), c.show(b), c.show(m))
        ob('merge', 'merge, rank %d' % rk, merge)

        def mbr(c):
            a, b = two(c)
            f = P.one('marco::modeling::r_tree::impl::getMBR', lambda f: len(f['p']) == 2 and f.get('body'))
            m = c.I.call_fn(f, None, [Cell(a), Cell(b)])
            for x, y, z in zip(c.dims(a), c.dims(b), c.dims(m)):
                (p, q), (r, s), (t, u) = c.ends(x), c.ends(y), c.ends(z)
                lo = p if c.test('<=', p, r) else r
                hi = q if c.test('>=', q, s) else s
                if not (c.test('==', t, lo) and c.test('==', u, hi)):
                    return 'the bounding box of %s and %s is %s' % (c.show(a), c.show(b), c.show(m))
        if rk <= 2:
            ob('merge', 'bounding box, rank %d' % rk, mbr)

    # dimension selection: ranks up to 3, all selections, order kept
    def same_dims(c, r, want):
        ds = c.dims(r)
        if len(ds) != len(want):
            return False
        return all(c.test('==', c.ends(x)[0], c.ends(y)[0]) and c.test('==', c.ends(x)[1], c.ends(y)[1])
                   for x, y in zip(ds, want))

    def select(name, args, want, rk, pred=None):
        def body(c):
            a = c.box('A', rk)
            w = [c.dims(a)[i] for i in want]
            r = c.call(a, name, *args(c), pred=pred)
            if not same_dims(c, r, w):
                return '%s.%s of rank %d selecting %r gives %s' % (c.show(a), name, rk, want, c.show(r))
        ob(name, '%s, rank %d, dimensions %r' % (name, rk, want), body)
    for rk in (1, 2, 3, 4):
        for n in range(1, rk + 1):
            select('takeFirstDimensions', lambda c: [n], list(range(n)), rk)
            select('takeLastDimensions', lambda c: [n], list(range(rk - n, rk)), rk)
            select('slice', lambda c: [n], list(range(n)), rk, by_type('num'))
        for n in range(0, rk):
            select('dropFirstDimensions', lambda c: [n], list(range(n, rk)), rk)
            select('dropLastDimensions', lambda c: [n], list(range(rk - n)), rk)
        for bits in itertools.product((False, True), repeat=rk):
            if any(bits):
                w = [i for i in range(rk) if bits[i]]
                select('takeDimensions', lambda c: [ListV(list(bits), 'llvm::SmallBitVector')], w, rk)
                select('slice', lambda c: [ListV(list(bits), 'llvm::BitVector')], w, rk, by_type('BitVector'))
    for ra in (1, 2):
        for rb in (1, 2):
            def cat(c):
                a, b = c.box('A', ra), c.box('B', rb)
                if not same_dims(c, c.call(a, 'append', b), c.dims(a) + c.dims(b)):
                    return 'append of ranks %d, %d' % (ra, rb)
                if not same_dims(c, c.call(a, 'prepend', b), c.dims(b) + c.dims(a)):
                    return 'prepend of ranks %d, %d' % (ra, rb)
            ob('append', 'append and prepend, ranks %d and %d' % (ra, rb), cat)
    for sizes in itertools.chain(itertools.product((1, 2, 3), repeat=1), itertools.product((1, 2, 3), repeat=2),
                                 itertools.product((1, 2), repeat=3)):
        def iterate(c):
            b = [c.num('b%d' % i) for i in range(len(sizes))]
            a = c.mkbox([c.mkrange(x, c.I.binop('+', x, n)) for x, n in zip(b, sizes)])
            want = list(itertools.product(*[range(n) for n in sizes]))
            got = [x.v for x in itertools.islice(lib.iterate(c.I, a), len(want) + 2)]
            ok = len(got) == len(want)
            for g, w in zip(got, want):
                cs = c.coords(g)
                ok = ok and len(cs) == len(w) and all(c.test('==', x, c.I.binop('+', y, i))
                                                      for x, y, i in zip(cs, b, w))
            if not ok:
                return 'iterating over %s yields %s' % (c.show(a), [c.show(g) for g in got])
        ob('begin', 'iteration, sizes %r' % (sizes,), iterate)


def points(chk, P, kind='point'):
    T = NS + 'Point'

    def ob(name, key, body):
        decide(chk, kind, key, fwhere(P, T, name), P, body)
    for n in range(1, 5):
        def build(c):
            q = [c.num('q%d' % i) for i in range(n)]
            p = c.point(q)
            cs = c.coords(p)
            if c.call(p, 'rank') != n or len(cs) != n or not all(c.test('==', x, y) for x, y in zip(cs, q)):
                return 'point %r reads back as %r' % (q, cs)
            it = [x.v for x in lib.iterate(c.I, p)]
            if len(it) != n or not all(c.test('==', x, y) for x, y in zip(it, q)):
                return 'point %r iterates as %r' % (q, it)
        ob('operator[]', 'construction, rank %d' % n, build)
        for k in range(n + 1):
            def take(c):
                q = [c.num('q%d' % i) for i in range(n)]
                p = c.point(q)
                for nm_, w in (('takeFront', q[:k]), ('takeBack', q[n - k:])):
                    cs = c.coords(c.call(p, nm_, k))
                    if len(cs) != len(w) or not all(c.test('==', x, y) for x, y in zip(cs, w)):
                        return '%r.%s(%d) = %r' % (q, nm_, k, cs)
            ob('takeFront', 'take %d of %d' % (k, n), take)
        for bits in itertools.product((False, True), repeat=n):
            def sl(c):
                q = [c.num('q%d' % i) for i in range(n)]
                w = [x for x, b in zip(q, bits) if b]
                cs = c.coords(c.call(c.point(q), 'slice', ListV(list(bits), 'llvm::BitVector')))
                if len(cs) != len(w) or not all(c.test('==', x, y) for x, y in zip(cs, w)):
                    return '%r.slice(%r) = %r' % (q, bits, cs)
            ob('slice', 'slice %r' % (bits,), sl)
        for m in range(1, 4):
            def app(c):
                q = [c.num('q%d' % i) for i in range(n)]
                r = [c.num('r%d' % i) for i in range(m)]
                cs = c.coords(c.call(c.point(q), 'append', c.point(r)))
                if len(cs) != n + m or not all(c.test('==', x, y) for x, y in zip(cs, q + r)):
                    return '%r.append(%r) = %r' % (q, r, cs)
            ob('append', 'append %d, %d' % (n, m), app)


# ------------------------------------------------------------------- C07
def hash_hooks():
    def comb(I, n):
        return ListV([lib.V(I.ev(a)) for a in n['a']], 'hash')

    def rng(I, n):
        return ListV([x.v for x in lib.cells_between(I, lib.V(I.ev(n['a'][0])), lib.V(I.ev(n['a'][1])))], 'hash')

    def val(I, n):
        return ListV([lib.V(I.ev(n['a'][0]))], 'hash')
    return {'llvm::hash_combine': comb, 'llvm::hash_combine_range': rng, 'llvm::hash_value': val}


def hash_of(c, v):
    """The hash of v as the tree of values fed to the hash combiners."""
    fs = [f for f in c.P.fns(c.ns + 'hash_value') if v.cls in f['p'][0]['t']]
    if len(fs) != 1:
        raise AnalysisBroken('no hash_value for %s' % v.cls)
    return expand(c, lib.V(c.I.call_fn(fs[0], None, [Cell(v)])))


def expand(c, h):
    if isinstance(h, ListV):
        return ('h',) + tuple(expand(c, lib.V(x)) for x in h.vals)
    if isinstance(h, Obj):
        return hash_of(c, h)
    return h


def same_hash(c, a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and \
            all(same_hash(c, x, y) for x, y in zip(a[1:], b[1:]))
    return c.test('==', a, b)


def b2(c, v):
    return c.I.truth(lib.V(v))


def coherence(chk, P, kind='coherence', ns=NS, ranks=(1, 2), only=None):
    def seq(c, v):
        n = v.cls.rsplit('::', 1)[-1]
        if n == 'Point':
            return c.coords(v)
        if n == 'Range':
            return list(c.ends(v))
        return [x for d in c.dims(v) for x in c.ends(d)]

    def order(c, x, y):
        if len(x) != len(y):
            return -1 if len(x) < len(y) else 1
        for a, b in zip(x, y):
            if c.test('<', a, b):
                return -1
            if c.test('<', b, a):
                return 1
        return 0

    def pair(cls, key, mk1, mk2):
        have = {m['n'] for m in P.rec[ns + cls]['methods']}

        def body(op):
            def go(c):
                a, b = mk1(c), mk2(c)
                pr = by_type(cls) if cls != 'Point' else None
                o = order(c, seq(c, a), seq(c, b))
                if op == 'hash_value':
                    if o == 0 and not same_hash(c, hash_of(c, a), hash_of(c, b)):
                        return 'equal values %s and %s hash differently' % (c.show(a), c.show(b))
                    return
                r = c.call(a, op, b, pred=pr)
                if op == 'compare':
                    r = lib.V(r)
                    r = -1 if c.test('<', r, 0) else 1 if c.test('<', 0, r) else 0
                    want = o
                else:
                    r = b2(c, r)
                    want = {'operator==': o == 0, 'operator!=': o != 0, 'operator<': o < 0, 'operator>': o > 0}[op]
                if r != want:
                    return '%s %s %s is %s, expected %s' % (c.show(a), op, c.show(b), r, want)
            return go
        for op in ('operator==', 'operator!=', 'operator<', 'operator>', 'compare', 'hash_value'):
            if only and (cls, op) not in only:
                continue
            if op not in have and op != 'hash_value':
                continue
            decide(chk, kind, '%s %s%s' % (cls, op, key), fwhere(P, ns + cls, op), P, body(op),
                   hooks=hash_hooks(), ns=ns, limit=60000)
    pair('Range', '', lambda c: c.rng('A'), lambda c: c.rng('B'))
    if only:
        return
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            pair('Point', ', ranks %d and %d' % (n, m), lambda c: c.point([c.num('p%d' % i) for i in range(n)]),
                 lambda c: c.point([c.num('q%d' % i) for i in range(m)]))
            if n in ranks and m in ranks:
                pair('MultidimensionalRange', ', ranks %d and %d' % (n, m), lambda c: c.box('A', n), lambda c: c.box('B', m))

    # comparisons between a point and the box or range denoting just that point
    for op in ('operator==', 'operator!='):
        def rp(c):
            a, p = c.rng('A'), c.num('p')
            x, y = c.ends(a)
            want = c.test('==', x, p) and c.test('==', y, c.I.binop('+', p, 1))
            if b2(c, c.call(a, op, p, pred=by_type('num'))) != (want if op == 'operator==' else not want):
                return '%s %s %r is %s' % (c.show(a), op, p, not want)
        decide(chk, kind, 'Range %s value' % op, fwhere(P, NS + 'Range', op), P, rp)
        for n in (1, 2):
            for m in (1, 2):
                def bp(c):
                    a, p = c.box('A', n), [c.num('p%d' % i) for i in range(m)]
                    want = n == m and all(
                        c.test('==', c.ends(d)[0], x) and c.test('==', c.ends(d)[1], c.I.binop('+', x, 1))
                        for d, x in zip(c.dims(a), p))
                    got = b2(c, c.call(a, op, c.point(p), pred=by_type('Point')))
                    if got != (want if op == 'operator==' else not want):
                        return '%s %s point %r is %s' % (c.show(a), op, p, got)
                decide(chk, kind, 'MultidimensionalRange %s Point, ranks %d and %d' % (op, n, m),
                       fwhere(P, NS + 'MultidimensionalRange', op), P, bp)
