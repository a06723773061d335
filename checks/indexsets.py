"""Index sets as sets of points (C08)."""
from .boxes import *

S = NS + 'IndexSet'
ONE = lambda m: 'IndexSet' in m['p'][0]['t'] and 'RTree' not in m['p'][0]['t']
ISET = lambda m: 'IndexSet' in m['p'][0]['t']
BOX = by_type('MultidimensionalRange')
PT = by_type('Point')


def empty_set(c, cap=None):
    if cap is None:
        return c.I.default_construct(S)
    o = c.I.default_construct(S)
    # the node capacities: the two integers the default constructor sets (4 and 16)
    caps = sorted(((x.v, k) for k, x in o.f.items() if type(x.v) is int and x.v > 0))
    if len(caps) == 2:
        for (_, k), v in zip(caps, cap):
            o.f[k].v = v
        return o
    raise AnalysisBroken('no node capacities in an index set')


def make(c, boxes, cap=None):
    s = empty_set(c, cap)
    for b in boxes:
        c.call(s, 'operator+=', c.I.copy(b), pred=BOX)
    return s


def parts(c, s):
    """The ranges an index set is stored as, through its public iteration."""
    it = lib.V(c.call(s, 'rangesBegin'))
    end = lib.V(c.call(s, 'rangesEnd'))
    out = []
    cur = c.I.copy(it)
    while c.I.truth(lib.V(lib.user_ne(c.I, cur, end))):
        out.append(lib.V(lib.user_op(c.I, cur, 'operator*', 0)))
        lib.user_op(c.I, cur, 'operator++', 0)
        if len(out) > 64:
            raise Trap('endless iteration over the ranges')
    return out


def holds(c, s, want, rank, what, member=True):
    """The set s contains exactly the points satisfying want(pt); its stored
    ranges are disjoint, and emptiness agrees."""
    ps = parts(c, s)
    emp = b2(c, c.call(s, 'empty'))
    if emp != (not ps):
        return '%s: empty() is %s with %d stored ranges' % (what, emp, len(ps))
    if any(len(c.dims(b)) != rank for b in ps):
        return '%s: rank of the result is wrong' % what

    def generic():
        p = [c.num('p%d' % i) for i in range(rank)]
        n = count_in(c, p, ps)
        w = want(p)
        if n != int(bool(w)):
            return '%s: a point %s expected is %s in the result {%s}' % (
                what, '' if w else 'not', 'absent' if n == 0 else 'stored %d times' % n if n > 1 else 'present',
                ', '.join(map(c.show, ps)))
        if member and b2(c, c.call(s, 'contains', c.point(p), pred=PT)) != bool(w):
            return '%s: contains(point) disagrees with the stored ranges {%s}' % (what, ', '.join(map(c.show, ps)))
    return c.forall(generic)


def union(c, boxes):
    return lambda p: any(c.in_box(p, b) for b in boxes)


def const_boxes(c, spec):
    """Boxes at constant positions: spec is a list of tuples of (begin, end)."""
    return [c.mkbox([c.mkrange(*d) for d in b]) for b in spec]


def tasks(P, thorough):
    T = []

    def ob(key, body, name='operator+=', kind='index-set', limit=60000):
        def go(chk):
            decide(chk, kind, key, fwhere(P, S, name), P, body, limit=limit)
        T.append(go)

    def bx(c, n, rk, nm_='A'):
        return [c.box('%s%d' % (nm_, i), rk) for i in range(n)]

    def lst(bs, t='marco::modeling::MultidimensionalRange'):
        return ListV(bs, 'llvm::ArrayRef<%s>' % t)

    def cp(c, bs):
        return [c.I.copy(b) for b in bs]

    shapes = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2)] + ([(3, 2), (4, 1)] if thorough else [])
    # -- building
    for n, rk in shapes:
        def add(c, n=n, rk=rk):
            bs = bx(c, n, rk)
            return holds(c, make(c, bs), union(c, bs), rk, 'adding %s' % ', '.join(map(c.show, bs)), n < 3)
        ob('adding %d ranges of rank %d' % (n, rk), add)

        def ctor(c, n=n, rk=rk):
            bs = bx(c, n, rk)
            s = c.I.new(S, lst(cp(c, bs)), pred=lambda m: 'MultidimensionalRange' in m['p'][0]['t'])
            return holds(c, s, union(c, bs), rk, 'building from %s' % ', '.join(map(c.show, bs)), n < 3)
        if (n, rk) != (3, 2):
            ob('constructing from %d ranges of rank %d' % (n, rk), ctor, 'setFromRanges')
    for n, rk in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2)):
        def pts(c, n=n, rk=rk):
            qs = [[c.num('q%d_%d' % (i, j)) for j in range(rk)] for i in range(n)]
            s = c.I.new(S, lst([c.point(q) for q in qs], 'marco::modeling::Point'),
                        pred=lambda m: 'Point' in m['p'][0]['t'])
            s2 = empty_set(c)
            for q in qs:
                c.call(s2, 'operator+=', c.point(q), pred=PT)

            def want(p):
                return any(all(c.test('==', x, y) for x, y in zip(p, q)) for q in qs)
            return holds(c, s, want, rk, 'building from points') or holds(c, s2, want, rk, 'adding points')
        ob('constructing from %d points of rank %d' % (n, rk), pts, 'setFromRanges')

    # -- binary operations between sets / with boxes
    pairs = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2)] + ([(2, 2, 1), (3, 1, 1), (2, 1, 2)] if thorough else [])

    case = [(0, 2), (0, 3), (1, 3), (5, 6)]

    def binary(name, fn, anchor):
        for n, m, rk in pairs:
            def body(c, n=n, m=m, rk=rk):
                A, B = bx(c, n, rk, 'A'), bx(c, m, rk, 'B')
                if fn is relations and rk > 1:
                    # products of two unknowns are outside the domain: the
                    # other dimensions range over concrete cases
                    A, B = [[c.mkbox([c.dims(x)[0]] + [c.mkrange(*case[c.I.choose(None, len(case))])
                                                       for _ in range(rk - 1)]) for x in L] for L in (A, B)]
                inA, inB = union(c, A), union(c, B)
                return fn(c, make(c, A), A, inA, make(c, B), B, inB, rk)
            ob('%s, %d and %d ranges of rank %d' % (name, n, m, rk), body, anchor)

    def what(c, A, op, B):
        return '{%s} %s {%s}' % (', '.join(map(c.show, A)), op, ', '.join(map(c.show, B)))

    def plus(c, s, A, inA, t, B, inB, rk):
        w = what(c, A, '+', B)
        r = c.call(s, 'operator+', t, pred=ISET)
        e = holds(c, r, lambda p: inA(p) or inB(p), rk, w, False) or \
            holds(c, s, inA, rk, w + ': left operand changed', False) or \
            holds(c, t, inB, rk, w + ': right operand changed', False)
        if e is None:
            u = c.I.copy(s)
            c.call(u, 'operator+=', t, pred=ISET)
            e = holds(c, u, lambda p: inA(p) or inB(p), rk, w, False) or \
                holds(c, s, inA, rk, w + ': a copy is not independent', False)
        return e
    binary('union', plus, 'operator+')

    def minus(c, s, A, inA, t, B, inB, rk):
        w = what(c, A, '-', B)
        r = c.call(s, 'operator-', t, pred=ISET)
        e = holds(c, r, lambda p: inA(p) and not inB(p), rk, w, False) or \
            holds(c, s, inA, rk, w + ': left operand changed', False)
        if e is None:
            u = c.I.copy(s)
            c.call(u, 'operator-=', t, pred=ISET)
            e = holds(c, u, lambda p: inA(p) and not inB(p), rk, w, False)
        if e is None and len(B) == 1:
            u = c.I.copy(s)
            c.call(u, 'operator-=', B[0], pred=BOX)
            e = holds(c, u, lambda p: inA(p) and not inB(p), rk, w + ' (box)')
        return e
    binary('difference', minus, 'operator-')

    def inter(c, s, A, inA, t, B, inB, rk):
        w = what(c, A, 'intersect', B)
        e = holds(c, c.call(s, 'intersect', t, pred=ISET), lambda p: inA(p) and inB(p), rk, w, False)
        if e is None and len(B) == 1:
            e = holds(c, c.call(s, 'intersect', B[0], pred=BOX), lambda p: inA(p) and inB(p), rk, w + ' (box)', False)
        return e
    binary('intersection', inter, 'intersect')

    def compl(c, s, A, inA, t, B, inB, rk):
        if len(B) != 1:
            return
        return holds(c, c.call(s, 'complement', B[0], pred=BOX), lambda p: inB(p) and not inA(p), rk,
                     what(c, B, 'minus', A), False)
    binary('complement', compl, 'complement')

    def subset(c, A, B):
        """B included in A, by the stored disjoint pieces of B minus A (checker's own algebra)."""
        rest = list(B)
        for a in A:
            nxt = []
            for b in rest:
                nxt += cut(c, b, a)
            rest = nxt
        return not rest

    def raw(c, b):
        return [c.ends(d) for d in c.dims(b)]

    def cut(c, b, a):
        """b minus a on lists of (begin, end)."""
        if not all(c.test('<', x[0], y[1]) and c.test('<', y[0], x[1]) for x, y in zip(a, b)):
            return [b]
        out, cur = [], list(b)
        for i, (x, y) in enumerate(zip(a, b)):
            if c.test('<', y[0], x[0]):
                out.append(cur[:i] + [(y[0], x[0])] + list(b[i + 1:]))
                cur[i] = (x[0], cur[i][1])
            if c.test('<', x[1], y[1]):
                out.append(cur[:i] + [(x[1], y[1])] + list(b[i + 1:]))
                cur[i] = (cur[i][0], x[1])
        return out

    def relations(c, s, A, inA, t, B, inB, rk):
        ra, rb = [raw(c, x) for x in A], [raw(c, x) for x in B]
        got = b2(c, c.call(s, 'contains', t, pred=lambda m: 'IndexSet' in m['p'][0]['t'] and 'RTree' not in m['p'][0]['t']))
        inc = subset(c, ra, rb)
        if got != inc:
            return what(c, A, 'contains', B) + ' is %s' % got
        if len(B) == 1:
            got = b2(c, c.call(s, 'contains', B[0], pred=BOX))
            if got != inc:
                return what(c, A, 'contains box', B) + ' is %s' % got
        ov = any(all(c.test('<', x[0], y[1]) and c.test('<', y[0], x[1]) for x, y in zip(a, b))
                 for a in ra for b in rb)
        got = b2(c, c.call(s, 'overlaps', t, pred=ISET))
        if got != ov:
            return what(c, A, 'overlaps', B) + ' is %s' % got
        if len(B) == 1 and b2(c, c.call(s, 'overlaps', B[0], pred=BOX)) != ov:
            return what(c, A, 'overlaps box', B) + ' is %s' % (not ov)
        eq = inc and subset(c, rb, ra)
        eqs = [m for m in c.P.rec[S]['methods'] + [m for b in c.P.bases(S) for m in c.P.rec[b]['methods']]
               if m['n'] == 'operator==' and m['id'] in c.P.fn and ('RTree' in m['p'][0]['t'] or 'IndexSet' in m['p'][0]['t'])]
        nes = [m for m in c.P.rec[S]['methods'] + [m for b in c.P.bases(S) for m in c.P.rec[b]['methods']]
               if m['n'] == 'operator!=' and m['id'] in c.P.fn and ('RTree' in m['p'][0]['t'] or 'IndexSet' in m['p'][0]['t'])]
        if len(eqs) != 1 or len(nes) != 1:
            raise AnalysisBroken('equality of index sets')
        got = b2(c, c.I.call_fn(c.P.fn[eqs[0]['id']], s, [Cell(t)]))
        if got != eq:
            return what(c, A, '==', B) + ' is %s' % got
        if b2(c, c.I.call_fn(c.P.fn[nes[0]['id']], s, [Cell(t)])) == eq:
            return what(c, A, '!=', B) + ' is %s' % eq
        if eq and not c.test('==', c.call(s, 'size'), c.call(t, 'size')):
            return what(c, A, 'equals', B) + ' but their sizes differ'
    binary('containment, overlap and equality', relations, 'contains')

    # -- self-application
    for n, rk in ((1, 1), (2, 1), (1, 2)):
        def selfop(c, n=n, rk=rk):
            A = bx(c, n, rk)
            s = make(c, A)
            w = '{%s}' % ', '.join(map(c.show, A))
            c.call(s, 'operator+=', s, pred=ISET)
            e = holds(c, s, union(c, A), rk, w + ' += itself', False)
            if e is None:
                e = holds(c, c.call(s, 'operator-', s, pred=ISET), lambda p: False, rk, w + ' - itself', False)
            if e is None:
                e = holds(c, c.call(s, 'intersect', s, pred=ISET), union(c, A), rk, w + ' intersect itself', False)
            if e is None:
                c.call(s, 'operator-=', s, pred=ISET)
                e = holds(c, s, lambda p: False, rk, w + ' -= itself', False)
            return e
        ob('operations of a set with itself, %d ranges of rank %d' % (n, rk), selfop)

    # -- size and iteration over disjoint ranges of known sizes
    for sizes in ((1,), (2,), (1, 2), (3, 1), (2, 2)):
        def points_of(c, sizes=sizes):
            bs, prev = [], None
            for i, n in enumerate(sizes):
                b = c.num('b%d' % i)
                if prev is not None:
                    c.assume('<', prev, b)      # a gap
                e = c.I.binop('+', b, n)
                bs.append(c.mkbox([c.mkrange(b, e)]))
                prev = e
            for perm in itertools.permutations(bs):
                s = make(c, perm)
                want = [c.I.binop('+', c.ends(c.dims(b)[0])[0], i) for b, n in zip(bs, sizes) for i in range(n)]
                got = [c.coords(x.v)[0] for x in itertools.islice(lib.iterate(c.I, s), len(want) + 3)]
                if not c.test('==', c.call(s, 'size'), len(want)):
                    return 'size of {%s} is %r' % (', '.join(map(c.show, bs)), c.call(s, 'size'))
                if len(got) != len(want):
                    return 'iterating over {%s} yields %r' % (', '.join(map(c.show, bs)), got)
                for w in want:
                    if sum(c.test('==', g, w) for g in got) != 1:
                        return 'iterating over {%s} yields %r' % (', '.join(map(c.show, bs)), got)
        ob('size and points, sizes %r' % (sizes,), points_of, 'size')
    def noiter(c):
        s = empty_set(c)
        if list(lib.iterate(c.I, s)) or not c.test('==', c.call(s, 'size'), 0) or not b2(c, c.call(s, 'empty')):
            return 'the empty set has points'
    ob('size and points, empty', noiter, 'size')

    # -- compact form
    for n, rk in ((2, 1), (3, 1), (2, 2)):
        def compact(c, n=n, rk=rk):
            A = bx(c, n, rk)
            s = make(c, A)
            out = ListV((), 'llvm::SmallVector<marco::modeling::MultidimensionalRange>')
            c.call(s, 'getCompactRanges', out)
            u = union(c, A)

            def generic():
                p = [c.num('p%d' % i) for i in range(rk)]
                if count_in(c, p, out.vals) != int(bool(u(p))):
                    return 'compact form of {%s} is {%s}' % (', '.join(map(c.show, A)), ', '.join(map(c.show, out.vals)))
            return c.forall(generic)
        ob('compact form, %d ranges of rank %d' % (n, rk), compact, 'getCompactRanges')

    # -- projections and products
    def proj(name, args, keep, rk):
        def body(c):
            A = bx(c, 2, rk)
            if rk > 1:
                for i in range(1, rk):      # keep the number of cases small
                    c.assume('<', c.ends(c.dims(A[0])[i])[1], c.ends(c.dims(A[1])[i])[0])
            s = make(c, A)
            r = c.call(s, name, *args(), pred=(lambda m: 'BitVector' in m['p'][0]['t']) if name == 'slice' else None)
            sel = [c.mkbox([c.dims(b)[i] for i in keep]) for b in A]
            return holds(c, r, union(c, sel), len(keep), '%s of {%s}' % (name, ', '.join(map(c.show, A))), False)
        ob('%s of rank %d keeping %r' % (name, rk, keep), body, name)
    for rk in (1, 2):
        for n in range(1, rk + 1):
            proj('takeFirstDimensions', lambda n=n: [n], list(range(n)), rk)
            proj('takeLastDimensions', lambda n=n: [n], list(range(rk - n, rk)), rk)
        for n in range(rk):
            proj('dropFirstDimensions', lambda n=n: [n], list(range(n, rk)), rk)
            proj('dropLastDimensions', lambda n=n: [n], list(range(rk - n)), rk)
        for bits in itertools.product((False, True), repeat=rk):
            if any(bits):
                k = [i for i in range(rk) if bits[i]]
                proj('slice', lambda bits=bits: [ListV(list(bits), 'llvm::BitVector')], k, rk)
                proj('takeDimensions', lambda bits=bits: [ListV(list(bits), 'llvm::SmallBitVector')], k, rk)
    for n, m in ((1, 1), (2, 1), (1, 2)):
        def product(c, n=n, m=m):
            A, B = bx(c, n, 1, 'A'), bx(c, m, 1, 'B')
            inA, inB = union(c, A), union(c, B)
            s, t = make(c, A), make(c, B)
            return holds(c, c.call(s, 'append', t), lambda p: inA(p[:1]) and inB(p[1:]), 2, 'append', False) or \
                holds(c, c.call(s, 'prepend', t), lambda p: inA(p[1:]) and inB(p[:1]), 2, 'prepend', False)
        ob('product of %d and %d ranges' % (n, m), product, 'append')
    return T


def deep_tasks(P, thorough):
    """Trees of several levels: node capacity (1, 2), disjoint ranges at known
    relative positions inserted in every order, then one symbolic operation."""
    T = []
    plans = []
    for K, cap, step in ((3, None, 1), (4, (1, 2), 1 if thorough else 4), (5, (2, 3), 3 if thorough else 12)):
        plans += [(o, cap) for o in list(itertools.permutations(range(K)))[::step]]

    def ob(key, body, name):
        def go(chk):
            decide(chk, 'index-tree', key, fwhere(P, S, name), P, body, limit=60000)
        T.append(go)
    base = [(10 * i, 10 * i + 4) for i in range(5)]
    for idx, (order, cap) in enumerate(plans):
        if True:
            def build(c, order=order, cap=cap):
                bs = const_boxes(c, [(base[i],) for i in order])
                s = make(c, bs, cap)
                e = holds(c, s, union(c, bs), 1, 'adding %r' % [base[i] for i in order])
                if e:
                    return e
                x = c.box('X', 1)
                got = b2(c, c.call(s, 'overlaps', x, pred=BOX))
                u, v = c.ends(c.dims(x)[0])
                if got != any(c.test('<', u, b[1]) and c.test('<', b[0], v) for b in (base[i] for i in order)):
                    return 'overlap of %r with %s is %s' % ([base[i] for i in order], c.show(x), got)

            def within(c, order=order, cap=cap):
                bs = const_boxes(c, [(base[i],) for i in order])
                s = make(c, bs, cap)
                subs = [(base[i][0] + 1, base[i][0] + 3) for i in sorted(order)]
                for k in range(1, len(subs) + 1):
                    for pick in itertools.combinations(subs, k):
                        t = make(c, const_boxes(c, [(x,) for x in pick]), cap)
                        if not b2(c, c.call(s, 'contains', t, pred=ONE)):
                            return '%r does not contain %r' % ([base[i] for i in order], pick)
                        if b2(c, c.call(t, 'contains', s, pred=ONE)):
                            return '%r contains %r' % (pick, [base[i] for i in order])
                        out = make(c, const_boxes(c, [(x,) for x in pick] + [((pick[0][0] + 4, pick[0][0] + 5),)]), cap)
                        if b2(c, c.call(s, 'contains', out, pred=ONE)):
                            return '%r contains a point between its ranges' % ([base[i] for i in order],)
                        if not b2(c, c.call(s, 'overlaps', out, pred=ISET)):
                            return '%r does not overlap %r' % ([base[i] for i in order], pick)
                        if not b2(c, c.call(out, 'overlaps', s, pred=ISET)):
                            return '%r does not overlap %r' % (pick, [base[i] for i in order])
                        e = holds(c, c.call(s, 'intersect', out, pred=ISET), union(c, const_boxes(c, [(x,) for x in pick])), 1,
                                  'intersecting %r with %r' % ([base[i] for i in order], pick), False) or \
                            holds(c, c.call(s, 'operator-', t, pred=ISET),
                                  lambda p: union(c, bs)(p) and not union(c, const_boxes(c, [(x,) for x in pick]))(p), 1,
                                  'subtracting %r from %r' % (pick, [base[i] for i in order]), False)
                        if e:
                            return e
                gaps = [(base[i][0] + 4, base[i][0] + 8) for i in sorted(order)]
                t = make(c, const_boxes(c, [(x,) for x in gaps]), cap)
                if b2(c, c.call(s, 'overlaps', t, pred=ISET)):
                    return '%r overlaps the gaps %r' % ([base[i] for i in order], gaps)
            ob('relations and operations of two trees, order %r, node capacity %r' % (order, cap), within, 'contains')
            ob('building and overlap, order %r, node capacity %r' % (order, cap), build, 'overlaps')

            def remove(c, order=order, cap=cap):
                bs = const_boxes(c, [(base[i],) for i in order])
                s = make(c, bs, cap)
                x = c.box('X', 1)
                c.call(s, 'operator-=', x, pred=BOX)
                return holds(c, s, lambda p: union(c, bs)(p) and not c.in_box(p, x), 1,
                             'removing %s from %r' % (c.show(x), [base[i] for i in order]))
            ob('removal, order %r, node capacity %r' % (order, cap), remove, 'operator-=')

            def insert(c, order=order, cap=cap):
                bs = const_boxes(c, [(base[i],) for i in order])
                s = make(c, bs, cap)
                x = c.box('X', 1)
                c.call(s, 'operator+=', c.I.copy(x), pred=BOX)
                return holds(c, s, lambda p: union(c, bs)(p) or c.in_box(p, x), 1,
                             'adding %s to %r' % (c.show(x), [base[i] for i in order]))

            def self_remove(c, order=order, cap=cap):
                bs = const_boxes(c, [(base[i],) for i in order])
                s = make(c, bs, cap)
                c.call(s, 'operator-=', s, pred=ISET)
                return holds(c, s, lambda p: False, 1, 'removing {%s} from itself' % ', '.join(map(c.show, bs)))
            ob('removal of itself, order %r, node capacity %r' % (order, cap), self_remove, 'operator-=')
            if thorough or idx % 3 == 0:
                ob('insertion, order %r, node capacity %r' % (order, cap), insert, 'operator+=')
    return T
