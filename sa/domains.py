"""Zone domain: integers constrained by x - y <= c, with exact polynomial
expressions over them.  A comparison that the zone does not decide partitions
the abstract state (both outcomes are analysed, each with its constraint)."""
from .interp import Num, Unsupported, Infeasible, Trap

INF = float('inf')


class Zone:
    """Difference-bound matrix, closed incrementally.  Variable 0 is zero."""

    def __init__(self):
        self.names = ['0']
        self.d = [[0]]
        self.terms = {}      # opaque terms: key -> variable index
        self.meaning = {}    # variable index -> key
        self.signs = {}      # key of an expression outside the domain -> assumed sign
        self.use_templates = False   # sums of several variables get variables of their own
        self.tmpl = {}       # template variable -> polynomial

    def var(self, name):
        n = len(self.names)
        self.names.append(name)
        for r in self.d:
            r.append(INF)
        self.d.append([INF] * n + [0])
        return n

    def new(self, name):
        return ZNum(self, {(self.var(name),): 1})

    def opaque(self, key, name):
        if key not in self.terms:
            self.terms[key] = self.var(name)
            self.meaning[self.terms[key]] = key
        return ZNum(self, {(self.terms[key],): 1})

    def template(self, p):
        """The variable standing for the sum p of several terms."""
        key = ('lin', tuple(sorted(p.items())), ())
        if key in self.terms:
            return self.terms[key]
        v = self.opaque(key, '(%r)' % ZNum(self, p))
        v = self.terms[key]
        self.tmpl[v] = dict(p)
        self.sync()
        return v

    def sync(self):
        """Relate templates whose difference is a difference of two variables."""
        n = len(self.names)
        for t, p in list(self.tmpl.items()):
            for u in range(n):
                if u == t or u in self.tmpl and u < t:
                    continue
                e = ZNum(self, p).add(ZNum(self, self.tmpl[u] if u in self.tmpl else {(u,): 1} if u else {}), -1)
                d = e.plain_diff() or e.reduce().plain_diff()
                if d is None:
                    continue
                i, j, c = d
                for a, b, x, y, k in ((t, u, i, j, c), (u, t, j, i, -c)):
                    # v_a - v_b = v_x - v_y + k
                    if self.d[x][y] != INF:
                        self.add(a, b, self.d[x][y] + k)
                    if self.d[a][b] != INF:
                        self.add(x, y, self.d[a][b] - k)

    def equations(self):
        """Equalities of sums known to the zone, solved: (variable, its value
        minus itself), to be applied in order."""
        d = self.d
        out = []
        for t, p in self.tmpl.items():
            for u in range(len(d)):
                if u == t or d[u][t] == INF or d[u][t] != -d[t][u] or u in self.tmpl and u < t:
                    continue
                e = ZNum(self, p).add(ZNum(self, self.tmpl[u] if u in self.tmpl else {(u,): 1} if u else {}), -1)
                e = e.add(ZNum(self, {(): d[t][u]} if d[t][u] else {}), -1)
                for v, q in out:
                    k = e.p.get((v,), 0)
                    if k:
                        e = e.add(q, k)
                piv = [m for m, c in e.p.items() if len(m) == 1 and abs(c) == 1 and
                       sum(m[0] in x for x in e.p) == 1]
                if piv:
                    v = max(piv)[0]
                    q = e if e.p[(v,)] == -1 else ZNum(self, {m: -c for m, c in e.p.items()})
                    out.append((v, q))
        return out

    def add(self, i, j, c):
        """Assume v_i - v_j <= c; raises Infeasible on contradiction."""
        d = self.d
        if d[i][j] <= c:
            return
        if d[j][i] + c < 0:
            raise Infeasible()
        n = len(d)
        dj = d[j]
        for a in range(n):
            x = d[a][i]
            if x == INF:
                continue
            x += c
            da = d[a]
            for b in range(n):
                y = dj[b]
                if y != INF and x + y < da[b]:
                    da[b] = x + y

    def model(self, seed=0, tries=300, extra=None):
        """An integer instance of the zone satisfying the recorded signs."""
        import random
        rnd = random.Random(seed)
        n = len(self.names)
        for t in range(tries):
            z = [r[:] for r in self.d]
            val = [0] * n
            base = [v for v in range(1, n) if v not in self.meaning]
            rnd.shuffle(base)
            left = dict(self.meaning)
            known = {0}
            ok = True

            def fix(v, x):
                """Assign x to v and propagate; False on contradiction."""
                val[v] = x
                known.add(v)
                if x > z[v][0] or -x > z[0][v]:
                    return False
                for i, j, c in ((v, 0, x), (0, v, -x)):
                    if z[i][j] <= c:
                        continue
                    for a in range(n):
                        if z[a][i] == INF:
                            continue
                        for b in range(n):
                            y = z[a][i] + c + z[j][b]
                            if y < z[a][b]:
                                z[a][b] = y
                return True

            def defined():
                """Values of the terms whose operands are known."""
                again = True
                while again:
                    again = False
                    for v, (op, x, y) in list(left.items()):
                        if any(u not in known for k in (x, y) for m, c in k for u in m):
                            continue
                        del left[v]
                        again = True
                        a, b = evalp(x, val), evalp(y, val)
                        if op == 'lin':
                            r = a
                        elif b == 0:
                            return False
                        elif op in ('/', '%'):
                            q = abs(a) // abs(b)
                            q = -q if (a < 0) != (b < 0) else q
                            r = q if op == '/' else a - q * b
                        elif op == 'floordiv':
                            r = a // b
                        elif op == 'ceildiv':
                            r = -((-a) // b)
                        else:
                            r = a % b
                        if not fix(v, r):
                            return False
                return True
            ok = defined()
            for v in base:
                if not ok:
                    break
                lo, hi = -z[0][v], z[v][0]
                span = rnd.choice((1, 2, 4, 9))
                if lo == -INF and hi == INF:
                    lo, hi = -span, span
                elif lo == -INF:
                    lo = hi - span
                elif hi == INF:
                    hi = lo + span
                hi = min(hi, lo + 12)
                if hi < lo:
                    ok = False
                    break
                ok = fix(v, rnd.randint(int(lo), int(hi))) and defined()
            if not ok:
                continue
            for k, s in self.signs.items():
                e = evalp(k, val)
                if (e > 0) - (e < 0) != s:
                    ok = False
                    break
            if ok and (extra is None or extra(val)):
                return val
        return None

    def refuted(self):
        """A recorded sign contradicts the zone: the path is infeasible."""
        for k, s in self.signs.items():
            lo, hi = ZNum(self, dict(k)).reduce().bounds()
            if s < 0 and lo >= 0 or s > 0 and hi <= 0 or s == 0 and (lo > 0 or hi < 0):
                return True
        return False

    def show(self, val):
        return ', '.join('%s=%d' % (a, b) for a, b in zip(self.names[1:], val[1:]))

    # -- sign tests of x - y - c ------------------------------------------
    def range(self, i, j):
        """(lower, upper) of v_i - v_j."""
        return -self.d[j][i], self.d[i][j]


def lift(z, v):
    if isinstance(v, ZNum):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return ZNum(z, {(): v} if v else {})
    raise Unsupported('number %r' % (v,))


class ZNum(Num):
    __slots__ = ('z', 'p')

    def __init__(self, z, p):
        self.z = z
        self.p = p      # monomial (sorted tuple of variable indices) -> coefficient

    def key(self):
        return tuple(sorted(self.p.items()))

    def __repr__(self):
        if not self.p:
            return '0'
        out = []
        for m, c in sorted(self.p.items()):
            s = '*'.join(self.z.names[i] for i in m)
            out.append(str(c) if not s else s if c == 1 else '%d*%s' % (c, s))
        return ' + '.join(out)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, ZNum) and self.p == o.p

    def const(self, I=None):
        if not self.p:
            return 0
        if len(self.p) == 1 and () in self.p:
            return self.p[()]
        if I is not None:
            lo, hi = self.bounds()
            if lo == hi:
                return lo
        return None

    def add(self, o, k=1):
        r = dict(self.p)
        for m, c in o.p.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return ZNum(self.z, r)

    def mul(self, o):
        r = {}
        for m, c in self.p.items():
            for n, e in o.p.items():
                k = tuple(sorted(m + n))
                v = r.get(k, 0) + c * e
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return ZNum(self.z, r)

    def bounds(self):
        """Interval of the expression, through the zone."""
        lo, hi = self.bounds0()
        if self.z.use_templates and lo != hi and self.plain_diff() is None:
            i, j, c = self.diff()
            self.z.sync()
            a, b = self.z.range(i, j)
            lo, hi = max(lo, a + c), min(hi, b + c)
        return lo, hi

    def bounds0(self):
        z = self.z
        lo = hi = self.p.get((), 0)
        items = [(m, c) for m, c in self.p.items() if m]
        if not items:
            return lo, hi
        pos = [(m, c) for m, c in items if len(m) == 1 and c == 1]
        neg = [(m, c) for m, c in items if len(m) == 1 and c == -1]
        if len(items) == 2 and len(pos) == 1 and len(neg) == 1:
            a, b = z.range(pos[0][0][0], neg[0][0][0])
            return lo + a, hi + b
        if all(len(m) == 1 for m, c in items):
            b = transport(z.d, items)
            if b is not None:
                a = transport(z.d, [(m, -c) for m, c in items])
                return lo - a, hi + b
        for m, c in items:
            a, b = 1, 1
            for v in m:
                x, y = z.range(v, 0)
                cand = [mulinf(a, x), mulinf(a, y), mulinf(b, x), mulinf(b, y)]
                a, b = min(cand), max(cand)
            if c > 0:
                lo, hi = addinf(lo, c * a), addinf(hi, c * b)
            else:
                lo, hi = addinf(lo, c * b), addinf(hi, c * a)
        return lo, hi

    def sign(self, I):
        """-1, 0 or 1; partitions the state when undecided."""
        lo, hi = self.bounds()
        if lo == hi:
            return (lo > 0) - (lo < 0)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        d = self.diff()
        opts = []
        if lo < 0:
            opts.append(-1)
        opts.append(0)
        if hi > 0:
            opts.append(1)
        if d is None:
            return self.nonzone_sign(I, opts)
        i, j, c = d
        s = opts[I.choose(None, len(opts))]
        self.assume(s, i, j, c)
        return s

    def nonzone_sign(self, I, opts):
        """Sign of an expression outside the domain: substitute the zone's
        equalities; otherwise every outcome is analysed (recorded, so that a
        report can be confirmed by an instance)."""
        e = self.reduce()
        if e.const() is not None:
            c = e.const()
            return (c > 0) - (c < 0)
        k, flip = e.key(), 1
        n = lift(e.z, e.neg()).key()
        if n < k:
            k, flip = n, -1
            opts = [-x for x in opts]
        opts = sorted(opts)
        if k in self.z.signs:
            return flip * self.z.signs[k]
        s = opts[I.choose(None, len(opts))]
        self.z.signs[k] = s
        return flip * s

    def reduce(self):
        """Normal form modulo the equalities known to the zone."""
        d = self.z.d
        rep = {}
        r = lift(self.z, 0)
        for m, c in self.p.items():
            t = lift(self.z, c)
            for v in m:
                if v not in rep:
                    for u in range(len(d)):
                        if d[u][v] != INF and d[u][v] == -d[v][u]:
                            # v = u + k with k = v - u
                            k = d[v][u]
                            p = {} if u == 0 else {(u,): 1}
                            if k:
                                p[()] = k
                            rep[v] = ZNum(self.z, p)
                            break
                t = t.mul(rep[v])
            r = r.add(t)
        if self.z.tmpl:
            for v, q in self.z.equations():
                k = r.p.get((v,), 0)
                if k:
                    r = r.add(q, k)
        return r

    def diff(self):
        r = self.plain_diff()
        if r is not None or not self.z.use_templates:
            return r
        e = self.reduce()
        r = e.plain_diff()
        if r is not None:
            return r
        v = []
        for sg in (1, -1):
            q = {m: abs(c) for m, c in e.p.items() if m and c * sg > 0}
            if not q:
                v.append(0)
            elif len(q) == 1 and len(next(iter(q))) == 1 and next(iter(q.values())) == 1:
                v.append(next(iter(q))[0])
            else:
                v.append(self.z.template(q))
        return v[0], v[1], e.p.get((), 0)

    def plain_diff(self):
        """Decompose as v_i - v_j + c, or give up."""
        c = self.p.get((), 0)
        i = j = 0
        g = 0
        for m, k in self.p.items():
            if not m:
                continue
            if len(m) != 1:
                return None
            if k == 1 and i == 0:
                i = m[0]
            elif k == -1 and j == 0:
                j = m[0]
            else:
                return None
        return i, j, c

    def assume(self, s, i, j, c):
        z = self.z
        if s <= 0:
            z.add(i, j, -c - (1 if s < 0 else 0))
        if s >= 0:
            z.add(j, i, c - (1 if s > 0 else 0))

    def less(self, I, o, eq):
        """self < o (or <= when eq), partitioning in two."""
        e = self.add(o, -1)
        lo, hi = e.bounds()
        if eq:
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if hi < 0:
                return True
            if lo >= 0:
                return False
        d = e.diff()
        if d is None:
            s = e.sign(I)
            return s <= 0 if eq else s < 0
        i, j, c = d
        if I.choose(None, 2) == 0:
            self.z.add(i, j, -c if eq else -c - 1)
            return True
        self.z.add(j, i, c - 1 if eq else c)
        return False

    def equal(self, I, o):
        e = self.add(o, -1)
        if not e.p:
            return True
        lo, hi = e.bounds()
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        return e.sign(I) == 0

    def binop(self, I, op, other, swapped):
        if op in ('==', '!='):
            if other is None or isinstance(other, (int, ZNum)):
                r = self.equal(I, lift(self.z, 0 if other is None else other))
                return r if op == '==' else not r
        o = lift(self.z, other)
        x, y = (o, self) if swapped else (self, o)
        if op == '+':
            return simp(x.add(y))
        if op == '-':
            return simp(x.add(y, -1))
        if op == '*':
            return simp(x.mul(y))
        if op == '<':
            return x.less(I, y, False)
        if op == '<=':
            return x.less(I, y, True)
        if op == '>':
            return y.less(I, x, False)
        if op == '>=':
            return y.less(I, x, True)
        if op in ('/', '%'):
            c = y.const()
            if c == 0:
                raise Trap('division by zero')
            if c in (1, -1):
                return (simp(x if c == 1 else lift(self.z, 0).add(x, -1)) if op == '/' else 0)
            if c is None:
                if y.sign(I) == 0:
                    raise Trap('division by zero')
            return self.z.opaque((op, x.key(), y.key()), '(%r %s %r)' % (x, op, y))
        raise Unsupported('operation %s on a symbolic number' % op)

    def neg(self):
        return simp(ZNum(self.z, {m: -c for m, c in self.p.items()}))


def transport(d, items, most=9):
    """Least upper bound of a linear expression implied by the zone: split it
    into differences of two variables in the cheapest way."""
    pos = [m[0] for m, c in items for _ in range(c)] if sum(abs(c) for m, c in items) <= 2 * most else None
    if pos is None:
        return None
    neg = [m[0] for m, c in items for _ in range(-c)]
    n = max(len(pos), len(neg))
    if n > most:
        return None
    pos += [0] * (n - len(pos))
    neg += [0] * (n - len(neg))
    best = {0: 0}
    for i, p in enumerate(pos):
        nxt = {}
        for mask, c in best.items():
            for j, q in enumerate(neg):
                if not mask >> j & 1 and d[p][q] != INF:
                    k = mask | 1 << j
                    v = c + d[p][q]
                    if v < nxt.get(k, INF):
                        nxt[k] = v
        best = nxt
    return best.get((1 << n) - 1, INF)


def simp(v):
    if not v.p:
        return 0
    if len(v.p) == 1 and () in v.p:
        return v.p[()]
    return v


def mulinf(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def addinf(a, b):
    r = a + b
    return r


def evalp(key, val):
    r = 0
    for m, c in key:
        for v in m:
            c *= val[v]
        r += c
    return r
