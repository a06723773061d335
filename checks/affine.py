"""Model of MLIR's affine expressions and maps: terms over dimensions and (possibly symbolic) integer constants,
built with the folding rules of the library's constructors."""
from sa.interp import Interp, Cell, Tok, Obj, ListV, Num, OptV, Unsupported, Trap, base_type, short
from sa.domains import ZNum, lift, simp
from sa import lib

CONST, DIM, ADD, MUL, MOD, FDIV, CDIV = 'Constant', 'DimId', 'Add', 'Mul', 'Mod', 'FloorDiv', 'CeilDiv'
BIN = {ADD: '+', MUL: '*', MOD: 'mod', FDIV: 'floordiv', CDIV: 'ceildiv'}


KINDS = {ADD: 0, MUL: 1, MOD: 2, FDIV: 3, CDIV: 4, CONST: 5, DIM: 6}      # mlir::AffineExprKind


class AE:
    """Affine expression (None: null)."""
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == CONST:
            return repr(self.a)
        if self.k == DIM:
            return 'd%d' % self.a
        return '(%r %s %r)' % (self.a, BIN[self.k], self.b)


class AM:
    """Affine map."""
    __slots__ = ('n', 'res')

    def __init__(self, n, res):
        self.n, self.res = n, list(res)

    def __repr__(self):
        return '(%d) -> (%s)' % (self.n, ', '.join(map(repr, self.res)))


class Affine:
    """Operations; I is the interpreter whose path the symbolic tests refine."""

    def __init__(self, I):
        self.I = I

    def eq0(self, v, k=0):
        if isinstance(v, int):
            return v == k
        return self.I.truth(self.I.binop('==', v, k))

    def num(self, op, a, b):
        return self.I.binop(op, a, b)

    def const(self, v):
        return AE(CONST, v)

    def same(self, x, y):
        if x is y:
            return True
        if x is None or y is None or x.k != y.k:
            return False
        if x.k == CONST:
            if isinstance(x.a, int) and isinstance(y.a, int):
                return x.a == y.a
            return self.I.truth(self.I.binop('==', x.a, y.a))
        if x.k == DIM:
            return x.a == y.a
        return self.same(x.a, y.a) and self.same(x.b, y.b)

    def const_like(self, x):
        return x.k == CONST or x.k not in (DIM,) and self.const_like(x.a) and self.const_like(x.b)

    def add(self, x, y):
        if x.k == CONST and y.k == CONST:
            return self.const(self.num('+', x.a, y.a))
        if x.k == CONST:
            return self.add(y, x)
        if y.k == CONST and self.eq0(y.a):
            return x
        if x.k == ADD and y.k == CONST and x.b.k == CONST:
            return self.add(x.a, self.const(self.num('+', x.b.a, y.a)))

        def coef(e):
            return (e.a, e.b.a) if e.k == MUL and e.b.k == CONST else (e, 1)
        (p, c), (q, d) = coef(x), coef(y)
        if y.k != CONST and self.same(p, q):
            return self.mul(p, self.const(self.num('+', c, d)))
        if x.k == ADD and x.b.k == CONST:
            return self.add(self.add(x.a, y), x.b)
        # x + (x floordiv c) * -c  ->  x mod c
        if y.k == MUL and y.b.k == CONST and isinstance(y.b.a, int) and y.b.a < 0 and y.a.k == FDIV and \
                y.a.b.k == CONST and isinstance(y.a.b.a, int) and y.a.b.a == -y.b.a and self.same(x, y.a.a):
            return self.bin(MOD, x, y.a.b)
        return AE(ADD, x, y)

    def mul(self, x, y):
        if x.k == CONST and y.k == CONST:
            return self.const(self.num('*', x.a, y.a))
        if x.k == CONST:
            return self.mul(y, x)
        if y.k == CONST:
            if self.eq0(y.a, 1):
                return x
            if self.eq0(y.a):
                return y
            if x.k == MUL and x.b.k == CONST:
                return self.mul(x.a, self.const(self.num('*', x.b.a, y.a)))
        return AE(MUL, x, y)

    def divisor(self, x):
        if x.k == CONST:
            return abs(x.a) if isinstance(x.a, int) else 1
        if x.k == MUL:
            return self.divisor(x.a) * self.divisor(x.b)
        if x.k in (ADD, MOD):
            import math
            return math.gcd(self.divisor(x.a), self.divisor(x.b))
        return 1

    def fdiv(self, x, y):
        if y.k != CONST:
            return AE(FDIV, x, y)
        if not isinstance(y.a, int):
            if self.eq0(y.a):
                return AE(FDIV, x, y)
        elif y.a == 0:
            return AE(FDIV, x, y)
        if x.k == CONST:
            if isinstance(x.a, int) and isinstance(y.a, int):
                return self.const(x.a // y.a)
            return self.const(floordiv(self.I, x.a, y.a))
        if not isinstance(y.a, int):
            return AE(FDIV, x, y)
        if y.a == 1:
            return x
        if x.k == MUL and x.b.k == CONST and isinstance(x.b.a, int) and x.b.a % y.a == 0:
            return self.mul(x.a, self.const(x.b.a // y.a))
        if x.k == ADD and y.a and (self.divisor(x.a) % y.a == 0 or self.divisor(x.b) % y.a == 0):
            return self.add(self.fdiv(x.a, y), self.fdiv(x.b, y))
        return AE(FDIV, x, y)

    def mod(self, x, y):
        if y.k == CONST and x.k == CONST and isinstance(x.a, int) and isinstance(y.a, int) and y.a >= 1:
            return self.const(x.a % y.a)
        return AE(MOD, x, y)

    def bin(self, k, x, y):
        return {ADD: self.add, MUL: self.mul, FDIV: self.fdiv, MOD: self.mod,
                CDIV: lambda a, b: AE(CDIV, a, b)}[k](x, y)

    def neg(self, x):
        return self.mul(x, self.const(-1))

    def compose(self, e, res):
        """Replace dimensions by the given expressions."""
        if e.k == CONST:
            return e
        if e.k == DIM:
            return res[e.a] if e.a < len(res) else e
        x, y = self.compose(e.a, res), self.compose(e.b, res)
        if x is e.a and y is e.b:
            return e
        return self.bin(e.k, x, y)

    def eval(self, e, xs):
        if e.k == CONST:
            return e.a
        if e.k == DIM:
            if e.a >= len(xs):
                raise Trap('affine dimension d%d out of range' % e.a)
            return xs[e.a]
        x, y = self.eval(e.a, xs), self.eval(e.b, xs)
        if e.k == ADD:
            return self.num('+', x, y)
        if e.k == MUL:
            return self.num('*', x, y)
        if e.k == FDIV:
            return floordiv(self.I, x, y)
        if e.k == MOD:
            return floormod(self.I, x, y)
        raise Unsupported('ceildiv')

    # ---- flattening (simplifyAffineExpr)
    def pure(self, e):
        if e.k in (CONST, DIM):
            return True
        return self.pure(e.a) and self.pure(e.b) and (e.k == ADD or e.b.k == CONST and isinstance(e.b.a, int)
                                                     or e.k == MUL and e.b.k == CONST)

    def simplify(self, e, n):
        if e.k in (CONST, DIM):
            return e
        if not self.pure(e):
            return e
        loc = []

        def flat(e):
            """(coefficients by dimension, coefficients by local, constant) or None."""
            if e.k == CONST:
                return {}, {}, e.a
            if e.k == DIM:
                return {e.a: 1}, {}, 0
            x = flat(e.a)
            if x is None:
                return None
            if e.k == ADD:
                y = flat(e.b)
                if y is None:
                    return None
                return madd(x[0], y[0]), madd(x[1], y[1]), self.num('+', x[2], y[2])
            c = e.b.a
            if e.k == MUL:
                return ({k: self.num('*', v, c) for k, v in x[0].items()}, {k: self.num('*', v, c) for k, v in x[1].items()},
                        self.num('*', x[2], c))
            if c < 1:
                return None
            cs = list(x[0].values()) + list(x[1].values()) + [x[2]]
            import math
            g = c
            for v in cs:
                if not isinstance(v, int):
                    if any(not isinstance(w, int) or w % g for w in cs if w is not v) or g != 1:
                        o = [w for w in cs if isinstance(w, int)]
                        h = c
                        for w in o:
                            h = math.gcd(h, w)
                        if h != 1:
                            raise Unsupported('divisibility of a symbolic constant')
                    g = 1
                    break
                g = math.gcd(g, v)
            if e.k == MOD:
                if all(isinstance(v, int) and v % c == 0 for v in cs):
                    return {}, {}, 0
                if g != 1:
                    x = ({k: v // g for k, v in x[0].items()}, {k: v // g for k, v in x[1].items()}, x[2] // g)
                    c //= g
                j = local(x, c)
                y = (dict(x[0]), madd(x[1], {j: -c}), x[2])
                if g != 1:
                    y = ({k: v * g for k, v in y[0].items()}, {k: v * g for k, v in y[1].items()}, y[2] * g)
                return y
            if g != 1:
                x = ({k: v // g for k, v in x[0].items()}, {k: v // g for k, v in x[1].items()}, x[2] // g)
                c //= g
            if c == 1:
                return x
            return {}, {local(x, c): 1}, 0

        def madd(a, b):
            r = dict(a)
            for k, v in b.items():
                r[k] = self.num('+', r[k], v) if k in r else v
            return {k: v for k, v in r.items() if not self.eq0(v)}

        def local(x, c):
            ex = self.fdiv(build(x), self.const(c))
            for i, y in enumerate(loc):
                if self.same(y, ex):
                    return i
            loc.append(ex)
            return len(loc) - 1

        def build(x):
            r = self.const(0)
            for k in sorted(x[0]):
                r = self.add(r, self.mul(AE(DIM, k), self.const(x[0][k])))
            for k in sorted(x[1]):
                r = self.add(r, self.mul(loc[k], self.const(x[1][k])))
            return r if self.eq0(x[2]) else self.add(r, self.const(x[2]))
        f = flat(e)
        return e if f is None else build(f)

    # ---- interpretation of calls
    def free(self, n, nm, a):
        I = self.I
        if nm == 'getAffineDimExpr':
            return AE(DIM, self.cint(a[0]))
        if nm == 'getAffineConstantExpr':
            return self.const(a[0])
        if nm == 'getAffineBinaryOpExpr':
            return self.bin(self.kindname(a[0]), a[1], a[2])
        if nm == 'simplifyAffineExpr':
            return self.simplify(a[0], a[1])
        if nm == 'simplifyAffineMap':
            return AM(a[0].n, [self.simplify(e, a[0].n) for e in a[0].res])
        if nm in ('compressUnusedDims', 'compressDims'):
            m = a[0]
            used = sorted(set().union(*[self.dims(e) for e in m.res])) if m.res else []
            if nm == 'compressDims':
                drop = [i for i, c in enumerate(a[1].vals) if I.truth(c)]
                if set(drop) & set(used):
                    raise Trap('compressDims drops a used dimension')
                used = [i for i in range(m.n) if i not in drop]
            res = [AE(DIM, used.index(i)) if i in used else self.const(0) for i in range(m.n)]
            return AM(len(used), [self.compose(e, res) for e in m.res])
        if nm in ('isa', 'cast', 'dyn_cast', 'isa_and_nonnull', 'dyn_cast_or_null', 'isa_and_present', 'dyn_cast_if_present'):
            v = a[0]
            if not isinstance(v, AE) and v is not None:
                return NotImplemented
            ts = [base_type(str(t)) for t in n['ta'] if 'mlir::Affine' in str(t)][:1]
            if not ts:
                return NotImplemented
            if v is None:
                if nm in ('isa', 'dyn_cast', 'cast'):
                    raise Trap('%s of a null affine expression' % nm)
                return False if nm.startswith('isa') else None
            t = ts[0].rsplit('::', 1)[-1]
            ok = {'AffineConstantExpr': v.k == CONST, 'AffineDimExpr': v.k == DIM, 'AffineBinaryOpExpr': v.k in BIN,
                  'AffineSymbolExpr': False, 'AffineExpr': True}[t]
            if nm.startswith('isa'):
                return ok
            if nm == 'cast':
                if not ok:
                    raise Trap('cast of %r to %s' % (v, t))
                return v
            return v if ok else None
        return NotImplemented

    def kindname(self, v):
        for k, i in KINDS.items():
            if i == v:
                return k
        raise Unsupported('affine expression kind %r' % (v,))

    def kindnum(self, k):
        return KINDS[k]

    def dims(self, e):
        if e.k == DIM:
            return {e.a}
        if e.k == CONST:
            return set()
        return self.dims(e.a) | self.dims(e.b)

    def cint(self, v):
        if isinstance(v, ZNum):
            v = v.const(self.I)
        if not isinstance(v, int):
            raise Unsupported('symbolic dimension position')
        return v

    def method(self, n, o, nm, a):
        I = self.I
        if isinstance(o, AE):
            if nm == 'getContext':
                return Tok('mlirctx')
            if nm == 'getValue':
                return o.a
            if nm == 'getPosition':
                return o.a
            if nm == 'getKind':
                return self.kindnum(o.k)
            if nm == 'getLHS':
                return o.a
            if nm == 'getRHS':
                return o.b
            if nm in ('operator+', 'operator-', 'operator*', 'floorDiv', 'operator%', 'ceilDiv'):
                if nm == 'operator-' and not a:
                    return self.neg(o)
                y = a[0] if isinstance(a[0], AE) else self.const(a[0])
                if nm == 'operator-':
                    return self.add(o, self.neg(y))
                return self.bin({'operator+': ADD, 'operator*': MUL, 'floorDiv': FDIV, 'operator%': MOD,
                                 'ceilDiv': CDIV}[nm], o, y)
            if nm in ('operator==', 'operator!='):
                y = a[0] if isinstance(a[0], AE) or a[0] is None else self.const(a[0])
                return self.same(o, y) == (nm == 'operator==')
            if nm == 'isSymbolicOrConstant':
                return self.const_like(o)
            if nm == 'isFunctionOfDim':
                return self.cint(a[0]) in self.dims(o)
            if nm in ('replaceDims', 'compose', 'replaceDimsAndSymbols'):
                res = a[0].res if isinstance(a[0], AM) else a[0].vals
                return self.compose(o, res)
            if nm == 'shiftDims':
                off = a[2] if len(a) > 2 else 0
                return self.compose(o, [AE(DIM, i if i < off else i + a[1]) for i in range(a[0])])
            if nm in ('operator bool',):
                return True
            if nm == 'operator!':
                return False
        if isinstance(o, AM):
            if nm == 'getContext':
                return Tok('mlirctx')
            if nm in ('getNumDims', 'getNumInputs'):
                return o.n
            if nm == 'getNumSymbols':
                return 0
            if nm == 'getNumResults':
                return len(o.res)
            if nm == 'getResults':
                return ListV(o.res, 'llvm::ArrayRef<mlir::AffineExpr>')
            if nm == 'getResult':
                i = self.cint(a[0])
                if not 0 <= i < len(o.res):
                    raise Trap('result %d of a map with %d results' % (i, len(o.res)))
                return o.res[i]
            if nm == 'isConstant':
                return all(e.k == CONST for e in o.res)
            if nm == 'isSingleConstant':
                return len(o.res) == 1 and o.res[0].k == CONST
            if nm == 'isEmpty':
                return o.n == 0 and not o.res
            if nm == 'isIdentity':
                return o.n == len(o.res) and all(e.k == DIM and e.a == i for i, e in enumerate(o.res))
            if nm == 'isFunctionOfDim':
                return any(self.cint(a[0]) in self.dims(e) for e in o.res)
            if nm in ('operator==', 'operator!='):
                y = a[0]
                r = o.n == y.n and len(o.res) == len(y.res) and all(self.same(p, q) for p, q in zip(o.res, y.res))
                return r == (nm == 'operator==')
            if nm == 'compose':
                x = a[0]
                if isinstance(x, AM):
                    if o.n != len(x.res):
                        raise Trap('composition of a map of %d dimensions with %d results' % (o.n, len(x.res)))
                    return AM(x.n, [self.compose(e, x.res) for e in o.res])
                if isinstance(x, ListV):
                    if o.n != len(x.vals):
                        raise Trap('a map of %d dimensions is applied to %d values' % (o.n, len(x.vals)))
                    return ListV([self.eval(e, x.vals) for e in o.res], 'llvm::SmallVector<long,8>')
            if nm == 'getSubMap':
                return AM(o.n, [o.res[self.cint(i)] for i in a[0].vals])
            if nm == 'getMajorSubMap':
                return AM(o.n, o.res[:self.cint(a[0])])
            if nm == 'getMinorSubMap':
                return AM(o.n, o.res[len(o.res) - self.cint(a[0]):])
            if nm == 'dropResult':
                return AM(o.n, [e for i, e in enumerate(o.res) if i != self.cint(a[0])])
            if nm == 'shiftDims':
                off = a[1] if len(a) > 1 else 0
                r = [AE(DIM, i if i < off else i + a[0]) for i in range(o.n)]
                return AM(o.n + a[0], [self.compose(e, r) for e in o.res])
            if nm == 'operator bool':
                return True
        if o is None and nm in ('operator bool', 'operator!'):
            return nm == 'operator!'
        return NotImplemented

    def static(self, n, nm, a):
        if nm == 'get':
            if len(a) == 1:
                return AM(0, [])
            if len(a) in (3, 4) and isinstance(a[2], (ListV, AE)):
                return AM(self.cint(a[0]), a[2].vals if isinstance(a[2], ListV) else [a[2]])
            if len(a) == 3:
                return AM(self.cint(a[0]), [])
        if nm in ('getMultiDimIdentityMap',):
            return AM(self.cint(a[0]), [AE(DIM, i) for i in range(self.cint(a[0]))])
        if nm == 'getConstantMap':
            return AM(0, [self.const(a[0])])
        if nm == 'getPermutationMap':
            p = [self.cint(x) for x in a[0].vals]
            return AM(len(p), [AE(DIM, x) for x in p])
        return NotImplemented


def floordiv(I, x, y):
    if isinstance(x, int) and isinstance(y, int):
        if y == 0:
            raise Trap('division by zero')
        return x // y
    if isinstance(y, int) and y > 0:
        # floor((q*y + r) / y) = q + floor(r / y)
        q = {m: c // y for m, c in x.p.items() if c // y}
        r = {m: c % y for m, c in x.p.items() if c % y}
        if not r or set(r) == {()}:
            return simp(ZNum(x.z, q))
        t = opaque(I, 'floordiv', ZNum(x.z, r), y)
        return simp(ZNum(x.z, q).add(t)) if q else t
    return opaque(I, 'floordiv', x, y)


def floormod(I, x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x % y
    return I.binop('-', x, I.binop('*', floordiv(I, x, y), y))


def opaque(I, op, x, y):
    z = x.z if isinstance(x, ZNum) else y.z
    x, y = lift(z, x), lift(z, y)
    x, y = x.reduce(), y.reduce()
    for v, (p, a, b) in z.meaning.items():
        if p == op and ZNum(z, dict(a)).reduce() == x and ZNum(z, dict(b)).reduce() == y:
            return ZNum(z, {(v,): 1})
    return z.opaque((op, x.key(), y.key()), '(%r %s %r)' % (x, op, y))


class AffInterp(Interp):
    """Interpreter with the affine model."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.aff = Affine(self)

    def call(self, n):
        fn = n.get('fn')
        if fn and (fn.startswith('mlir::') or fn.startswith('llvm::') and short(fn) in ('isa', 'cast', 'dyn_cast')
                   and n['a'] and 'mlir::Affine' in str(n['a'][0].get('t', ''))):
            nm = short(fn)
            if fn.startswith(('mlir::AffineMap::', 'mlir::AffineExpr::', 'mlir::AffineDimExpr::',
                              'mlir::AffineConstantExpr::', 'mlir::AffineBinaryOpExpr::')):
                if n.get('static') or 'obj' not in n:
                    r = self.aff.static(n, nm, [lib.V(self.ev(x)) for x in n['a']]) if nm in (
                        'get', 'getMultiDimIdentityMap', 'getConstantMap', 'getPermutationMap') else NotImplemented
                elif nm == 'operator=':
                    c = self.lval(n['obj'])
                    c.v = lib.V(self.ev(n['a'][0]))
                    return c
                else:
                    o = lib.V(self.ev(n['obj']))
                    a = [lib.V(self.ev(x)) for x in n['a']]
                    if o is None and nm not in ('operator bool', 'operator!'):
                        raise Trap('%s called on a null expression' % fn)
                    r = self.aff.method(n, o, nm, a)
                if r is not NotImplemented:
                    return r
                raise Unsupported('call to %s at %s' % (fn, self.where()))
            if 'obj' not in n:
                a = [lib.V(self.ev(x)) for x in n['a']]
                if nm.startswith('operator') and a and isinstance(a[0], (AE, AM)):
                    r = self.aff.method(n, a[0], nm, a[1:])
                elif nm.startswith('operator') and len(a) == 2 and isinstance(a[1], AE):
                    r = self.aff.method(n, self.aff.const(a[0]), nm, a[1:])
                else:
                    r = self.aff.free(n, nm, a)
                if r is not NotImplemented:
                    return r
        if fn and short(fn) in ('divideFloorSigned', 'floorDiv') and 'obj' not in n and len(n['a']) == 2 and \
                fn.startswith(('llvm::', 'mlir::')):
            return floordiv(self, *[lib.V(self.ev(x)) for x in n['a']])
        return super().call(n)

    def truth(self, v, node=None):
        if isinstance(v, (AE, AM)):
            return True
        return super().truth(v, node)


def aff_ctor(I, e):
    a = [lib.V(I.ev(x)) for x in e['a']]
    if not a:
        return None
    if isinstance(a[0], (AE, AM)) or a[0] is None:
        return a[0]
    return NotImplemented


AFFCTORS = {'mlir::' + c: aff_ctor for c in ('AffineExpr', 'AffineDimExpr', 'AffineConstantExpr', 'AffineBinaryOpExpr',
                                              'AffineMap', 'AffineSymbolExpr')}
