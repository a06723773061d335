"""Qualifier predicates, variant attributes and derived queries of the syntax tree."""
import itertools
from sa.facts import AnalysisBroken, loc
from sa.interp import Trap, Unsupported, Cell, Tok, Obj, ListV, StrV, UPtr, OptV, AbsEnum, paths, PairV
from sa import lib
from .astrules import guard, nm, Acc, unwrap, snapshot, methods

NS = 'marco::ast::bmodelica::'


class B:
    """Builds real nodes through their own setters."""

    def __init__(self, M, o=None):
        self.M = M
        self.I = M.interp(o)
        self.n = 0

    def node(self, cls, **attrs):
        o = self.M.construct(self.I, cls if '::' in cls else self.cls(cls))
        for k, v in attrs.items():
            self.set(o, k, v)
        return o

    def cls(self, short):
        c = [x for x in self.M.classes if nm(x) == short]
        if len(c) != 1:
            raise AnalysisBroken('no unique class %s' % short)
        return c[0]

    def wrap(self, v):
        if isinstance(v, Obj):
            return UPtr(v)
        if isinstance(v, str):
            return StrV(v)
        if isinstance(v, list):
            return ListV([self.wrap(x) for x in v], 'llvm::ArrayRef<x>')
        return v

    def set(self, o, k, v, pred=None):
        self.I.call_method(o, 'set' + k, Cell(self.wrap(v)), pred=pred)

    def get(self, o, name, *a):
        r = self.I.call_method(o, name, *[Cell(self.wrap(x)) if not isinstance(x, int) else x for x in a])
        return r

    def child(self, *tag):
        self.n += 1
        return self.M.root and self.I.child(tag)

    def const(self, v):
        c = self.node('Constant')
        t = {bool: 'bool', int: 'long', float: 'double'}.get(type(v))
        if t:
            self.set(c, 'Value', v, lambda m: m['p'][0]['t'] == t)
        else:
            self.set(c, 'Value', v, lambda m: 'basic_string' in m['p'][0]['t'])
        return c

    def ref(self, *path):
        return self.node('ComponentReference', GlobalLookup=False, Path=[
            self.node('ComponentReferenceEntry', Name=p) for p in path])

    def elem(self, name, expr=None, args=None, each=False):
        e = self.node('ElementModification', Name=name, EachProperty=each)
        m = self.node('Modification')
        if expr is not None:
            self.set(m, 'Expression', expr)
        if args is not None:
            self.set(m, 'ClassModification', self.node('ClassModification', Arguments=args))
        self.set(e, 'Modification', m)
        return e


def text(v):
    if isinstance(v, StrV):
        return ''.join(x if isinstance(x, str) else '?' for x in v.s)
    return v


def qualifiers(chk, M):
    P = M.P
    T = NS + 'TypePrefix'
    var = {n: v for n, v in P.enum[NS + 'VariabilityQualifier']['v']}
    io = {n: v for n, v in P.enum[NS + 'IOQualifier']['v']}
    preds = {'isDiscrete': ('v', 'discrete'), 'isParameter': ('v', 'parameter'), 'isConstant': ('v', 'constant'),
             'isInput': ('i', 'input'), 'isOutput': ('i', 'output')}
    for (vn, vv), (xn, xv) in itertools.product(var.items(), io.items()):
        for who in ('TypePrefix', 'Member'):
            for p, (w, n) in preds.items():
                key = '%s(%s %s)::%s' % (who, vn, xn, p)
                with guard(chk, 'qualifier', key):
                    b = B(M)
                    t = b.node('TypePrefix', VariabilityQualifier=vv, IOQualifier=xv)
                    o = t if who == 'TypePrefix' else b.node('Member', TypePrefix=t)
                    r = b.get(o, p)
                    want = (vn if w == 'v' else xn) == n
                    chk.ok('qualifier', key, b.I.truth(r) == want, 'answers %s' % r)
                    chk.visited(b.I.visited, P)


def variants(chk, M):
    P = M.P
    for dyn in (False, True):
        key = 'ArrayDimension::setSize(%s)' % ('expression' if dyn else 'integer')
        with guard(chk, 'accessor', key):
            b = B(M)
            o = b.node('ArrayDimension')
            d = []
            # set the other alternative first: the last value wins
            for first in (True, False):
                kinds = [not dyn, dyn] if first else [dyn]
                for k in kinds:
                    v = b.child('size') if k else Tok('val', 'n')
                    b.set(o, 'Size', v, lambda m: ('unique_ptr' in m['p'][0]['t']) == k)
                if b.get(o, 'hasExpression') != dyn:
                    d.append('hasExpression() is wrong')
                if dyn:
                    if unwrap(b.get(o, 'getExpression')) is not v:
                        d.append('getExpression() does not return the expression')
                    if v.f[M.parent_key()].v is not o:
                        d.append('the size expression is not adopted')
                    if b.get(o, 'isDynamic') is not True:
                        d.append('isDynamic() is false for a size expression')
                elif b.get(o, 'getNumericSize') != v:
                    d.append('getNumericSize() does not return the size')
            chk.ok('accessor', key, not d, '; '.join(d))
    for n, want in ((-1, True), (0, False), (1, False), (7, False)):
        key = 'ArrayDimension::isDynamic(%d)' % n
        with guard(chk, 'accessor', key):
            b = B(M)
            o = b.node('ArrayDimension')
            b.set(o, 'Size', n, lambda m: 'unique_ptr' not in m['p'][0]['t'])
            chk.ok('accessor', key, b.I.truth(b.get(o, 'isDynamic')) == want, 'wrong answer')


def run(chk, M):
    qualifiers(chk, M)
    variants(chk, M)


# ----------------------------------------------------------------- C05
def surroundings(b, target):
    """Argument lists with and without the target, in every position."""
    def other(i):
        return [lambda: b.elem('min', b.const(1)), lambda: b.node('ElementReplaceable'),
                lambda: b.elem('startup', b.const(False)), lambda: b.node('ElementRedeclaration')][i]
    for n in range(4):
        for fill in itertools.product(range(4), repeat=n) if n < 3 else [(0, 1, 2), (1, 2, 3), (2, 1, 0)]:
            yield ('absent', fill), [other(i)() for i in fill], None
            for pos in range(n + 1):
                t = target()
                l = [other(i)() for i in fill]
                l.insert(pos, t)
                yield ('at%d' % pos, fill), l, t


def queries(chk, M):
    P = M.P

    def each(kind, mk, f):
        b0 = B(M)
        n = 0
        for tag, args, t in surroundings(b0, lambda: mk(b0)):
            key = '%s/%s/%s' % (kind, tag[0], ''.join(map(str, tag[1])))
            with guard(chk, 'query', key):
                b0.I.fuel = b0.I.fuel0
                cm = b0.node('ClassModification', Arguments=args)
                bad = f(b0, cm, t is not None)
                chk.ok('query', key, not bad, bad or '')
                chk.paths += 1
            n += 1
        chk.visited(b0.I.visited, P)

    # start value
    def start(b, cm, present):
        for o in holders(b, cm, ('hasStartExpression', 'getStartExpression')):
            if b.I.truth(b.get(o, 'hasStartExpression')) != present:
                return '%s: presence of the start value is misreported' % nm(o.cls)
            if present:
                v = unwrap(b.get(o, 'getStartExpression'))
                if not isinstance(v, Obj) or v.tag != ref_tag(v, 'start'):
                    return '%s: wrong start value' % nm(o.cls)

    def ref_tag(v, n):
        t = v.tag
        while isinstance(t, tuple) and t and t[0] == 'clone':
            t = t[1]
        return v.tag if t == ('child', n) else None

    each('start', lambda b: b.elem('start', b.child('start')), start)

    # fixed flag
    for val in (True, False):
        def fixed(b, cm, present):
            for o in holders(b, cm, ('getFixedProperty',)):
                r = b.get(o, 'getFixedProperty')
                r = r.c.v if isinstance(r, OptV) and r.c is not None else None
                if r is not (val if present else False) and r != (val if present else False):
                    return '%s: fixed flag is %r' % (nm(o.cls), r)
        each('fixed=%s' % val, lambda b: b.elem('fixed', b.const(val)), fixed)
        for shape in ('{v}', '{v,v}', '{{v,v},{v,v}}', 'fill(v,2)'):
            def mk(b):
                if shape.startswith('fill'):
                    e = b.node('Call', Callee=b.ref('fill'), Arguments=[
                        b.node('ExpressionFunctionArgument', Expression=b.const(val)),
                        b.node('ExpressionFunctionArgument', Expression=b.const(2))])
                else:
                    def arr(*x):
                        return b.node('ArrayConstant', Values=list(x))
                    e = {'{v}': lambda: arr(b.const(val)), '{v,v}': lambda: arr(b.const(val), b.const(val)),
                         '{{v,v},{v,v}}': lambda: arr(arr(b.const(val), b.const(val)), arr(b.const(val), b.const(val)))}[shape]()
                return b.elem('fixed', e)
            each('fixed=%s as %s' % (val, shape), mk, fixed)
    # annotations
    for val in (True, False):
        for name in ('inline', 'Inline'):
            def inl(b, cm, present):
                a = b.node('Annotation', Properties=cm)
                if b.I.truth(b.get(a, 'getInlineProperty')) != (val if present else False):
                    return 'inline annotation misreported'
                f = b.node('StandardFunction', Annotation=a)
                if b.I.truth(b.get(f, 'shouldBeInlined')) != (val if present else False):
                    return 'inline request of the function misreported'
            each('%s=%s' % (name, val), lambda b: b.elem(name, b.const(val)), inl)
    with guard(chk, 'query', 'inline/no annotation'):
        b = B(M)
        chk.ok('query', 'inline/no annotation', b.I.truth(b.get(b.node('StandardFunction'), 'shouldBeInlined')) is False,
               'a function without annotation asks to be inlined')
    for order in (None, 1, 2, 5):
        def der(b, cm, present):
            a = b.node('Annotation', Properties=cm)
            if b.I.truth(b.get(a, 'hasDerivativeAnnotation')) != present:
                return 'presence of the derivative annotation is misreported'
            if present:
                d = b.get(a, 'getDerivativeAnnotation')
                if text(b.get(d, 'getName')) != 'foo':
                    return 'wrong derivative function %r' % (text(b.get(d, 'getName')),)
                if b.get(d, 'getOrder') != (order or 1):
                    return 'wrong derivative order %r' % (b.get(d, 'getOrder'),)

        def mkd(b):
            args = None if order is None else [b.elem('zero', b.const(0)), b.elem('order', b.const(order))]
            return b.elem('derivative', b.ref('foo'), args)
        each('derivative/order=%s' % order, mkd, der)

    def inv(b, cm, present):
        a = b.node('Annotation', Properties=cm)
        r = b.get(a, 'getInverseFunctionAnnotation')
        for arg, fun, args in (('u', 'f1', ['y', 'z']), ('v', 'f2', ['w'])):
            if b.I.truth(b.get(r, 'isInvertible', arg)) != present:
                return 'invertibility of %s misreported' % arg
            if present:
                if text(b.get(r, 'getInverseFunction', arg)) != fun:
                    return 'wrong inverse function of %s' % arg
                l = b.get(r, 'getInverseArgs', arg)
                if [text(c.v) for c in l.items] != args:
                    return 'wrong arguments of the inverse of %s' % arg
        if b.I.truth(b.get(r, 'isInvertible', 'y')):
            return 'an argument without declaration is invertible'

    def mki(b):
        def call(f, *xs):
            return b.node('Call', Callee=b.ref(f), Arguments=[
                b.node('ExpressionFunctionArgument', Expression=b.ref(x)) for x in xs])
        return b.elem('inverse', None, [b.elem('u', call('f1', 'y', 'z')), b.elem('v', call('f2', 'w'))])
    each('inverse', mki, inv)
    # signature of functions and record types
    kinds = ('input', 'output', 'none')
    io = {n: v for n, v in P.enum[NS + 'IOQualifier']['v']}
    for n in range(4):
        for combo in itertools.product(kinds, repeat=n):
            key = 'signature/%s' % ','.join(combo)
            with guard(chk, 'query', key):
                b = B(M)
                mem = []
                for i, k in enumerate(combo):
                    m = b.node('Member', Name='m%d' % i)
                    b.set(m, 'Type', b.child('type', i))
                    b.set(m, 'TypePrefix', b.node('TypePrefix', IOQualifier=io[k]))
                    mem.append(m)
                f = b.node('StandardFunction', Variables=mem)
                t = b.get(f, 'getType')
                d = []
                for cnt, el, kk in (('getNumOfArgs', 'getArg', 'input'), ('getNumOfResults', 'getResult', 'output')):
                    want = [i for i, x in enumerate(combo) if x == kk]
                    if b.get(t, cnt) != len(want):
                        d.append('%s() = %r' % (cnt, b.get(t, cnt)))
                    else:
                        for j, i in enumerate(want):
                            v = unwrap(b.get(t, el, j))
                            if origin(v) != ('child', 'type', i):
                                d.append('%s(%d) is the type of another member' % (el, j))
                r = b.node('Record', Variables=mem)
                t = b.get(r, 'getType')
                if b.get(t, 'size') != n:
                    d.append('record type has %r components' % b.get(t, 'size'))
                chk.ok('query', key, not d, '; '.join(d))
                chk.visited(b.I.visited, P)
    # dotted names
    for n in range(1, 4):
        for g in (False, True):
            key = 'dotted-name/%d%s' % (n, '/global' if g else '')
            with guard(chk, 'query', key):
                b = B(M)
                r = b.ref(*'abc'[:n])
                b.set(r, 'GlobalLookup', g)
                got = text(b.get(r, 'getName'))
                want = ('.' if g else '') + '.'.join('abc'[:n])
                chk.ok('query', key, got == want, 'name is %r instead of %r' % (got, want))
    # array types
    for n in range(4):
        for dyn in itertools.product((False, True), repeat=n):
            key = 'shape/%s' % ''.join('d' if x else 'c' for x in dyn)
            with guard(chk, 'query', key):
                b = B(M)
                dims = []
                for i, x in enumerate(dyn):
                    o = b.node('ArrayDimension')
                    b.set(o, 'Size', b.child('e', i) if x else 3 + i, lambda m: ('unique_ptr' in m['p'][0]['t']) == x)
                    dims.append(o)
                d = []
                for cls in ('BuiltInType', 'UserDefinedType'):
                    t = b.node(cls, Dimensions=dims)
                    if b.I.truth(b.get(t, 'hasConstantShape')) != (not any(dyn)):
                        d.append('%s::hasConstantShape() is wrong' % cls)
                    if b.I.truth(b.get(t, 'isScalar')) != (n == 0):
                        d.append('%s::isScalar() is wrong' % cls)
                    for k in range(n + 1):
                        s = unwrap(b.get(t, 'subscript', k))
                        if s.cls != t.cls or b.get(s, 'getRank') != n - k:
                            d.append('%s::subscript(%d) has rank %r' % (cls, k, b.get(s, 'getRank')))
                        else:
                            for j in range(n - k):
                                e = unwrap(b.get(s, 'operator[]', j))
                                if dyn[k + j]:
                                    if origin(unwrap(b.get(e, 'getExpression'))) != ('child', 'e', k + j):
                                        d.append('%s::subscript(%d) drops the wrong dimensions' % (cls, k))
                                elif b.get(e, 'getNumericSize') != 3 + k + j:
                                    d.append('%s::subscript(%d) drops the wrong dimensions' % (cls, k))
                    if b.get(t, 'getRank') != n:
                        d.append('subscripting changes the original type')
                chk.ok('query', key, not d, '; '.join(d))
                chk.visited(b.I.visited, P)


def origin(v):
    t = v.tag if isinstance(v, Obj) else None
    while isinstance(t, tuple) and t and t[0] == 'clone':
        t = t[1]
    return t


def holders(b, cm, names):
    """The class modification, a modification and a member wrapping it."""
    m = b.node('Modification', ClassModification=cm)
    o = b.node('Member', Modification=m)
    return [b.node('ClassModification', Arguments=b.get(cm, 'getArguments')), m, o]
