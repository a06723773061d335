"""Documented semantics of the standard/LLVM library pieces used by the sources.

method(I, obj, nm, n): member call nm on a library value; free(I, fn, nm, n):
free function; ctor(I, cls, e): construction; iterate(I, rng): range-for.
Each returns NotImplemented when the callee is not modelled."""
import functools
import re
from .facts import AnalysisBroken
from . import interp as it
from .interp import (Cell, Tok, Obj, ListV, IterV, StrV, OptV, UPtr, PairV, MapV, FnV, Num, AbsEnum,
                     Trap, Unsupported, UNINIT, base_type, LIST_PRE, STR_PRE, OPT_PRE, PTR_PRE, PAIR_PRE,
                     MAP_PRE, SET_PRE, FN_PRE, short)

NI = NotImplemented


class StreamV:
    __slots__ = ('out',)

    def __init__(self):
        self.out = []


class VarV:
    """std::variant: (alternative type, value)."""
    __slots__ = ('t', 'c')

    def __init__(self, t=None, v=None):
        self.t, self.c = t, Cell(v)


class BackIns:
    __slots__ = ('l', 't')

    def __init__(self, l, t=None):
        self.l, self.t = l, t


class RefV:
    """std::reference_wrapper"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class EnumR:
    """element of llvm::enumerate"""
    __slots__ = ('i', 'c')

    def __init__(self, i, c):
        self.i, self.c = i, c


def V(x):
    return x.v if isinstance(x, Cell) else x


def is_ptr_node(n):
    return str(n.get('t', '')).rstrip().endswith(('*', '*const'))


def take(I, node):
    """The value initialised from expression node (copy / move / prvalue)."""
    k = node.get('k')
    if k == 'ilist':
        return I.ev(node)
    if is_ptr_node(node):
        return I.ev(node)
    vc = node.get('vc')
    v = I.ev(node)
    if isinstance(v, (Obj, ListV, StrV, OptV, UPtr, PairV, MapV, VarV)):
        if vc == 'x':
            return I.move(v)
        if vc == 'l':
            if isinstance(v, (ListV, UPtr)) and moveonly(v):
                return I.move(v)    # implicit move of a returned local
            if isinstance(v, Obj) and v.f is not it.DEAD and any(isinstance(c.v, UPtr) and not c.v.shared for c in v.f.values()) \
                    and I.special(v.cls, 'copyctor') is None:
                return I.move(v)
            return copyv(I, v)
    return v


def take_value(I, r):
    """The value initialised from the result of a call."""
    if isinstance(r, Cell):
        return copyv(I, r.v)
    return r


def moveonly(v):
    if isinstance(v, UPtr):
        return not v.shared
    return isinstance(v, ListV) and bool(v.items) and not v.cls.startswith(('llvm::ArrayRef<', 'llvm::MutableArrayRef<', 'view')) \
        and moveonly(v.items[0].v)


def cpy(I, l, v):
    """Element v as it is copied into container l (or into one of type l)."""
    if isinstance(v, Obj) and l is not None:
        if isinstance(l, str):
            if (elem_type(l) or '').rstrip().endswith('*'):
                return v
        elif isinstance(l, ListV):
            if is_ptr_elem(l):
                return v
    return copyv(I, v)


def dst_type(dst):
    """The container (or the container type) an output iterator writes to."""
    if isinstance(dst, BackIns):
        return dst.t or dst.l
    return getattr(dst, 'l', None)


def copyv(I, v):
    if isinstance(v, VarV):
        return VarV(v.t, v.c.v)
    if isinstance(v, Obj):
        return I.copy(v)
    return I.copy_lib(v)


def fit(I, l, v):
    """v converted to the element type of the container l when it is built
    from elements of another class."""
    if isinstance(v, Obj) and isinstance(l, ListV):
        et = elem_type(l.cls)
        if et is None or et.endswith('*'):
            return v
        b = base_type(et)
        if b != v.cls and b in I.P.rec and not I.P.is_base(b, v.cls) and not I.P.is_base(v.cls, b):
            for m in I.P.rec[b]['methods']:
                if m.get('kind') == 'ctor' and len(m['p']) == 1 and m['id'] in I.P.fn and \
                        I.P.is_base(base_type(m['p'][0]['t']), v.cls):
                    return I.construct_with(b, I.P.fn[m['id']], [Cell(v)])
    return v


# ------------------------------------------------------------------ iteration
def cells_between(I, a, b):
    if isinstance(a, IterV):
        if a.rev:
            n = len(a.l.items)
            return [a.l.items[n - 1 - i] for i in range(a.i, b.i)]
        if isinstance(a.l, MapV):
            vs = list(a.l.d.values())
            return [map_cell(a.l, p) for p in vs[a.i:b.i]]
        return a.l.items[a.i:b.i]
    if isinstance(a, it.LIterV):
        return a.l.items[a.pos():b.pos()]
    if isinstance(a, Obj):
        out = []
        cur = I.copy(a)
        for _ in range(100000):
            ne = user_ne(I, cur, b)
            if not I.truth(ne):
                return out
            out.append(as_cell(user_op(I, cur, 'operator*', 0)))
            user_op(I, cur, 'operator++', 0)
        raise Trap('unbounded iteration')
    raise Unsupported('iterator range %r' % (a,))


def as_cell(x):
    return x if isinstance(x, Cell) else Cell(x)


def user_op(I, o, name, nargs, *args):
    f = I.find_method(o.cls, name, nargs)
    return I.call_fn(f, o, [Cell(a) for a in args])


def user_ne(I, a, b):
    try:
        f = I.find_method(a.cls, 'operator!=', 1)
        return V(I.call_fn(f, a, [Cell(b)]))
    except AnalysisBroken:
        pass
    try:
        f = I.find_method(a.cls, 'operator==', 1)
        return not I.truth(V(I.call_fn(f, a, [Cell(b)])))
    except AnalysisBroken:
        pass
    for nm in ('operator!=', 'operator=='):
        for q in list(I.P.by_name):
            if short(q) == nm:
                for f in I.P.by_name[q]:
                    if len(f['p']) == 2 and all(base_type(p['t']) == a.cls for p in f['p']):
                        r = I.truth(V(I.call_fn(f, None, [Cell(a), Cell(b)])))
                        return r if nm == 'operator!=' else not r
    raise Unsupported('no iterator comparison for %s' % a.cls)


def map_cell(m, p):
    return p.c[0] if m.kind == 'set' else Cell(p)


def iterate(I, rng):
    rng = V(rng)
    if hasattr(rng, 'lib_iter'):
        yield from rng.lib_iter(I)
        return
    if isinstance(rng, ListV):
        for c in list(rng.items):
            yield c
        return
    if isinstance(rng, tuple):
        for x in rng:               # a table of constants
            yield Cell(x)
        return
    if isinstance(rng, MapV):
        for p in list(rng.d.values()):
            yield map_cell(rng, p)
        return
    if isinstance(rng, StrV):
        for ch in rng.s:
            yield Cell(ord(ch) if isinstance(ch, str) else ch)
        return
    if isinstance(rng, OptV) and rng.c is not None:
        yield from iterate(I, rng.c.v)
        return
    if isinstance(rng, Obj):
        b = V(user_op(I, rng, 'begin', 0))
        e = V(user_op(I, rng, 'end', 0))
        if isinstance(b, Obj):
            cur = I.copy(b)
            for _ in range(100000):
                if not I.truth(user_ne(I, cur, e)):
                    return
                yield as_cell(user_op(I, cur, 'operator*', 0))
                user_op(I, cur, 'operator++', 0)
            raise Trap('unbounded iteration')
        for c in cells_between(I, b, e):
            yield c
        return
    raise Unsupported('iteration over %r at %s' % (rng, I.where()))


def cells(I, rng):
    rng = V(rng)
    if isinstance(rng, ListV):
        return rng.items
    return list(iterate(I, rng))


# ------------------------------------------------------------------ helpers
def key_of(I, v):
    v = V(v)
    if isinstance(v, UPtr):
        v = v.p
    if isinstance(v, Num):
        c = v.const(I)
        if c is None:
            raise Unsupported('symbolic map key')
        return c
    return I.keyof(v)


def concrete(I, v):
    v = V(v)
    if isinstance(v, Num):
        c = v.const(I)
        if c is None:
            raise Unsupported('symbolic size at %s' % I.where())
        return c
    if isinstance(v, bool):
        return int(v)
    if not isinstance(v, int):
        raise Unsupported('size %r at %s' % (v, I.where()))
    return v


def ptr_type(t):
    t = t.rstrip().rstrip('&').rstrip()
    return t.endswith(('*', '*const', '* const'))


def elem_types(t, n):
    """The types of the elements of tuple or container type t, where it names n of them."""
    ts = [x for x in (y.strip() for y in targs(t or '')) if x]
    return ts[:n] if len(ts) >= n else [''] * n


def equal(I, a, b, t=''):
    """Semantic equality a == b of two values (user operator== for objects,
    identity for pointers); t is the type of the left one where it is known."""
    a, b = V(a), V(b)
    if isinstance(a, Obj) and isinstance(b, Obj) and t and ptr_type(t):
        return a is b
    if isinstance(a, Obj) and isinstance(b, Obj):
        return I.truth(obj_eq(I, a, b))
    if isinstance(a, ListV) and isinstance(b, ListV):
        if len(a.items) != len(b.items):
            return False
        et = elem_types(t, 1)[0]
        return all(equal(I, x.v, y.v, et) for x, y in zip(a.items, b.items))
    if isinstance(a, OptV) or isinstance(b, OptV):
        av = a.c.v if isinstance(a, OptV) and a.c else (None if isinstance(a, OptV) else a)
        bv = b.c.v if isinstance(b, OptV) and b.c else (None if isinstance(b, OptV) else b)
        ha = a.c is not None if isinstance(a, OptV) else True
        hb = b.c is not None if isinstance(b, OptV) else True
        if ha != hb:
            return False
        return not ha or equal(I, av, bv)
    if isinstance(a, PairV) and isinstance(b, PairV):
        return all(equal(I, x.v, y.v, et) for x, y, et in zip(a.c, b.c, elem_types(t, len(a.c))))
    return I.truth(I.binop('==', a, b))


def obj_eq(I, a, b):
    cand = ops_for(I, 'operator==', a.cls, b.cls)
    if cand:
        f, m = cand
        if m:
            return V(I.call_fn(f, a, [Cell(b)]))
        return V(I.call_fn(f, None, [Cell(a), Cell(b)]))
    raise Unsupported('no operator== for %s' % a.cls)


def less(I, a, b):
    a, b = V(a), V(b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        cand = ops_for(I, 'operator<', a.cls, b.cls)
        if cand:
            f, m = cand
            r = I.call_fn(f, a, [Cell(b)]) if m else I.call_fn(f, None, [Cell(a), Cell(b)])
            return I.truth(V(r))
        raise Unsupported('no operator< for %s' % a.cls)
    if isinstance(a, PairV) and isinstance(b, PairV):
        for x, y in zip(a.c, b.c):
            if less(I, x.v, y.v):
                return True
            if less(I, y.v, x.v):
                return False
        return False
    return I.truth(I.binop('<', a, b))


def ops_for(I, name, ca, cb):
    todo = [ca]
    while todo:
        c = todo.pop(0)
        r = I.P.rec.get(c)
        if not r:
            continue
        for m in r['methods']:
            if m['n'] == name and len(m['p']) == 1 and m['id'] in I.P.fn and \
                    I.P.is_base(base_type(m['p'][0]['t'] if isinstance(m['p'][0], dict) else m['p'][0]), cb):
                f = I.P.fn[m['id']]
                if m.get('virt'):
                    fin = I.P.find_override(m['id'], ca)
                    if fin in I.P.fn:
                        f = I.P.fn[fin]
                return f, True
        todo += r['bases']
    for q, fs in I.P.by_name.items():
        if q.endswith(name) and short(q) == name:
            for f in fs:
                if len(f['p']) == 2 and 'cls' not in f and I.P.is_base(base_type(f['p'][0]['t']), ca) and \
                        I.P.is_base(base_type(f['p'][1]['t']), cb):
                    return f, False
    return None


def call(I, f, *cs):
    f = V(f)
    r = I.invoke(f, [as_cell(c) for c in cs]) if isinstance(f, (FnV, Obj)) else bad_callable(f)
    return r


def bad_callable(f):
    if f is None:
        raise Trap('call through an empty function')
    raise Unsupported('callable %r' % (f,))


def elem_default(I, l):
    t = elem_type(l.cls)
    if t is None:
        raise Unsupported('element type of %s' % l.cls)
    return I.default_construct(t)


def targs(t):
    """Top-level template arguments of type string t."""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:]:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def elem_type(t):
    t = base_type(t) if not t.endswith(']') else t
    if t.endswith(']'):
        return t[:t.rindex('[')].strip()
    a = targs(t)
    return a[0] if a else None


# ------------------------------------------------------------------ methods
def method(I, o, nm, n):
    if nm == 'operator->' and 'PointerProxy' in n['fn']:
        return o if isinstance(o, Cell) else Cell(o)
    a = n['a']
    if nm == 'operator=' and (o is UNINIT or str(n.get('cls')) == 'llvm::json::Value'):
        c = I.lval(n['obj'])
        c.v = take(I, a[0])
        return c
    if o is UNINIT:
        raise Trap('use of an uninitialised value at %s' % I.where())
    if isinstance(o, ListV):
        r = m_list(I, o, nm, n, a)
    elif isinstance(o, UPtr):
        r = m_uptr(I, o, nm, n, a)
    elif isinstance(o, OptV):
        r = m_opt(I, o, nm, n, a)
    elif isinstance(o, StrV):
        r = m_str(I, o, nm, n, a)
    elif isinstance(o, (IterV, it.LIterV)):
        r = m_iter(I, o, nm, n, a)
    elif isinstance(o, MapV):
        r = m_map(I, o, nm, n, a)
    elif isinstance(o, PairV):
        r = m_pair(I, o, nm, n, a)
    elif isinstance(o, FnV):
        r = m_fn(I, o, nm, n, a)
    elif isinstance(o, VarV):
        r = m_var(I, o, nm, n, a)
    elif isinstance(o, StreamV):
        r = m_stream(I, o, nm, n, a)
    elif isinstance(o, EnumR):
        if nm == 'index':
            r = o.i
        elif nm == 'value':
            r = o.c
        else:
            r = NI
    elif isinstance(o, RefV):
        r = o.c if nm in ('get',) or nm.startswith('operator ') else NI
    elif isinstance(o, BackIns):
        r = Cell(o) if nm in ('operator*', 'operator++') else NI
        if nm == 'operator=':
            o.l.items.append(Cell(take(I, a[0])))
            r = Cell(o)
    elif isinstance(o, Obj):
        r = m_obj(I, o, nm, n, a)
    elif isinstance(o, Cell):
        # pointer to a library value
        return method(I, o.v, nm, n)
    else:
        r = NI
        if nm == 'operator=' and a and (o is None or isinstance(o, (int, bool, float, Tok, Num, AbsEnum))):
            c = I.lval(n['obj'])
            c.v = take(I, a[0])
            return c
        h = getattr(o, 'm_' + nm.replace('operator', 'op_'), None)
        if hasattr(o, 'lib_method'):
            r = o.lib_method(I, nm, n)
        if nm.startswith('operator ') and r is NI:      # conversion operator
            r = o
    return r


def m_obj(I, o, nm, n, a):
    if nm == 'operator=':
        src = I.ev(a[0])
        I.assign_into(o, src, a[0].get('vc') == 'x')
        return Cell(o)
    if nm in ('operator*', 'operator->', 'get'):
        return Cell(o)
    if nm.startswith('~'):
        return None
    return NI


def m_list(I, o, nm, n, a):
    L = o.items
    if nm in ('size', 'getNumElements'):
        return len(L)
    if nm == 'empty':
        return not L
    if nm in ('push_back', 'push'):
        L.append(Cell(take(I, a[0])))
        return None
    if nm == 'push_front':
        L.insert(0, Cell(take(I, a[0])))
        return None
    if nm == 'emplace_back' or nm == 'emplace':
        et = elem_type(o.cls)
        at = None
        if nm == 'emplace' and re.match(r'(const )?std::(list|vector|deque)<', o.cls or ''):
            at, a = pos(I, I.ev(a[0])), a[1:]
        if len(a) == 1 and et and et.startswith('std::reference_wrapper<'):
            c = I.lval(a[0])
            v = c.v if isinstance(c.v, RefV) else RefV(c)
        elif len(a) == 1 and not needs_ctor(I, et, a[0]):
            v = take(I, a[0])
        else:
            v = construct(I, et, a)
        c = Cell(v)
        if at is not None:
            L.insert(at, c)
            return I.mkiter(o, at)
        L.append(c)
        return c
    if nm in ('operator[]', 'at'):
        i = I.ev(a[0])
        if isinstance(i, Tok) and I.opaque_calls:
            return Cell(Tok('elem', I.keyof(o), i.name))
        return I.elem(o, i, n)
    if nm in ('front', 'back', 'top'):
        if not L:
            raise Trap('%s() of an empty container at %s' % (nm, I.where()), n)
        return L[0] if nm == 'front' else L[-1]
    if nm in ('begin', 'cbegin', 'data'):
        return I.mkiter(o, 0)
    if nm in ('end', 'cend'):
        return I.mkiter(o, len(L))
    if nm in ('rbegin', 'crbegin'):
        return IterV(o, 0, True)
    if nm in ('rend', 'crend'):
        return IterV(o, len(L), True)
    if nm == 'clear':
        I.destroy(o)
        del L[:]
        return None
    if nm in ('pop_back', 'pop_back_val'):
        if not L:
            raise Trap('pop_back() of an empty container at %s' % I.where(), n)
        return L.pop(0 if o.cls.startswith('std::queue<') else -1).v
    if nm in ('pop_front', 'pop'):
        if not L:
            raise Trap('pop of an empty container at %s' % I.where(), n)
        return L.pop(-1 if o.cls.startswith('std::stack<') else 0).v
    if nm in ('resize', 'resize_for_overwrite', 'assign'):
        if nm == 'assign' and len(a) == 2:
            x = I.ev(a[0])
            if isinstance(x, (IterV, it.LIterV)):
                o.items[:] = [Cell(cpy(I, o, c.v)) for c in cells_between(I, x, I.ev(a[1]))]
                return None
        if nm == 'assign' and len(a) == 1:
            o.items[:] = [Cell(cpy(I, o, c.v)) for c in cells(I, I.ev(a[0]))]
            return None
        k = concrete(I, I.ev(a[0]))
        if nm == 'assign':
            del L[:]
        if k > 100000 or k < 0:
            raise Trap('resize to %d at %s' % (k, I.where()))
        while len(L) > k:
            L.pop()
        while len(L) < k:
            L.append(Cell(take(I, a[1]) if len(a) > 1 else elem_default(I, o)))
        return None
    if nm in ('reserve', 'shrink_to_fit'):
        I.ev(a[0]) if a else None
        return None
    if nm == 'capacity':
        return len(L)
    if nm in ('append', 'insert'):
        if nm == 'append' and len(a) == 1:
            for c in list(cells(I, I.ev(a[0]))):
                L.append(Cell(fit(I, o, cpy(I, o, c.v))))
            return None
        if nm == 'append' and len(a) == 2:
            x, y = I.ev(a[0]), I.ev(a[1])
            if isinstance(x, (IterV, it.LIterV, Obj)):
                for c in list(cells_between(I, x, y)):
                    L.append(Cell(fit(I, o, cpy(I, o, c.v))))
            else:
                for _ in range(concrete(I, x)):
                    L.append(Cell(cpy(I, o, y)))
            return None
        if nm == 'insert':
            p = pos(I, I.ev(a[0]))
            if len(a) == 2:
                x = take(I, a[1])
                if isinstance(x, ListV) and a[1]['k'] == 'ilist':
                    L[p:p] = [Cell(cpy(I, o, c.v)) for c in x.items]
                else:
                    L.insert(p, Cell(x))
            else:
                x, y = I.ev(a[1]), I.ev(a[2])
                if isinstance(x, (IterV, it.LIterV, Obj, MoveIt)):
                    mv = isinstance(x, MoveIt)
                    if mv:
                        x, y = x.i, y.i
                    L[p:p] = [Cell(I.move(c.v) if mv else cpy(I, o, c.v)) for c in cells_between(I, x, y)]
                else:
                    L[p:p] = [Cell(cpy(I, o, y)) for _ in range(concrete(I, x))]
            return I.mkiter(o, p)
    if nm == 'erase':
        p = pos(I, I.ev(a[0]))
        if len(a) == 1:
            if not 0 <= p < len(L):
                raise Trap('erase of an invalid iterator at %s' % I.where())
            del L[p]
        else:
            q = pos(I, I.ev(a[1]))
            del L[p:q]
        return I.mkiter(o, p)
    if nm == 'splice':
        p = pos(I, I.ev(a[0]))
        other = I.ev(a[1])
        if len(a) == 2:
            L[p:p] = other.items
            other.items = [] if other is not o else other.items
        elif len(a) == 3:
            q = pos(I, I.ev(a[2]))
            c = other.items.pop(q)
            if other is o and q < p:
                p -= 1
            L.insert(p, c)
        else:
            x, y = pos(I, I.ev(a[2])), pos(I, I.ev(a[3]))
            moved = other.items[x:y]
            del other.items[x:y]
            L[p:p] = moved
        return None
    if nm == 'sort':
        f = I.ev(a[0]) if a else None
        o.items = sort_cells(I, L, f)
        return None
    if nm == 'reverse' and not a:
        L.reverse()
        return None
    if nm == 'operator=':
        src = I.ev(a[0])
        if isinstance(src, ListV):
            if src is o:
                return Cell(o)
            if a[0].get('vc') == 'x':
                new, src.items = src.items, []
            else:
                new = [Cell(c.v if is_ptr_elem(o) else copyv(I, c.v)) for c in src.items]
            if o.items and new is not o.items:
                I.destroy(o)
            o.items = new
            return Cell(o)
        c = I.lval(n['obj'])
        c.v = src
        return c
    if nm == 'swap':
        b = I.ev(a[0])
        o.items, b.items = b.items, o.items
        return None
    if nm in ('take_front', 'take_back', 'drop_front', 'drop_back', 'slice'):
        k = concrete(I, I.ev(a[0])) if a else 1
        m = len(L)
        if nm == 'slice':
            hi = k + concrete(I, I.ev(a[1])) if len(a) > 1 else m
            lo = k
        else:
            lo, hi = {'take_front': (0, min(k, m)), 'take_back': (max(m - k, 0), m),
                      'drop_front': (k, m), 'drop_back': (0, m - k)}[nm]
        if not 0 <= lo <= hi <= m:
            raise Trap('%s out of range at %s' % (nm, I.where()))
        return view(L[lo:hi], o.cls)
    if nm == 'vec':
        return ListV([cpy(I, o, c.v) for c in L], o.cls)
    if nm == 'equals':
        return equal(I, o, I.ev(a[0]))
    if nm in ('operator==', 'operator!='):
        r = equal(I, o, I.ev(a[0]))
        return r if nm == 'operator==' else not r
    if nm == 'fill':
        v = I.ev(a[0])
        for c in L:
            c.v = copyv(I, v)
        return None
    if nm.startswith('operator '):
        return Cell(o)
    if nm == 'getArrayRef':
        return Cell(o)
    # BitVector
    if nm in ('all', 'any', 'none'):
        vs = [I.truth(c.v) for c in L]
        return {'all': all(vs), 'any': any(vs), 'none': not any(vs)}[nm]
    if nm == 'count':
        return sum(1 for c in L if I.truth(c.v))
    if nm in ('set', 'reset', 'flip') and o.cls.startswith(('llvm::BitVector', 'llvm::SmallBitVector')):
        if not a:
            for c in L:
                c.v = (nm == 'set') if nm != 'flip' else not I.truth(c.v)
        else:
            c = I.elem(o, I.ev(a[0]), n)
            c.v = (nm == 'set') if nm != 'flip' else not I.truth(c.v)
        return Cell(o)
    if nm == 'test':
        return I.truth(I.elem(o, I.ev(a[0]), n).v)
    if o.cls.startswith(('llvm::BitVector', 'llvm::SmallBitVector')):
        if nm.startswith('find_') and nm[5:] in ('first', 'next', 'last', 'prev', 'first_unset', 'next_unset', 'last_unset'):
            want = not nm.endswith('_unset')
            at = concrete(I, I.ev(a[0])) if a else None
            ks = [i for i, c in enumerate(L) if I.truth(c.v) == want]
            if 'next' in nm:
                ks = [i for i in ks if i > at]
            elif 'prev' in nm:
                ks = [i for i in ks if i < at]
            if not ks:
                return -1
            return ks[-1] if 'last' in nm or 'prev' in nm else ks[0]
        if nm == 'set_bits':
            return ListV([i for i, c in enumerate(L) if I.truth(c.v)], 'llvm::SmallVector<unsigned int,8>')
        if nm in ('operator|=', 'operator&=', 'operator^='):
            y = I.ev(a[0])
            if nm == 'operator|=' and len(y.items) > len(L):
                L.extend(Cell(False) for _ in range(len(y.items) - len(L)))
            for i, c in enumerate(L):
                p, q = I.truth(c.v), i < len(y.items) and I.truth(y.items[i].v)
                c.v = {'|': p or q, '&': p and q, '^': p != q}[nm[8]]
            return Cell(o)
    return NI


def is_ptr_elem(l):
    t = elem_type(l.cls) if l.cls else None
    return bool(t) and t.endswith('*')


def view(items, cls='view'):
    r = ListV((), cls)
    r.items = items
    return r


def pos(I, i):
    i = V(i)
    if isinstance(i, it.LIterV):
        return i.pos()
    if isinstance(i, IterV):
        return i.i if not i.rev else len(i.l.items) - i.i
    raise Unsupported('iterator %r' % (i,))


def needs_ctor(I, et, node):
    """Does emplace(x) have to call a converting constructor of et?"""
    if et is None:
        return False
    b = base_type(et)
    if et.endswith('*'):
        return False
    if b in I.P.rec:
        t = base_type(str(node.get('t', '')))
        return not I.P.is_base(b, t)
    if b.startswith(('std::basic_string<', 'std::optional<', 'std::pair<', 'std::tuple<', 'std::vector<',
                     'llvm::SmallVector<')):
        return base_type(str(node.get('t', ''))) != b
    return False


def construct(I, t, a):
    """Construct a value of type t from argument nodes (emplace/make_unique)."""
    b = base_type(t)
    if b in I.ctor_hooks:
        r = I.ctor_hooks[b](I, {'cls': b, 'a': a})
        if r is not NI:
            return r
    if b in I.P.rec:
        r = I.P.rec[b]
        if not a:
            return I.default_construct(b)
        cands = [m for m in r['methods'] if m.get('kind') in ('ctor', 'copyctor', 'movector') and
                 not m.get('deleted') and len(m['p']) == len(a)]
        m = pick_ctor(I, cands, a)
        if m is None:
            # defaulted parameters
            more = [m for m in r['methods'] if m.get('kind') == 'ctor' and len(m['p']) > len(a)]
            raise Unsupported('constructor of %s with %d arguments (%d with defaults) at %s' % (b, len(a), len(more), I.where()))
        f = I.P.fn.get(m['id'])
        if f is None and m.get('tmpl'):
            # a constructor template: all its instantiations have the same shape
            fs = [g for g in I.P.fn.values() if g.get('cls') == b and 'inits' in g and len(g['p']) == len(a) and
                  g.get('l') == m.get('l', g.get('l'))]
            f = fs[0] if fs else None
        if f is None or f.get('defaulted'):
            if m['kind'] in ('copyctor', 'movector'):
                v = I.ev(a[0])
                return I.move(v) if m['kind'] == 'movector' and a[0].get('vc') != 'l' else I.copy(v)
            if not m['p']:
                return I.default_construct(b)
            raise Unsupported('constructor body of %s' % b)
        cells = I.bind_args(f, a)
        for i, q in enumerate(f['p']):
            if base_type(ptype(q)).startswith('llvm::ArrayRef<') and isinstance(cells[i].v, Obj):
                cells[i] = Cell(view([cells[i]], base_type(ptype(q))))     # implicit conversion of one element
        return I.construct_with(b, f, cells)
    return lib_construct(I, b, a)


def ptype(p):
    return p['t'] if isinstance(p, dict) else p


SCALAR = {t: True for t in ('bool', 'char', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned int',
                            'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double')}


def pick_ctor(I, cands, a):
    if len(cands) == 1 and cands[0].get('kind') == 'ctor':
        return cands[0]
    best = None
    for m in cands:
        score = 0
        ok = True
        for p, x in zip(m['p'], a):
            pt = ptype(p)
            t = str(x.get('t', ''))
            pb, tb = base_type(pt), base_type(t)
            vc = x.get('vc')
            if pt.endswith('&&') and vc == 'l':
                ok = False
            elif pb == tb:
                score += 3
                if pt.endswith('&&') and vc != 'l':
                    score += 1
            elif I.P.is_base(pb, tb):
                score += 2
            elif pb in I.P.rec and tb in I.P.rec:
                # user conversion possible, least preferred
                ok = ok and convertible(I, pb, tb)
            elif pb in I.P.rec:
                ok = ok and convertible(I, pb, tb)
            else:
                scalar, given = SCALAR.get(pb), SCALAR.get(tb)
                if (scalar is None) != (given is None) and not tb.startswith('std::optional<') and tb != '?' and tb:
                    # a class argument for a scalar parameter, or conversely
                    ok = ok and pb.startswith(('std::optional<', 'llvm::APInt', 'std::variant<')) and scalar is None
                elif pb.startswith('std::initializer_list<') and not tb.startswith('std::initializer_list<'):
                    ok = ok and x.get('k') == 'ilist'
                score += 1
        if ok and (best is None or score > best[0]):
            best = (score, m)
    return best[1] if best else None


def convertible(I, pb, tb):
    r = I.P.rec.get(pb)
    return any(m.get('kind') == 'ctor' and len(m['p']) == 1 for m in r['methods']) if r else False


def m_uptr(I, o, nm, n, a):
    if nm in ('operator*', 'operator->'):
        if o.p is None:
            raise Trap('null smart pointer dereference at %s' % I.where(), n)
        return Cell(o.p) if not isinstance(o.p, Cell) else o.p
    if nm == 'get':
        return o.p
    if nm == 'operator bool':
        return o.p is not None
    if nm == 'release':
        p = o.p
        o.p = None
        I.ptr_disown(p)
        return p
    if nm == 'reset':
        old = o.p
        o.p = I.ev(a[0]) if a else None
        I.ptr_own(o.p)
        if old is not o.p and not o.shared:
            I.destroy(old)
        return None
    if nm == 'swap':
        b = I.ev(a[0])
        o.p, b.p = b.p, o.p
        return None
    if nm == 'operator=':
        src = I.ev(a[0])
        old = o.p
        if isinstance(src, UPtr):
            p = src.p
            if not o.shared and not src.shared or a[0].get('vc') == 'x':
                src.p = None
            o.p = p
        else:
            o.p = src
        if old is not o.p and not o.shared:
            I.destroy(old)
        return Cell(o)
    if nm in ('operator==', 'operator!='):
        r = I.same(o, I.ev(a[0]))
        return r if nm == 'operator==' else not r
    if nm == 'operator[]':
        return I.elem(o.p, I.ev(a[0]), n)
    if nm == 'use_count':
        return Tok('use_count')
    # llvm/clang smart handles
    return NI


def m_opt(I, o, nm, n, a):
    if nm in ('has_value', 'operator bool'):
        return o.c is not None
    if nm in ('operator*', 'operator->', 'value'):
        if o.c is None:
            raise Trap('access to an empty optional at %s' % I.where(), n)
        return o.c
    if nm == 'value_or':
        return o.c.v if o.c else take(I, a[0])
    if nm == 'reset':
        o.c = None
        return None
    if nm == 'emplace':
        t = elem_type(n.get('cls', '') or '')
        o.c = Cell(take(I, a[0]) if len(a) == 1 and not needs_ctor(I, t, a[0]) else construct(I, t, a))
        return o.c
    if nm == 'operator=':
        src = I.ev(a[0])
        if isinstance(src, OptV):
            o.c = Cell((I.move(src.c.v) if a[0].get('vc') == 'x' else copyv(I, src.c.v))) if src.c else None
        elif is_nullopt(a[0], src):
            o.c = None
        else:
            v = take(I, a[0])
            o.c = Cell(v)
        return Cell(o)
    return NI


def is_nullopt(node, v):
    return isinstance(v, Tok) and v.name == ('nullopt',)


def chars(I, v):
    """Convert a value to string content."""
    v = V(v)
    if isinstance(v, StrV):
        return v.s
    if isinstance(v, bool):
        return (chr(v),)
    if isinstance(v, int):
        return (chr(v % 256),)
    if isinstance(v, IterV) and isinstance(v.l, ListV):
        return tuple(chr(c.v) if isinstance(c.v, int) else c.v for c in v.l.items[v.i:])
    if isinstance(v, ListV):
        return tuple(chr(c.v) if isinstance(c.v, int) else c.v for c in v.items)
    return (v,)


def m_str(I, o, nm, n, a):
    if nm in ('str', 'c_str', 'data', 'string', 'getSingleStringRef', 'toStringRef', 'toVector', 'getKey'):
        return StrV(o.s)
    if nm in ('size', 'length'):
        return len(o.s)
    if nm == 'empty':
        return not o.s
    if nm in ('operator[]', 'at'):
        i = concrete(I, I.ev(a[0]))
        if not 0 <= i <= len(o.s) or (i == len(o.s) and 'basic_string<' not in str(n.get('cls', 'basic_string<'))):
            raise Trap('string index %d out of range at %s' % (i, I.where()))
        return Cell(I.strat(o, i))
    if nm in ('front', 'back'):
        if not o.s:
            raise Trap('%s() of an empty string at %s' % (nm, I.where()))
        return Cell(I.strat(o, 0 if nm == 'front' else len(o.s) - 1))
    if nm in ('push_back', 'operator+=', 'append'):
        if nm == 'append' and len(a) == 2:
            x, y = I.ev(a[0]), I.ev(a[1])
            o.s = o.s + chars(I, y) * concrete(I, x) if isinstance(x, int) else o.s + chars(I, x)[:concrete(I, y)]
        else:
            o.s = o.s + chars(I, I.ev(a[0]))
        return Cell(o)
    if nm == 'clear':
        o.s = ()
        return None
    if nm == 'pop_back':
        if not o.s:
            raise Trap('pop_back() of an empty string')
        o.s = o.s[:-1]
        return None
    if nm in ('operator=', 'assign'):
        if a:
            src = I.ev(a[0])
            o.s = chars(I, src)
            if isinstance(src, StrV) and a[0].get('vc') == 'x' and src is not o and 'StringRef' not in str(a[0].get('t')):
                src.s = ()
        return Cell(o)
    if nm in ('substr', 'drop_front', 'take_front', 'drop_back', 'take_back', 'slice'):
        xs = [concrete(I, I.ev(x)) for x in a]
        m = len(o.s)
        if nm == 'substr':
            lo = xs[0] if xs else 0
            hi = lo + xs[1] if len(xs) > 1 else m
        elif nm == 'slice':
            lo, hi = xs
        elif nm == 'drop_front':
            lo, hi = (xs[0] if xs else 1), m
        elif nm == 'take_front':
            lo, hi = 0, (xs[0] if xs else 1)
        elif nm == 'drop_back':
            lo, hi = 0, m - (xs[0] if xs else 1)
        else:
            lo, hi = max(m - (xs[0] if xs else 1), 0), m
        return StrV(o.s[max(lo, 0):max(min(hi, m), 0)])
    if nm in ('equals', 'operator==', 'compare'):
        r = I.str_eq(o, as_str(I, I.ev(a[0])))
        return r if nm != 'compare' else (0 if r else 1)
    if nm in ('starts_with', 'startswith', 'ends_with', 'endswith', 'equals_insensitive', 'consume_front',
              'consume_back', 'contains'):
        p = as_str(I, I.ev(a[0]))
        if not all(isinstance(c, str) for c in o.s + p.s):
            return I.choose((nm, o.s, p.s)) == 0
        x, y = o.py(), p.py()
        if nm.startswith('starts'):
            return x.startswith(y)
        if nm.startswith('ends'):
            return x.endswith(y)
        if nm == 'contains':
            return y in x
        if nm == 'consume_front':
            if x.startswith(y):
                o.s = o.s[len(y):]
                return True
            return False
        if nm == 'consume_back':
            if x.endswith(y):
                o.s = o.s[:len(x) - len(y)]
                return True
            return False
        return x.lower() == y.lower()
    if nm in ('find', 'rfind', 'find_first_of', 'find_last_of'):
        p = as_str(I, I.ev(a[0])).py()
        x = o.py()
        i = {'find': x.find, 'rfind': x.rfind}.get(nm, lambda q: -1)(p)
        return i if i >= 0 else (1 << 64) - 1
    if nm in ('split', 'rsplit'):
        p = as_str(I, I.ev(a[0])).py()
        x = o.py()
        i = x.find(p) if nm == 'split' else x.rfind(p)
        if i < 0:
            return PairV(StrV(o.s), StrV())
        return PairV(StrV(o.s[:i]), StrV(o.s[i + len(p):]))
    if nm in ('lower', 'upper'):
        return StrV(tuple(getattr(c, nm)() if isinstance(c, str) else c for c in o.s))
    if nm in ('begin', 'end', 'cbegin', 'cend'):
        l = ListV([ord(c) if isinstance(c, str) else c for c in o.s], 'string')
        return IterV(l, 0 if 'begin' in nm else len(o.s))
    if nm.startswith('operator '):
        return StrV(o.s)
    if nm in ('reserve', 'shrink_to_fit'):
        return None
    if nm == 'resize':
        k = concrete(I, I.ev(a[0]))
        o.s = o.s[:k] + ('\0',) * (k - len(o.s))
        return None
    if nm == 'concat':
        return StrV(o.s + as_str(I, I.ev(a[0])).s)
    return NI


def as_str(I, v):
    v = V(v)
    return v if isinstance(v, StrV) else StrV(chars(I, v))


def m_iter(I, o, nm, n, a):
    if nm in ('operator*', 'operator->', 'base'):
        if nm == 'base':
            return o
        return I.deref(o, n)
    if nm in ('operator++', 'operator--'):
        d = 1 if nm == 'operator++' else -1
        c = I.lval(n['obj'])
        new = I.iter_add(o, d)
        c.v = new
        return o if a else c
    if nm in ('operator+', 'operator-'):
        b = I.ev(a[0])
        if isinstance(b, (IterV, it.LIterV)):
            return pos(I, o) - pos(I, b)
        k = concrete(I, b)
        return I.iter_add(o, k if nm == 'operator+' else -k)
    if nm in ('operator+=', 'operator-='):
        k = concrete(I, I.ev(a[0]))
        c = I.lval(n['obj'])
        c.v = I.iter_add(o, k if nm == 'operator+=' else -k)
        return c
    if nm in ('operator==', 'operator!='):
        r = I.same(o, I.ev(a[0]))
        return r if nm == 'operator==' else not r
    if nm in ('operator<', 'operator>', 'operator<=', 'operator>='):
        return I.binop(nm[8:], pos(I, o), pos(I, I.ev(a[0])))
    if nm == 'operator[]':
        return I.deref(I.iter_add(o, concrete(I, I.ev(a[0]))), n)
    if nm == 'operator=':
        c = I.lval(n['obj'])
        c.v = I.ev(a[0])
        return c
    # member of the pointee reached through an iterator/pointer
    p = I.deref(o, n)
    return method(I, p.v, nm, n) if not isinstance(p.v, Obj) else NI


def m_map(I, o, nm, n, a):
    d = o.d
    isset = o.kind == 'set'
    if nm == 'size':
        return len(d)
    if nm == 'empty':
        return not d
    if nm == 'clear':
        d.clear()
        return None
    if nm in ('contains', 'count'):
        r = key_of(I, I.ev(a[0])) in d
        return r if nm == 'contains' else int(r)
    if nm == 'find':
        k = key_of(I, I.ev(a[0]))
        ks = list(d)
        return IterV(o, ks.index(k) if k in d else len(ks))
    if nm in ('begin', 'end', 'cbegin', 'cend'):
        return IterV(o, 0 if 'begin' in nm else len(d))
    if nm in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'set'):
        if isset:
            if len(a) == 2:
                x, y = I.ev(a[0]), I.ev(a[1])
                for c in cells_between(I, x, y):
                    d.setdefault(key_of(I, c.v), PairV(cpy(I, str(n.get('cls', '')), c.v)))
                return None
            v = take(I, a[0])
            k = key_of(I, v)
            new = k not in d
            if new:
                d[k] = PairV(v)
            if o.kind == 'set' and str(n.get('t')) == 'bool':
                return new
            return PairV(IterV(o, list(d).index(k)), new)
        if len(a) == 2:
            kv, vv = take(I, a[0]), take(I, a[1])
        else:
            p = take(I, a[0])
            if isinstance(p, ListV):
                p = PairV(*p.vals)
            kv, vv = p.c[0].v, p.c[1].v
        k = key_of(I, kv)
        new = k not in d
        if new or nm == 'insert_or_assign':
            d[k] = PairV(kv, vv)
        return PairV(IterV(o, list(d).index(k)), new)
    if nm == 'operator[]' and isset and 'SetVector<' in o_cls(n):
        i = I.ev(a[0])
        if not isinstance(i, int) or isinstance(i, bool):
            return NI
        if not 0 <= i < len(d):
            raise Trap('element %d of a set of %d at %s' % (i, len(d), I.where()))
        return list(d.values())[i].c[0]
    if nm == 'operator[]':
        kv = I.ev(a[0])
        k = key_of(I, kv)
        if k not in d:
            t = map_value_type(n)
            d[k] = PairV(kv if is_ptr_node(a[0]) else copyv(I, kv), I.default_construct(t) if t else None)
        return d[k].c[1]
    if nm in ('at', 'lookup'):
        k = key_of(I, I.ev(a[0]))
        if k not in d:
            if nm == 'at':
                raise Trap('map::at of a missing key at %s' % I.where())
            t = map_value_type(n)
            return I.default_construct(t)
        return d[k].c[1]
    if nm in ('erase', 'remove'):
        x = I.ev(a[0])
        if isinstance(x, IterV):
            k = list(d)[x.i]
            del d[k]
            return IterV(o, x.i)
        k = key_of(I, x)
        r = k in d
        d.pop(k, None)
        return r if nm == 'remove' else int(r)
    if nm == 'operator=':
        src = I.ev(a[0])
        I.assign_into(o, src, a[0].get('vc') == 'x')
        return Cell(o)
    if nm in ('keys',):
        return ListV([p.c[0].v for p in d.values()])
    if nm in ('front', 'back', 'pop_back_val') and isset:
        if not d:
            raise Trap('%s() of an empty set at %s' % (nm, I.where()))
        k = list(d)[0 if nm == 'front' else -1]
        p = d[k]
        if nm.startswith('pop'):
            del d[k]
            return p.c[0].v
        return p.c[0]
    if nm in ('getArrayRef', 'takeVector') and isset:
        l = ListV([p.c[0].v for p in d.values()])
        if nm == 'takeVector':
            d.clear()
        return l
    if nm in ('operator==', 'operator!='):
        r = maps_equal(I, o, I.ev(a[0]))
        return r if nm == 'operator==' else not r
    if nm in ('reserve',):
        return None
    if nm == 'get' and isinstance(o, MapV):
        k = key_of(I, I.ev(a[0]))
        return d[k].c[1] if k in d else None
    if nm.startswith('get') and nm.endswith(('String', 'Integer', 'Boolean', 'Object', 'Array', 'Number')):
        k = key_of(I, I.ev(a[0]))
        return d[k].c[1] if k in d else None
    return NI


def o_cls(n):
    return str(n.get('fn') or '') + ' ' + str((n.get('obj') or {}).get('t', ''))


def maps_equal(I, x, y):
    if set(x.d) != set(y.d):
        return False
    if x.kind == 'set':
        return True
    return all(equal(I, x.d[k].c[1].v, y.d[k].c[1].v) for k in x.d)


def map_value_type(n):
    cls = n.get('cls', '')
    a = targs(cls)
    if cls.startswith('llvm::StringMap<'):
        return a[0]
    if cls.startswith('llvm::DenseMapBase<'):
        return a[2]
    if cls.startswith(('llvm::json::Object',)):
        return None
    return a[1] if len(a) > 1 else None


def m_pair(I, o, nm, n, a):
    if nm == 'operator=':
        src = I.ev(a[0])
        if isinstance(src, PairV):
            for x, y in zip(o.c, src.c):
                if isinstance(x.v, Cell):     # tie
                    I.assign_cell(x.v, y.v)
                else:
                    x.v = V(y.v)
        return Cell(o)
    if nm in ('getFirst', 'getKey', 'first', 'key'):
        return o.c[0]
    if nm in ('getSecond', 'getValue', 'second'):
        return o.c[1]
    if nm == 'operator*':
        return Cell(o)
    if nm in ('index', 'value'):
        c = o.c[0 if nm == 'index' else 1]
        return c.v if isinstance(c.v, Cell) else c
    if nm in ('operator==', 'operator!='):
        r = equal(I, o, I.ev(a[0]))
        return r if nm == 'operator==' else not r
    if nm.startswith('operator '):
        return Cell(o)
    return NI


def m_fn(I, o, nm, n, a):
    if nm == 'operator()':
        if o.py:
            return o.py(*[I.lval(x) for x in a])
        return I.invoke(o, I.bind_args(o.node, a))
    if nm == 'operator bool':
        return True
    if nm == 'operator=':
        c = I.lval(n['obj'])
        c.v = I.ev(a[0])
        return c
    if nm.startswith('operator '):
        return o
    return NI


def m_var(I, o, nm, n, a):
    if nm == 'operator=':
        src = I.ev(a[0])
        if isinstance(src, VarV):
            o.t, o.c = src.t, Cell(copyv(I, src.c.v))
        else:
            o.t, o.c = base_type(str(a[0].get('t', ''))), Cell(take(I, a[0]))
        return Cell(o)
    if nm == 'index':
        raise Unsupported('variant index')
    return NI


def m_stream(I, o, nm, n, a):
    if nm in ('operator<<', 'write', 'sputc', 'put'):
        v = I.ev(a[0])
        if isinstance(v, FnV):
            call(I, v, Cell(o))
        else:
            o.out.append(v if not isinstance(v, StrV) else StrV(v.s))
        return Cell(o)
    if nm == 'str':
        return Cell(StrV(stream_chars(I, o)))
    if nm == 'indent':
        I.ev(a[0])
        return Cell(o)
    if nm == 'flush':
        return None
    return NI


def stream_chars(I, o):
    s = ()
    for v in o.out:
        if isinstance(v, int) and not isinstance(v, bool):
            s += tuple(str(v))
        else:
            s += chars(I, v)
    return s


# ------------------------------------------------------------------ free
def sort_cells(I, L, f):
    if f is not None and len(L) > 1 and getattr(I, 'strict_order', False):
        for x in L:
            for y in L:
                if I.truth(V(call(I, f, x, y))) and (x is y or I.truth(V(call(I, f, y, x)))):
                    raise Trap('sorting at %s with a comparison that is not a strict weak ordering' % I.where())
    def cmp(x, y):
        if f is not None:
            if I.truth(V(call(I, f, x, y))):
                return -1
            if I.truth(V(call(I, f, y, x))):
                return 1
            return 0
        if less(I, x.v, y.v):
            return -1
        if less(I, y.v, x.v):
            return 1
        return 0
    return sorted(L, key=functools.cmp_to_key(cmp))


def rng_args(I, fn, a):
    """Cells of the leading range argument(s); returns (cells, container/base iter, remaining args)."""
    if fn.startswith('llvm::'):
        r = I.ev(a[0])
        return cells(I, r), r, a[1:]
    x, y = I.ev(a[0]), I.ev(a[1])
    return cells_between(I, x, y), x, a[2:]


class MoveIt:
    __slots__ = ('i',)

    def __init__(self, i):
        self.i = i


ISA = ('isa', 'isa_and_nonnull', 'isa_and_present')
CASTS = ('cast', 'dyn_cast', 'dyn_cast_or_null', 'dyn_cast_if_present', 'cast_or_null', 'cast_if_present',
         'static_pointer_cast', 'dynamic_pointer_cast')


def classof(I, cls, v, n):
    """Evaluate cls::classof on v (or fall back on the class hierarchy upcast)."""
    if not isinstance(v, Obj):
        raise Unsupported('isa on %r at %s' % (v, I.where()))
    # llvm::isa<To> on a statically derived type is trivially true
    f = None
    for m in I.P.rec.get(cls, {}).get('methods', ()):
        if m['n'] == 'classof' and m['id'] in I.P.fn:
            f = I.P.fn[m['id']]
    if f is None:
        if I.P.is_base(cls, v.cls):
            return True
        raise Unsupported('no classof for %s' % cls)
    return I.truth(V(I.call_fn(f, None, [Cell(v)])))


def do_isa(I, n, v):
    ts = []
    for t in n['ta']:
        if isinstance(t, list):
            ts += t
        else:
            ts.append(t)
    ts = [base_type(t) for t in ts]
    static = ts[-1]
    targets = ts[:-1] if len(ts) > 1 else ts
    for t in targets:
        if I.P.is_base(t, static) and static in I.P.rec:
            return True
        if classof(I, t, v, n):
            return True
    return False


def free(I, fn, nm, n):
    a = n['a']
    if fn in ('std::move', 'std::forward', 'std::as_const', 'std::addressof', 'std::ref', 'std::cref', 'std::launder') and len(a) == 1:
        if fn in ('std::ref', 'std::cref'):
            return RefV(I.lval(a[0]))
        if fn == 'std::addressof':
            c = I.lval(a[0])
            return c.v if isinstance(c.v, Obj) else c
        c = I.lval(a[0])
        return c
    if fn.startswith(('llvm::', 'mlir::', 'std::')):
        if nm in ISA:
            v = I.ev(a[0])
            if isinstance(v, UPtr):
                v = v.p
            if v is None:
                if nm == 'isa':
                    raise Trap('isa<> on a null pointer at %s' % I.where(), n)
                return False
            if hasattr(v, 'lib_isa'):
                return v.lib_isa(I, n)
            return do_isa(I, n, v)
        if nm in CASTS:
            c = I.lval(a[0])
            v = c.v
            if isinstance(v, UPtr):
                v = v.p
            if v is None:
                if nm in ('cast', 'dyn_cast'):
                    raise Trap('%s<> on a null pointer at %s' % (nm, I.where()), n)
                return None
            if hasattr(v, 'lib_isa'):
                ok = v.lib_isa(I, n)
            elif nm == 'static_pointer_cast':
                ok = True
            else:
                ok = do_isa(I, n, v)
            if nm.startswith('cast'):
                if not ok:
                    raise Trap('cast<%s> of an incompatible object %r at %s' % (n['ta'][0], v, I.where()), n)
                return Cell(v)
            if not ok:
                return None
            return v
        r = NI
        if nm.startswith('operator') and not nm[8:9].isalpha():
            r = free_op(I, fn, nm, n, a)
            if r is not NI:
                return r
        r = algos(I, fn, nm, n, a)
        if r is not NI:
            return r
        if nm in ('make_unique', 'make_shared'):
            t = n['ta'][0]
            if str(t).strip().endswith('*'):
                return UPtr(Cell(take(I, a[0]) if a else None), nm == 'make_shared')
            v = construct(I, t, flat_args(a))
            if isinstance(v, IterV) or hasattr(v, 'lib_boxed'):
                v = Cell(v)
            I.ptr_own(v)
            return UPtr(v, nm == 'make_shared')
        if nm == 'make_optional':
            t = targs(str(n['t']))
            if len(a) == 1 and a[0].get('k') != 'ilist' and base_type(str(a[0].get('t', ''))) == base_type(t[0]):
                return OptV(take(I, a[0]))
            return OptV(construct(I, t[0], flat_args(a)))
        if nm in ('make_pair', 'make_tuple'):
            return PairV(*[take(I, x) for x in a])
        if nm == 'tie' or nm == 'forward_as_tuple':
            return PairV(*[I.lval(x) for x in a])
        if nm == 'get' and fn == 'std::get':
            v = I.ev(a[0])
            t = n['ta'][0]
            if isinstance(v, PairV):
                i = int(str(t).rstrip('ULul'))
                c = v.c[i]
                return c.v if isinstance(c.v, Cell) else c
            if isinstance(v, VarV):
                if base_type(t) != v.t:
                    raise Trap('std::get<%s> on a variant holding %s at %s' % (t, v.t, I.where()), n)
                return v.c
            if isinstance(v, EnumR):
                return Cell(v.i) if int(str(t).rstrip('ULul')) == 0 else v.c
            if isinstance(v, ListV):
                return I.elem(v, int(str(t).rstrip('ULul')), n)
        if nm == 'holds_alternative':
            v = I.ev(a[0])
            if isinstance(v, VarV):
                return base_type(n['ta'][0]) == v.t
        if nm == 'get_if':
            v = I.ev(a[0])
            v = V(v)
            if isinstance(v, VarV):
                return v.c if base_type(n['ta'][0]) == v.t else None
        if nm == 'visit':
            f, v = I.ev(a[0]), I.ev(a[1])
            if isinstance(v, VarV):
                return I.visit(f, v) if hasattr(I, 'visit') else call(I, f, v.c)
        if nm == 'to_string':
            v = I.ev(a[0])
            return StrV(tuple(str(v))) if isinstance(v, int) else StrV((v,))
        if nm == 'make_scope_exit':
            I.ev(a[0])
            return Tok('scope_exit')
        if nm in ('hash_combine', 'hash_value', 'hash_combine_range'):
            return Tok(nm, *[hkey(I, I.ev(x)) for x in a])
        if nm in ('errs', 'outs', 'dbgs', 'nulls'):
            return Cell(StreamV())
        if nm in ('toupper', 'tolower', 'isspace', 'isdigit', 'isalpha', 'isalnum', 'abs', 'pow'):
            return c_fn(I, nm, a)
    if nm in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'toupper', 'tolower', 'isupper', 'islower', 'abs', 'ispunct',
              'isxdigit'):
        return c_fn(I, nm, a)
    if nm == '__builtin_unreachable' or nm == 'llvm_unreachable_internal':
        raise Trap('unreachable code reached at %s' % I.where(), n)
    if nm in ('__builtin_expect',):
        return I.ev(a[0])
    if nm in ('abort', 'exit', '__assert_fail'):
        raise Trap('%s called at %s' % (nm, I.where()), n)
    if nm.startswith('operator') and not nm[8:9].isalpha():
        return free_op(I, fn, nm, n, a)
    return NI


def flat_args(a):
    return a


def c_fn(I, nm, a):
    v = I.ev(a[0])
    h = getattr(v, 'c_fn', None)
    if h:
        return h(I, nm)
    if isinstance(v, (int, float)) and nm == 'abs':
        return abs(v)
    if isinstance(v, float) or nm == 'pow':
        w = I.ev(a[1])
        if all(isinstance(x, (int, float)) for x in (v, w)):
            return float(v) ** w
        return Tok('pow', I.keyof(v), I.keyof(w))
    if isinstance(v, int):
        if not -1 <= v <= 255:
            raise Trap('%s() of %d: outside the range of unsigned char and EOF, at %s' % (nm, v, I.where()))
        c = chr(v) if 0 <= v < 128 else '\x80'
        if nm in ('toupper', 'tolower'):
            return ord(c.upper() if nm == 'toupper' else c.lower()) if 0 <= v < 128 else v
        return int({'isspace': c in ' \t\n\v\f\r', 'isdigit': '0' <= c <= '9',
                    'isalpha': c < '\x80' and c.isalpha(), 'isalnum': c < '\x80' and c.isalnum(),
                    'isupper': c < '\x80' and c.isupper(), 'islower': c < '\x80' and c.islower(),
                    'isxdigit': c in '0123456789abcdefABCDEF',
                    'ispunct': 32 < v < 127 and not c.isalnum()}[nm])
    return Tok(nm, I.keyof(v))


def hkey(I, v):
    v = V(v)
    if isinstance(v, Obj):
        f = None
        for q, fs in I.P.by_name.items():
            if short(q) == 'hash_value':
                for g in fs:
                    if len(g['p']) == 1 and I.P.is_base(base_type(g['p'][0]['t']), v.cls):
                        f = g
        if f is not None:
            return I.keyof(I.call_fn(f, None, [Cell(v)]))
    if isinstance(v, (IterV, it.LIterV)):
        return ('iter', pos(I, v), tuple(hkey(I, c.v) for c in v.l.items))
    return I.keyof(v)


def free_op(I, fn, nm, n, a):
    op = nm[8:]
    if len(a) == 2:
        if op in ('<<',):
            s = I.ev(a[0])
            if isinstance(s, StreamV):
                v = I.ev(a[1])
                s.out.append(StrV(v.s) if isinstance(v, StrV) else v)
                return Cell(s)
            return NI
        x, y = I.ev(a[0]), I.ev(a[1])
        if hasattr(x, 'lib_op') or hasattr(y, 'lib_op'):
            o, s = (x, False) if hasattr(x, 'lib_op') else (y, True)
            r = o.lib_op(I, op, y if not s else x, s)
            if r is not NI:
                return r
        if op == '+' and (isinstance(x, StrV) or isinstance(y, StrV)):
            return StrV(chars(I, x) + chars(I, y))
        if op in ('==', '!='):
            if is_nullopt(a[1], y) and isinstance(x, OptV):
                r = x.c is None
            elif isinstance(x, StrV) or isinstance(y, StrV):
                r = I.str_eq(as_str(I, x), as_str(I, y))
            elif isinstance(x, (ListV, OptV, PairV)) or isinstance(y, (OptV,)):
                if isinstance(x, OptV) and y is None:
                    r = x.c is None
                else:
                    r = equal(I, x, y, str(a[0].get('t', '')))
            elif isinstance(x, MapV):
                r = maps_equal(I, x, y)
            elif isinstance(x, Obj) and isinstance(y, Obj) and not is_ptr_node(a[0]) and ops_for(I, 'operator==', x.cls, y.cls):
                r = I.truth(obj_eq(I, x, y))
            elif isinstance(x, VarV):
                r = x.t == y.t and equal(I, x.c.v, y.c.v)
            else:
                r = I.same(x, y)
            return r if op == '==' else not r
        if op in ('<', '>', '<=', '>='):
            if isinstance(x, (IterV, it.LIterV)):
                return I.binop(op, pos(I, x), pos(I, y))
            if isinstance(x, (PairV, Obj)):
                r = {'<': lambda: less(I, x, y), '>': lambda: less(I, y, x),
                     '<=': lambda: not less(I, y, x), '>=': lambda: not less(I, x, y)}[op]()
                return r
            if isinstance(x, StrV):
                if all(isinstance(c, str) for c in x.s + y.s):
                    return {'<': x.py() < y.py(), '>': x.py() > y.py(), '<=': x.py() <= y.py(), '>=': x.py() >= y.py()}[op]
        if op in ('-', '+') and isinstance(x, (IterV, it.LIterV)):
            if isinstance(y, (IterV, it.LIterV)):
                return pos(I, x) - pos(I, y)
            k = concrete(I, y)
            return I.iter_add(x, k if op == '+' else -k)
        if isinstance(x, (Num, int, Tok)) and isinstance(y, (Num, int, Tok)):
            return I.binop(op, x, y)
    return NI


def algos(I, fn, nm, n, a):
    if nm in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not', 'for_each', 'partition_point'):
        cs, base, rest = rng_args(I, fn, a)
        f = I.ev(rest[0])
        if nm == 'for_each':
            for c in cs:
                call(I, f, c)
            return f
        k = 0
        for i, c in enumerate(cs):
            t = I.truth(V(call(I, f, c)))
            if nm == 'any_of' and t:
                return True
            if nm == 'all_of' and not t:
                return False
            if nm == 'none_of' and t:
                return False
            if nm == 'count_if' and t:
                k += 1
            if nm in ('find_if',) and t or nm == 'find_if_not' and not t:
                return iter_at(I, base, i)
        if nm == 'count_if':
            return k
        if nm.startswith('find'):
            return iter_at(I, base, len(cs))
        return nm != 'any_of'
    if nm in ('find', 'count', 'is_contained'):
        cs, base, rest = rng_args(I, fn, a)
        x = I.ev(rest[0])
        k = 0
        for i, c in enumerate(cs):
            if ptr_list(base, a) and isinstance(x, Obj):
                e = c.v is x
            else:
                e = equal(I, c.v, x)
            if e:
                if nm == 'find':
                    return iter_at(I, base, i)
                if nm == 'is_contained':
                    return True
                k += 1
        if nm == 'find':
            return iter_at(I, base, len(cs))
        return k if nm == 'count' else False
    if nm in ('transform', 'copy', 'copy_if', 'move', 'generate') and len(a) >= 2:
        cs, base, rest = rng_args(I, fn, a)
        dst = I.ev(rest[0])
        f = I.ev(rest[1]) if len(rest) > 1 else None
        if len(rest) == 3:
            f = I.ev(rest[2])
            cs2 = [I.deref(I.iter_add(dst if False else I.ev(rest[0]), i)) for i in range(len(cs))]
            dst = I.ev(rest[1])
            outs = [V(call(I, f, x, y)) for x, y in zip(cs, cs2)]
        elif nm == 'transform':
            outs = (V(call(I, f, c)) for c in list(cs))
        elif nm == 'copy_if':
            outs = [cpy(I, dst_type(dst), c.v) for c in list(cs) if I.truth(V(call(I, f, c)))]
        elif nm == 'move':
            outs = [I.move(c.v) for c in list(cs)]
        else:
            outs = [cpy(I, dst_type(dst), c.v) for c in list(cs)]
        for v in outs:
            if isinstance(dst, BackIns):
                dst.l.items.append(Cell(v)) if isinstance(dst.l, ListV) else set_add(I, dst.l, v)
            else:
                I.deref(dst).v = v
                dst = I.iter_add(dst, 1)
        return dst
    if nm in ('back_inserter', 'inserter'):
        return BackIns(I.ev(a[0]), (targs(str(n.get('t', ''))) or [None])[0])
    if nm == 'accumulate':
        cs, base, rest = rng_args(I, fn, a)
        acc = take(I, rest[0])
        f = I.ev(rest[1]) if len(rest) > 1 else None
        for c in cs:
            acc = V(call(I, f, Cell(acc), c)) if f else I.binop('+', acc, c.v)
        return acc
    if nm in ('min_element', 'max_element'):
        cs, base, rest = rng_args(I, fn, a)
        f = I.ev(rest[0]) if rest else None
        if not cs:
            return iter_at(I, base, 0)
        best = 0

        def lt(x, y):
            return I.truth(V(call(I, f, x, y))) if f else less(I, x.v, y.v)
        for i in range(1, len(cs)):
            if nm == 'min_element' and lt(cs[i], cs[best]) or nm == 'max_element' and lt(cs[best], cs[i]):
                best = i
        return iter_at(I, base, best)
    if nm in ('min', 'max', 'minmax') and fn.startswith('std::'):
        if len(a) == 1:
            cs = cells(I, I.ev(a[0]))
            best = cs[0]
            for c in cs[1:]:
                if nm == 'min' and less(I, c.v, best.v) or nm == 'max' and less(I, best.v, c.v):
                    best = c
            return best
        x, y = I.lval(a[0]), I.lval(a[1])
        f = I.ev(a[2]) if len(a) > 2 else None

        def lt2(p, q):
            return I.truth(V(call(I, f, p, q))) if f else less(I, p.v, q.v)
        if nm == 'min':
            return y if lt2(y, x) else x
        if nm == 'max':
            return y if lt2(x, y) else x
        return PairV(y, x) if lt2(y, x) else PairV(x, y)   # references
    if nm == 'clamp':
        v, lo, hi = I.lval(a[0]), I.lval(a[1]), I.lval(a[2])
        if less(I, v.v, lo.v):
            return lo
        return hi if less(I, hi.v, v.v) else v
    if nm in ('sort', 'stable_sort'):
        if fn.startswith('llvm::') and len(a) <= 2 and not isinstance(I.ev(a[0]), (IterV,)):
            r = I.ev(a[0])
            f = I.ev(a[1]) if len(a) > 1 else None
            s = sort_cells(I, r.items, f)
            vs = [c.v for c in s]
            for c, v in zip(r.items, vs):
                c.v = v
            return None
        x, y = I.ev(a[0]), I.ev(a[1])
        f = I.ev(a[2]) if len(a) > 2 else None
        cs = cells_between(I, x, y)
        vs = [c.v for c in sort_cells(I, cs, f)]
        for c, v in zip(cs, vs):
            c.v = v
        return None
    if nm == 'is_sorted':
        cs, base, rest = rng_args(I, fn, a)
        f = I.ev(rest[0]) if rest else None
        return not any((I.truth(V(call(I, f, cs[i + 1], cs[i]))) if f else less(I, cs[i + 1].v, cs[i].v)) for i in range(len(cs) - 1))
    if nm in ('reverse', 'rotate', 'iter_swap'):
        if nm == 'reverse' and fn.startswith('llvm::'):
            return view(list(reversed(cells(I, I.ev(a[0])))))
        if nm == 'reverse':
            cs = cells_between(I, I.ev(a[0]), I.ev(a[1]))
            vs = [c.v for c in reversed(cs)]
            for c, v in zip(cs, vs):
                c.v = v
            return None
    if fn == 'std::exchange' and len(a) == 2:
        c = I.lval(a[0])
        new = take(I, a[1])
        old = c.v
        if not is_ptr_node(a[0]) and isinstance(old, (Obj, ListV, StrV, OptV, UPtr, PairV, MapV)):
            res = I.move(old)
            if new is None and isinstance(old, UPtr):
                new = UPtr(None, old.shared)
            I.assign_into(old, new, True)
            return res
        c.v = new
        return old
    if nm == 'swap' and len(a) == 2:
        x, y = I.lval(a[0]), I.lval(a[1])
        if isinstance(x.v, Obj) and isinstance(y.v, Obj) and not is_ptr_node(a[0]):
            x.v.f, y.v.f = y.v.f, x.v.f
        elif isinstance(x.v, ListV) and isinstance(y.v, ListV):
            x.v.items, y.v.items = y.v.items, x.v.items
        elif isinstance(x.v, UPtr) and isinstance(y.v, UPtr):
            x.v.p, y.v.p = y.v.p, x.v.p
        elif isinstance(x.v, MapV) and isinstance(y.v, MapV):
            x.v.d, y.v.d = y.v.d, x.v.d
        else:
            x.v, y.v = y.v, x.v
        return None
    if nm == 'equal':
        if fn.startswith('llvm::'):
            p, q = cells(I, I.ev(a[0])), cells(I, I.ev(a[1]))
            if len(p) != len(q):
                return False
            f = I.ev(a[2]) if len(a) > 2 else None
        else:
            x, y, z = I.ev(a[0]), I.ev(a[1]), I.ev(a[2])
            p = cells_between(I, x, y)
            rest = a[3:]
            if rest and isinstance(I.ev(rest[0]), (IterV, it.LIterV)):
                q = cells_between(I, z, I.ev(rest[0]))
                rest = rest[1:]
                if len(p) != len(q):
                    return False
            else:
                q = [I.deref(I.iter_add(z, i)) for i in range(len(p))]
            f = I.ev(rest[0]) if rest else None
        return all((I.truth(V(call(I, f, x, y))) if f else equal(I, x.v, y.v)) for x, y in zip(p, q))
    if nm == 'lexicographical_compare':
        p, q = cells_between(I, I.ev(a[0]), I.ev(a[1])), cells_between(I, I.ev(a[2]), I.ev(a[3]))
        f = I.ev(a[4]) if len(a) > 4 else None
        for x, y in zip(p, q):
            if (I.truth(V(call(I, f, x, y))) if f else less(I, x.v, y.v)):
                return True
            if (I.truth(V(call(I, f, y, x))) if f else less(I, y.v, x.v)):
                return False
        return len(p) < len(q)
    if nm in ('append_range',):
        dst = I.ev(a[0])
        if isinstance(dst, Obj):
            items = ListV(())
            items.items = list(cells(I, I.ev(a[1])))
            fs = [f for f in I.P.by_name.get(dst.cls + '::insert', []) if len(f['p']) == 3]
            if not fs:
                return NI
            I.call_fn(fs[0], dst, [Cell(V(user_op(I, dst, 'end', 0))), Cell(IterV(items, 0)), Cell(IterV(items, len(items.items)))])
            return None
        for c in list(cells(I, I.ev(a[1]))):
            dst.items.append(Cell(fit(I, dst, cpy(I, dst, c.v))))
        return None
    if nm in ('erase_if', 'erase', 'erase_value'):
        dst = I.ev(a[0])
        f = I.ev(a[1])
        keep = [c for c in dst.items if not (I.truth(V(call(I, f, c))) if nm == 'erase_if' else equal(I, c.v, f))]
        dst.items[:] = keep
        return None
    if nm in ('remove_if', 'remove', 'unique', 'partition', 'stable_partition'):
        cs, base, rest = rng_args(I, fn, a)
        l = base if isinstance(base, ListV) else base.l
        off = 0 if isinstance(base, ListV) else pos(I, base)
        f = I.ev(rest[0]) if rest else None
        vs = [c.v for c in cs]
        tail = []
        if nm == 'remove_if':
            flags = [I.truth(V(call(I, f, c))) for c in cs]
            keep = [v for v, g in zip(vs, flags) if not g]
            tail = [v for v, g in zip(vs, flags) if g]
        elif nm in ('partition', 'stable_partition'):
            flags = [I.truth(V(call(I, f, c))) for c in cs]
            keep = [v for v, g in zip(vs, flags) if g]
            tail = [v for v, g in zip(vs, flags) if not g]
        elif nm == 'remove':
            keep = [v for v in vs if not equal(I, v, f)]
        else:
            keep = []
            for v in vs:
                if keep and (I.truth(V(call(I, f, Cell(keep[-1]), Cell(v)))) if f else equal(I, keep[-1], v)):
                    continue
                keep.append(v)
        tail = tail + vs[len(keep) + len(tail):]
        for c, v in zip(cs, keep + tail):
            c.v = v
        return I.mkiter(l, off + len(keep))
    if nm in ('map_to_vector', 'filter_to_vector'):
        f = I.ev(a[1])
        cs = list(cells(I, I.ev(a[0])))
        if nm == 'map_to_vector':
            return ListV([take_value(I, call(I, f, c)) for c in cs], str(n.get('t', 'vector')))
        return ListV([cpy(I, str(n.get('t', 'vector')), c.v) for c in cs if I.truth(V(call(I, f, c)))], str(n.get('t', 'vector')))
    if nm == 'mismatch':
        x, y, z = I.ev(a[0]), I.ev(a[1]), I.ev(a[2])
        p = cells_between(I, x, y)
        rest = a[3:]
        q = None
        if rest:
            w = I.ev(rest[0])
            if isinstance(w, (IterV, it.LIterV)):
                q = cells_between(I, z, w)
                rest = rest[1:]
        f = I.ev(rest[0]) if rest else None
        i = 0
        while i < len(p) and (q is None or i < len(q)):
            c = I.deref(I.iter_add(z, i)) if q is None else q[i]
            if not (I.truth(V(call(I, f, p[i], c))) if f else equal(I, p[i].v, c.v)):
                break
            i += 1
        return PairV(I.iter_add(x, i), I.iter_add(z, i))
    if nm in ('copy_n', 'fill_n', 'generate_n'):
        if nm == 'copy_n':
            src, k, dst = I.ev(a[0]), concrete(I, I.ev(a[1])), I.ev(a[2])
            outs = [cpy(I, dst_type(dst), I.deref(I.iter_add(src, i)).v) for i in range(k)]
        else:
            dst, k, v = I.ev(a[0]), concrete(I, I.ev(a[1])), I.ev(a[2])
            outs = [copyv(I, v) if nm == 'fill_n' else V(call(I, v)) for i in range(k)]
        for v in outs:
            if isinstance(dst, BackIns):
                dst.l.items.append(Cell(v)) if isinstance(dst.l, ListV) else set_add(I, dst.l, v)
            else:
                I.deref(dst).v = v
                dst = I.iter_add(dst, 1)
        return dst
    if nm in ('inner_product', 'transform_reduce') and len(a) >= 4:
        p = cells_between(I, I.ev(a[0]), I.ev(a[1]))
        x = I.ev(a[2])
        if isinstance(x, (IterV, it.LIterV)):
            q = [I.deref(I.iter_add(x, i)) for i in range(len(p))]
            acc = take(I, a[3])
            f, g = (I.ev(a[4]), I.ev(a[5])) if len(a) > 5 else (None, None)
            for u, v in zip(p, q):
                w = V(call(I, g, u, v)) if g else I.binop('*', u.v, v.v)
                acc = V(call(I, f, Cell(acc), Cell(w))) if f else I.binop('+', acc, w)
            return acc
        acc = take(I, a[2])
        f, g = I.ev(a[3]), I.ev(a[4])
        for u in p:
            acc = V(call(I, f, Cell(acc), Cell(V(call(I, g, u)))))
        return acc
    if nm == 'binary_search':
        cs, base, rest = rng_args(I, fn, a)
        x = I.lval(rest[0])
        f = I.ev(rest[1]) if len(rest) > 1 else None
        return any(not (I.truth(V(call(I, f, c, x))) if f else less(I, c.v, x.v)) and
                   not (I.truth(V(call(I, f, x, c))) if f else less(I, x.v, c.v)) for c in cs)
    if nm in ('replace', 'replace_if') and len(a) >= 3:
        cs, base, rest = rng_args(I, fn, a)
        x, y = I.ev(rest[0]), I.ev(rest[1])
        for c in cs:
            if (I.truth(V(call(I, x, c))) if nm == 'replace_if' else equal(I, c.v, x)):
                c.v = copyv(I, y)
        return None
    if nm == 'includes':
        p, q = cells_between(I, I.ev(a[0]), I.ev(a[1])), cells_between(I, I.ev(a[2]), I.ev(a[3]))
        f = I.ev(a[4]) if len(a) > 4 else None
        i = 0
        for y in q:
            while i < len(p) and (I.truth(V(call(I, f, p[i], y))) if f else less(I, p[i].v, y.v)):
                i += 1
            if i == len(p) or (I.truth(V(call(I, f, y, p[i]))) if f else less(I, y.v, p[i].v)):
                return False
            i += 1
        return True
    if nm in ('join', 'join_items') and fn.startswith('llvm::'):
        if nm == 'join_items':
            sep, parts = chars(I, I.ev(a[0])), [chars(I, I.ev(x)) for x in a[1:]]
        else:
            rs = cells_between(I, I.ev(a[0]), I.ev(a[1])) if len(a) == 3 else cells(I, I.ev(a[0]))
            sep, parts = chars(I, I.ev(a[-1])), [chars(I, c.v) for c in rs]
        out = ()
        for i, p in enumerate(parts):
            out += (sep if i else ()) + p
        return StrV(out)
    if nm in ('to_vector', 'to_vector_of'):
        return ListV([cpy(I, str(n.get('t', 'vector')), c.v) for c in cells(I, I.ev(a[0]))], str(n.get('t', 'vector')))
    if nm in ('map_range', 'make_filter_range', 'drop_begin', 'drop_end', 'make_range', 'enumerate', 'zip',
              'zip_equal', 'zip_first', 'concat', 'make_pointee_range', 'make_second_range', 'make_first_range',
              'reverse', 'seq', 'make_pointer_range'):
        if nm == 'make_range':
            if len(a) == 1:
                p = I.ev(a[0])
                return view(cells_between(I, p.c[0].v, p.c[1].v))
            x, y = I.ev(a[0]), I.ev(a[1])
            return view(cells_between(I, x, y))
        if nm == 'seq':
            xs = [concrete(I, I.ev(x)) for x in a]
            lo, hi = (0, xs[0]) if len(xs) == 1 else xs
            return ListV(range(lo, hi))
        if nm == 'enumerate':
            r = cells(I, I.ev(a[0]))
            if len(a) == 1:
                return ListV([EnumR(i, c) for i, c in enumerate(r)])
            rs = [cells(I, I.ev(x)) for x in a]
            return ListV([PairV(i, *t) for i, t in enumerate(zip(*rs))])
        if nm.startswith('zip'):
            rs = [cells(I, I.ev(x)) for x in a]
            if nm == 'zip_equal' and len({len(r) for r in rs}) > 1:
                raise Trap('zip_equal of ranges of different length at %s' % I.where())
            return ListV([PairV(*t) for t in zip(*rs)])
        if nm == 'concat':
            return view([c for x in a for c in cells(I, I.ev(x))])
        r = cells(I, I.ev(a[0]))
        if nm == 'drop_begin' or nm == 'drop_end':
            k = concrete(I, I.ev(a[1])) if len(a) > 1 else 1
            return view(list(r[k:]) if nm == 'drop_begin' else list(r[:len(r) - k]))
        if nm == 'make_pointee_range':
            return view([I.deref(c.v) for c in r])
        if nm == 'make_pointer_range':
            return ListV([c.v if isinstance(c.v, Obj) else c for c in r])
        if nm in ('make_first_range', 'make_second_range'):
            return view([c.v.c[0 if 'first' in nm else 1] for c in r])
        f = I.ev(a[1])
        if nm == 'map_range':
            out = []
            for c in r:
                x = call(I, f, c)
                out.append(as_cell(x))
            return view(out)
        return view([c for c in r if I.truth(V(call(I, f, c)))])
    if nm in ('next', 'prev') and fn.startswith('std::'):
        k = concrete(I, I.ev(a[1])) if len(a) > 1 else 1
        return I.iter_add(I.ev(a[0]), k if nm == 'next' else -k)
    if nm == 'advance':
        c = I.lval(a[0])
        c.v = I.iter_add(c.v, concrete(I, I.ev(a[1])))
        return None
    if nm == 'distance':
        x, y = I.ev(a[0]), I.ev(a[1])
        if isinstance(x, Obj):
            return len(cells_between(I, x, y))
        return pos(I, y) - pos(I, x)
    if nm in ('begin', 'end', 'size', 'empty', 'adl_begin', 'adl_end', 'range_size', 'cbegin', 'cend', 'data') and len(a) == 1:
        v = I.ev(a[0])
        if isinstance(v, ListV):
            if nm in ('size', 'range_size'):
                return len(v.items)
            if nm == 'empty':
                return not v.items
            return I.mkiter(v, 0 if 'begin' in nm or nm == 'data' else len(v.items))
        if isinstance(v, MapV):
            return IterV(v, 0 if 'begin' in nm else len(v.d)) if nm in ('begin', 'end') else len(v.d)
    if nm == 'iota':
        x, y, k = I.ev(a[0]), I.ev(a[1]), I.ev(a[2])
        for c in cells_between(I, x, y):
            c.v = k
            k = I.binop('+', k, 1)
        return None
    if nm == 'fill':
        cs, base, rest = rng_args(I, fn, a)
        v = I.ev(rest[0])
        for c in cs:
            c.v = copyv(I, v)
        return None
    if nm == 'make_move_iterator':
        return MoveIt(I.ev(a[0]))
    if nm in ('make_reverse_iterator',):
        v = I.ev(a[0])
        return IterV(v.l, len(v.l.items) - v.i, True)
    if nm in ('lower_bound', 'upper_bound'):
        cs, base, rest = rng_args(I, fn, a)
        x = I.lval(rest[0])
        f = I.ev(rest[1]) if len(rest) > 1 else None

        def lt3(p, q):
            return I.truth(V(call(I, f, p, q))) if f else less(I, p.v, q.v)
        for i, c in enumerate(cs):
            if nm == 'lower_bound' and not lt3(c, x) or nm == 'upper_bound' and lt3(x, c):
                return iter_at(I, base, i)
        return iter_at(I, base, len(cs))
    if nm in ('hasSingleElement', 'hasNItems'):
        return len(cells(I, I.ev(a[0]))) == 1
    if nm == 'all_equal':
        cs = cells(I, I.ev(a[0]))
        return all(equal(I, c.v, cs[0].v) for c in cs)
    if nm == 'adjacent_find':
        cs, base, rest = rng_args(I, fn, a)
        f = I.ev(rest[0]) if rest else None
        for i in range(len(cs) - 1):
            if (I.truth(V(call(I, f, cs[i], cs[i + 1]))) if f else equal(I, cs[i].v, cs[i + 1].v)):
                return iter_at(I, base, i)
        return iter_at(I, base, len(cs))
    return NI


def set_add(I, m, v):
    m.d.setdefault(key_of(I, v), PairV(v))


def ptr_list(base, a):
    l = base if isinstance(base, ListV) else getattr(base, 'l', None)
    return isinstance(l, ListV) and is_ptr_elem(l)


def iter_at(I, base, i):
    if isinstance(base, IterV):
        return IterV(base.l, base.i + i, base.rev)
    if isinstance(base, it.LIterV):
        return I.iter_add(base, i)
    if isinstance(base, ListV):
        return I.mkiter(base, i)
    if isinstance(base, MapV):
        return IterV(base, i)
    if isinstance(base, Obj):
        b = V(user_op(I, base, 'begin', 0)) if any(m['n'] == 'begin' for m in I.P.rec[base.cls]['methods']) else I.copy(base)
        for _ in range(i):
            if isinstance(b, Obj):
                user_op(I, b, 'operator++', 0)
            else:
                b = I.iter_add(b, 1)
        return b
    raise Unsupported('iterator into %r' % (base,))


# ------------------------------------------------------------------ ctor
def ctor(I, cls, e):
    return lib_construct(I, cls, e['a'], e)


def lib_construct(I, cls, a, e=None):
    e = e or {}
    if e.get('ck') in ('copy', 'move') and len(a) == 1 and not cls.startswith('std::function<'):
        v = I.ev(a[0])
        if isinstance(v, (ListV, StrV, OptV, UPtr, PairV, MapV, VarV)):
            return I.move(v) if e['ck'] == 'move' and not isinstance(v, VarV) else copyv(I, v)
        return v
    if cls.startswith(STR_PRE) or cls in ('llvm::json::ObjectKey', 'llvm::StringLiteral'):
        if not a:
            return StrV()
        x = I.ev(a[0])
        if isinstance(x, int) and len(a) >= 2:
            return StrV(chars(I, I.ev(a[1])) * x)
        if isinstance(x, IterV) and len(a) >= 2:
            y = I.ev(a[1])
            if isinstance(y, IterV):
                return StrV(tuple(chr(c.v) if isinstance(c.v, int) else c.v for c in cells_between(I, x, y)))
            return StrV(chars(I, x)[:concrete(I, y)])
        if isinstance(x, StrV):
            if len(a) >= 2 and a[1].get('k') != 'ctor':
                y = I.ev(a[1])
                if isinstance(y, int) and len(a) == 2:
                    return StrV(x.s[:y])
                if len(a) >= 3 and isinstance(y, int):
                    z = I.ev(a[2])
                    if isinstance(z, int):
                        return StrV(x.s[y:y + z])
            return StrV(x.s)
        if x is None:
            return StrV()
        return StrV(chars(I, x))
    if cls.startswith(OPT_PRE):
        if not a:
            return OptV()
        a = [I.once(a[0])] + list(a[1:])
        x = I.ev(a[0])
        if is_nullopt(a[0], x):
            return OptV()
        t = elem_type(cls)
        if isinstance(x, OptV) and not (t or '').startswith('std::optional<'):
            return I.copy_lib(x)
        if needs_ctor(I, t, a[0]):
            return OptV(Cell(construct(I, t, a)))
        return OptV(Cell(take(I, a[0])))
    if cls.startswith('std::nullopt_t'):
        return Tok('nullopt')
    if cls.startswith(PTR_PRE):
        sh = cls.startswith('std::shared_ptr<')
        if not a:
            return UPtr(None, sh)
        x = I.ev(a[0])
        if isinstance(x, UPtr):
            p = x.p
            if not x.shared or a[0].get('vc') == 'x':
                x.p = None
            return UPtr(p, sh)
        I.ptr_own(x)
        return UPtr(x, sh)
    if cls.startswith(PAIR_PRE):
        if not a:
            return PairV(*[I.default_construct(t) for t in targs(cls)])
        if len(a) == 1 and cls.startswith('std::pair<'):
            v = I.ev(a[0])
            if isinstance(v, PairV):
                return I.copy_lib(v) if a[0].get('vc') != 'x' else I.move(v)
        if len(a) == 1:
            v = I.ev(a[0])
            if isinstance(v, PairV):
                return I.copy_lib(v)
        ts = targs(cls)
        out = []
        if len(a) == 1:
            a = [I.once(a[0])]
        for t, x in zip(ts, a):
            if t.endswith('&'):
                out.append(I.lval(x))
            else:
                out.append(construct(I, t, [x]) if needs_ctor(I, t, x) else take(I, x))
        return PairV(*out)
    if cls.startswith(LIST_PRE) or cls.startswith(('llvm::BitVector', 'llvm::SmallBitVector')) or cls in ('llvm::json::Array',):
        # drop allocator arguments
        a = [x for x in a if not (x.get('k') == 'ctor' and str(x.get('cls', '')).startswith('std::allocator<'))]
        if not a:
            return ListV((), cls)
        x = I.ev(a[0])
        if cls.startswith(('llvm::ArrayRef<', 'llvm::MutableArrayRef<')):
            if len(a) == 2:
                y = I.ev(a[1])
                if isinstance(x, IterV):
                    k = y.i - x.i if isinstance(y, IterV) else concrete(I, y)
                    return view(x.l.items[x.i:x.i + k], cls)
                if x is None:
                    return ListV((), cls)
            if isinstance(x, ListV):
                return view(x.items, cls)
            if isinstance(x, (IterV,)):
                raise Unsupported('ArrayRef from iterator')
            if is_nullopt(a[0], x):
                return ListV((), cls)
            return view([I.lval(a[0])], cls)
        if len(a) == 1:
            if isinstance(x, ListV):
                if a[0].get('k') == 'ilist':
                    et = elem_type(cls)
                    l = ListV((), cls)
                    l.items = x.items
                    return l
                if a[0].get('vc') == 'x':
                    r = I.move(x)
                else:
                    r = ListV([c.v if is_ptr_elem(x) or (elem_type(cls) or '').endswith('*') else copyv(I, c.v) for c in x.items], cls)
                r.cls = cls
                return r
            if isinstance(x, (int, Num)) and not isinstance(x, bool):
                k = concrete(I, x)
                l = ListV((), cls)
                for _ in range(k):
                    l.items.append(Cell(bv_default(I, l)))
                return l
            if isinstance(x, MapV) or isinstance(x, Obj):
                return ListV([cpy(I, cls, c.v) for c in cells(I, x)], cls)
            if is_nullopt(a[0], x):
                return ListV((), cls)
        if len(a) == 2:
            y = I.ev(a[1])
            if isinstance(x, (IterV, it.LIterV, Obj)) and type(x) is type(y):
                return ListV([cpy(I, cls, c.v) for c in cells_between(I, x, y)], cls)
            if isinstance(x, (MoveIt,)):
                return ListV([I.move(c.v) for c in cells_between(I, x.i, y.i)], cls)
            if isinstance(x, (int, Num)):
                return ListV([cpy(I, cls, y) for _ in range(concrete(I, x))], cls)
        return NI
    if cls.startswith(MAP_PRE + SET_PRE) or cls == 'llvm::json::Object':
        m = MapV('set' if cls.startswith(SET_PRE) else 'map')
        for x in a:
            if x.get('k') == 'ctor' and str(x.get('cls', '')).startswith(('std::allocator<', 'std::less<')):
                continue
            v = I.ev(x)
            if isinstance(v, MapV):
                return I.copy_lib(v)
            if isinstance(v, IterV):
                y = I.ev(a[1])
                for c in cells_between(I, v, y):
                    set_add(I, m, c.v if '*' in cls.split('<', 1)[1].split(',')[0] else copyv(I, c.v)) if m.kind == 'set' else None
                return m
            if isinstance(v, (ListV,)):
                for c in v.items:
                    if m.kind == 'set':
                        set_add(I, m, c.v)
                    elif isinstance(c.v, ListV):
                        k, w = c.v.vals
                        m.d.setdefault(key_of(I, k), PairV(k, w))
                    elif isinstance(c.v, PairV):
                        m.d.setdefault(key_of(I, c.v.c[0].v), PairV(c.v.c[0].v, c.v.c[1].v))
                    elif isinstance(c.v, Obj):
                        vs = [x.v for x in c.v.f.values()]
                        m.d.setdefault(key_of(I, vs[0]), PairV(vs[0], vs[1]))
        return m
    if cls == 'llvm::json::Value':
        if not a:
            return None
        v = take(I, a[0])
        if str(a[0].get('t', '')).startswith('std::optional') and isinstance(v, OptV):
            return v
        return v
    if cls.startswith(FN_PRE):
        if not a:
            return None
        v = I.ev(a[0])
        return v
    if cls.startswith('std::variant<'):
        if not a:
            return VarV(targs(cls)[0], 0)
        v = take(I, a[0])
        if isinstance(v, VarV):
            return v
        return VarV(base_type(str(a[0].get('t', ''))), v)
    if cls.startswith(('std::reference_wrapper<',)):
        return RefV(I.lval(a[0]))
    if cls.startswith(('__gnu_cxx::__normal_iterator<', 'std::_List_const_iterator<', 'std::_List_iterator<',
                       'std::_Rb_tree_const_iterator<', 'llvm::DenseMapIterator<', 'std::reverse_iterator<',
                       'llvm::StringMapConstIterator<', 'llvm::iterator_range<', 'llvm::StringMapIterator<',
                       'std::_Rb_tree_iterator<')):
        if a:
            return I.ev(a[0])
    if cls.startswith('std::allocator<'):
        return Tok('allocator')
    if cls.startswith(('llvm::raw_string_ostream', 'std::basic_stringstream', 'std::basic_ostringstream')):
        return StreamV()
    if cls.startswith('llvm::hash_code'):
        return I.ev(a[0]) if a else Tok('hash0')
    if cls.startswith('std::initializer_list<'):
        return I.ev(a[0]) if a else ListV()
    return NI


def bv_default(I, l):
    if l.cls.startswith(('llvm::BitVector', 'llvm::SmallBitVector')):
        return False
    return elem_default(I, l)


GLOBALS = {'std::nullopt': Tok('nullopt'), 'std::string::npos': (1 << 64) - 1,
           'llvm::StringRef::npos': (1 << 64) - 1, 'std::piecewise_construct': Tok('piecewise'),
           'std::ignore': Tok('ignore')}


def glob(I, name):
    if name in GLOBALS:
        return GLOBALS[name]
    if name.endswith('::npos'):
        return (1 << 64) - 1
    return NI
