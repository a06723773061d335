"""Abstract interpreter over the resolved AST (facts.Program).

Values are abstract: opaque tokens, order-domain points, symbolic terms,
finite sets of enumerators.  Branches on undetermined abstract conditions are
explored both ways (Paths).  Library containers are modelled by their
documented semantics; anything not modelled raises Unsupported."""
import functools
import os
import re
from .facts import AnalysisBroken


class Unsupported(AnalysisBroken):
    pass


class Infeasible(Exception):
    """The current abstract path cannot occur; drop it."""


class Trap(Exception):
    """The analysed code performs an operation with undefined behaviour."""

    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.node = node


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class _U:
    def __repr__(self):
        return '<uninit>'


UNINIT = _U()


class Tok:
    """Opaque abstract value, identified by its name (a hashable)."""
    __slots__ = ('name',)

    def __init__(self, *name):
        self.name = name

    def __repr__(self):
        return '$' + '.'.join(map(str, self.name))

    def __eq__(self, o):
        return isinstance(o, Tok) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class Obj:
    __slots__ = ('cls', 'f', 'tag')

    def __init__(self, cls, tag=None):
        self.cls = cls
        self.f = {}
        self.tag = tag

    def get(self, name):
        for k, c in self.f.items():
            if k.rsplit('::', 1)[-1] == name:
                return c.v
        raise KeyError(name)

    def cell(self, name):
        for k, c in self.f.items():
            if k.rsplit('::', 1)[-1] == name:
                return c
        raise KeyError(name)

    def __repr__(self):
        return '<%s%s>' % (self.cls.split('::')[-1], ' ' + str(self.tag) if self.tag else '')


DEAD = {}       # fields of an object whose storage is gone


class ListV:
    """std::vector, llvm::SmallVector, ArrayRef, array, list, deque..."""
    __slots__ = ('items', 'cls')

    def __init__(self, vals=(), cls='vector'):
        self.items = [Cell(v) for v in vals]
        self.cls = cls

    @property
    def vals(self):
        return [c.v for c in self.items]

    def __repr__(self):
        return repr(self.vals)


class IterV:
    __slots__ = ('l', 'i', 'rev')

    def __init__(self, l, i, rev=False):
        self.l, self.i, self.rev = l, i, rev


class LIterV:
    """Iterator into a node-based list: identified by its element."""
    __slots__ = ('l', 'c')

    def __init__(self, l, c):
        self.l, self.c = l, c

    def pos(self):
        if self.c is None:
            return len(self.l.items)
        for i, x in enumerate(self.l.items):
            if x is self.c:
                return i
        raise Trap('use of an invalidated list iterator')


class StrV:
    """std::string / StringRef: immutable content (tuple of chars/tokens)."""
    __slots__ = ('s',)

    def __init__(self, s=()):
        self.s = tuple(s) if not isinstance(s, tuple) else s

    def py(self):
        return ''.join(c if isinstance(c, str) else '{%r}' % (c,) for c in self.s)

    def __repr__(self):
        return 'S' + repr(self.py())

    def __eq__(self, o):
        return isinstance(o, StrV) and self.s == o.s

    def __hash__(self):
        return hash(self.s)


class OptV:
    __slots__ = ('c',)

    def __init__(self, c=None):
        self.c = c      # Cell or None

    def __repr__(self):
        return 'opt(%r)' % (self.c.v if self.c else None)


class UPtr:
    __slots__ = ('p', 'shared')

    def __init__(self, p=None, shared=False):
        self.p = p
        self.shared = shared

    def __repr__(self):
        return 'uptr(%r)' % (self.p,)


class PairV:
    __slots__ = ('c',)

    def __init__(self, *vals):
        self.c = [Cell(v) for v in vals]

    def __repr__(self):
        return repr(tuple(x.v for x in self.c))


class MapV:
    __slots__ = ('d', 'kind')

    def __init__(self, kind='map'):
        self.d = {}   # key -> PairV(key, value)
        self.kind = kind


class FnV:
    __slots__ = ('node', 'env', 'this', 'py')

    def __init__(self, node=None, env=None, this=None, py=None):
        self.node, self.env, self.this, self.py = node, env, this, py


class AbsEnum:
    """An enumerator known only to lie in a finite set (narrowed by tests)."""
    __slots__ = ('s', 'tag')

    def __init__(self, s, tag=None):
        self.s = frozenset(s)
        self.tag = tag

    def __repr__(self):
        return 'enum{%d}' % len(self.s)


class Num:
    """Base class of domain numbers; see domains.py."""
    __slots__ = ()

    def binop(self, I, op, other, swapped):
        raise Unsupported('numeric operation %s' % op)

    def cast(self, I, ck, t):
        return NotImplemented


BRK, CNT = object(), object()


class Ret:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Oracle:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []     # list of (key, option, nopts)
        self.memo = {}

    def choose(self, key, n=2):
        if key is not None and key in self.memo:
            return self.memo[key]
        i = len(self.trace)
        opt = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((key, opt, n))
        if key is not None:
            self.memo[key] = opt
        return opt


class TooManyPaths(AnalysisBroken):
    pass


def paths(f, limit=200000):
    """Enumerate the abstract paths of f(oracle)."""
    stack = [[]]
    n = 0
    while stack:
        pre = stack.pop()
        o = Oracle(pre)
        n += 1
        if n > limit:
            raise TooManyPaths('more than %d abstract paths' % limit)
        try:
            try:
                r = f(o)
            except (AttributeError, KeyError, ValueError, TypeError, IndexError, RecursionError) as e:
                if os.environ.get('VERIF_DEBUG'):
                    raise
                raise Unsupported('construct outside of the model (%s: %s)' % (type(e).__name__, str(e)[:100]))
            yield o, r
        except Infeasible:
            pass
        opts = [t[1] for t in o.trace]
        for i in range(len(pre), len(o.trace)):
            for a in range(1, o.trace[i][2]):
                if a != opts[i]:
                    stack.append(opts[:i] + [a])


def short(fn):
    """Unqualified function name."""
    if 'operator' in fn:
        i = fn.rfind('operator')
        return fn[i:]
    depth = 0
    for i in range(len(fn) - 1, 0, -1):
        c = fn[i]
        if c == '>':
            depth += 1
        elif c == '<':
            depth -= 1
        elif c == ':' and depth == 0:
            return fn[i + 1:]
    return fn


def is_ref(t):
    return t.endswith('&')


@functools.lru_cache(maxsize=None)
def base_type(t):
    t = t.strip()
    while True:
        if t.endswith('&') or t.endswith('*'):
            t = t[:-1].strip()
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.startswith('const '):
            t = t[6:]
        else:
            return t


INT_TYPES = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0),
             'long long': (64, 1), 'unsigned long long': (64, 0), 'short': (16, 1),
             'unsigned short': (16, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0)}


def wrap(v, t):
    b = INT_TYPES.get(base_type(t)) if t else None
    if b is None or not isinstance(v, int):
        return v
    n, s = b
    if s:
        return ((v + (1 << (n - 1))) % (1 << n)) - (1 << (n - 1))
    return v % (1 << n)


LIST_PRE = ('std::vector<', 'llvm::SmallVector<', 'llvm::ArrayRef<', 'std::array<', 'std::list<',
            'std::deque<', 'std::initializer_list<', 'llvm::SmallVectorImpl<', 'llvm::MutableArrayRef<',
            'std::queue<', 'std::stack<')
STR_PRE = ('std::basic_string<', 'llvm::StringRef', 'std::basic_string_view<', 'llvm::SmallString<',
           'llvm::Twine')
OPT_PRE = ('std::optional<',)
PTR_PRE = ('std::unique_ptr<', 'std::shared_ptr<')
ARRAY_DIM = re.compile(r'\[\d*\]')
PAIR_PRE = ('std::pair<', 'std::tuple<')
MAP_PRE = ('std::map<', 'llvm::StringMap<', 'llvm::DenseMap<', 'std::unordered_map<', 'llvm::MapVector<',
           'llvm::SmallDenseMap<')
SET_PRE = ('std::set<', 'llvm::DenseSet<', 'llvm::SetVector<', 'llvm::SmallPtrSet<', 'llvm::StringSet<',
           'std::unordered_set<', 'llvm::SmallSetVector<')
FN_PRE = ('std::function<', 'llvm::function_ref<')


def impure(e):
    """May evaluating the expression twice differ from evaluating it once?"""
    r = e.get('_imp')
    if r is None:
        k = e.get('k')
        if k in ('val', 'memo', 'ilist', 'lambda', 'ctor', 'str', 'this'):
            r = False
        elif k == 'call' or k == 'un' and e.get('op') in ('++', '--') or k == 'bin' and (e['op'] == '=' or e['op'] in ASSIGN):
            r = True
        else:
            r = any(impure(x) for x in e.values() if isinstance(x, dict)) or \
                any(impure(x) for v in e.values() if isinstance(v, list) for x in v if isinstance(x, dict))
        e['_imp'] = r
    return r


class Interp:
    def __init__(self, prog, oracle=None, hooks=None, fuel=2000000, ctor_hooks=None,
                 opaque_calls=False):
        self.P = prog
        self.o = oracle or Oracle()
        self.hooks = hooks or {}
        self.ctor_hooks = ctor_hooks or {}
        self.fuel = fuel
        self.fuel0 = fuel
        self.stack = []
        self.opaque_calls = opaque_calls
        self.statics = {}
        self.visited = set()
        self.line = 0

    # ------------------------------------------------------------ choices
    def choose(self, key, n=2):
        return self.o.choose(key, n)

    def truth(self, v, node=None):
        if v is True or v is False:
            return v
        if v is None:
            return False
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Tok):
            return self.choose(('truth', v.name)) == 0
        if isinstance(v, (Obj, Cell, FnV, IterV, LIterV)):
            return True
        if isinstance(v, UPtr):
            return v.p is not None
        if isinstance(v, OptV):
            return v.c is not None
        if isinstance(v, Num):
            return self.truth(v.binop(self, '!=', 0, False))
        if v is UNINIT:
            raise Trap('branch on an uninitialised value', node)
        if isinstance(v, AbsEnum):
            return self.truth(self.binop('!=', v, 0))
        raise Unsupported('truth of %r' % (v,))

    def where(self):
        f = self.stack[-1] if self.stack else None
        return '%s:%s' % (f['n'] if f else '?', self.line)

    # ------------------------------------------------------------ values
    def copy(self, v):
        if isinstance(v, Obj):
            if v.f is DEAD:
                raise Trap('copy of a destroyed %s at %s' % (v.cls, self.where()))
            cc = self.special(v.cls, 'copyctor')
            if cc is not None:
                return self.construct_with(v.cls, cc, [Cell(v)])
            n = Obj(v.cls, v.tag)
            for k in v.f:
                n.f[k] = Cell(UNINIT)
            self.memberwise(n, v.cls, v, False)
            return n
        return self.copy_lib(v)

    def copy_lib(self, v):
        if isinstance(v, ListV):
            n = ListV((), v.cls)
            if v.cls.startswith(('llvm::ArrayRef<', 'llvm::MutableArrayRef<', 'view')):
                n.items = v.items
                return n
            from . import lib
            if lib.is_ptr_elem(v):
                n.items = [Cell(c.v) for c in v.items]
            else:
                n.items = [Cell(self.copy_elem(c.v)) for c in v.items]
            return n
        if isinstance(v, StrV):
            return StrV(v.s)
        if isinstance(v, OptV):
            return OptV(Cell(self.copy_elem(v.c.v)) if v.c else None)
        if isinstance(v, UPtr):
            if not v.shared:
                raise Unsupported('copy of unique_ptr')
            return UPtr(v.p, True)
        if isinstance(v, PairV):
            return PairV(*[self.copy_elem(c.v) for c in v.c])
        if isinstance(v, MapV):
            n = MapV(v.kind)
            for k, p in v.d.items():
                n.d[k] = PairV(p.c[0].v, self.copy_elem(p.c[1].v)) if len(p.c) > 1 else PairV(p.c[0].v)
            return n
        return v

    # Containers of class values store Obj; containers of pointers store Obj
    # too.  A container element is copied deeply only when the element type is
    # not a pointer; ptr_elems marks containers of pointers.
    def copy_elem(self, v):
        if isinstance(v, Obj):
            if v.tag and isinstance(v.tag, tuple) and v.tag[0] == 'ptr':
                return v
            return self.copy(v)
        return self.copy_lib(v)

    def is_value_field(self, cls, key):
        if not hasattr(self.P, '_vf'):
            self.P._vf = {}
        r = self.P._vf.get((cls, key))
        if r is None:
            r = True
            for c, f in self.P.fields(cls):
                if c + '::' + f['n'] == key:
                    t = f['t']
                    r = not (t.endswith('*') or t.endswith('&') or t.endswith('*const'))
            self.P._vf[(cls, key)] = r
        return r

    def special(self, cls, kind):
        """User-provided special member function with a body, or None."""
        if not hasattr(self.P, '_sp'):
            self.P._sp = {}
        key = (cls, kind)
        if key in self.P._sp:
            return self.P._sp[key]
        res = None
        r = self.P.rec.get(cls)
        if r:
            for m in r['methods']:
                if m.get('kind') == kind:
                    f = self.P.fn.get(m['id'])
                    if f and not f.get('defaulted') and not m.get('defaulted') and f.get('body') is not None:
                        res = f
                    elif f is None and not m.get('implicit') and not m.get('defaulted') and not m.get('deleted'):
                        res = 'missing'
        if res == 'missing':
            res = None
        self.P._sp[key] = res
        return res

    def move(self, v):
        if isinstance(v, Obj):
            if v.f is DEAD:
                raise Trap('move of a destroyed %s at %s' % (v.cls, self.where()))
            mc = self.special(v.cls, 'movector')
            if mc is not None:
                return self.construct_with(v.cls, mc, [Cell(v)])
            if self.special(v.cls, 'copyctor') is not None and not self.has_move(v.cls):
                return self.copy(v)
            n = Obj(v.cls, v.tag)
            for k in v.f:
                n.f[k] = Cell(UNINIT)
            self.memberwise(n, v.cls, v, True)
            return n
        if isinstance(v, ListV):
            n = ListV((), v.cls)
            n.items = v.items
            if not v.cls.startswith(('llvm::ArrayRef<', 'llvm::MutableArrayRef<', 'view')):
                v.items = []
            return n
        if isinstance(v, UPtr):
            n = UPtr(v.p, v.shared)
            v.p = None
            return n
        if isinstance(v, StrV):
            n = StrV(v.s)
            v.s = ()
            return n
        if isinstance(v, OptV):
            return OptV(Cell(self.move_elem(v.c.v)) if v.c else None)
        if isinstance(v, PairV):
            return PairV(*[self.move_elem(c.v) for c in v.c])
        if isinstance(v, MapV):
            n = MapV(v.kind)
            n.d = v.d
            v.d = {}
            return n
        return v

    def memberwise(self, o, cls, src, mv):
        """Implicit copy/move constructor of class cls on (base sub)object o."""
        for b in self.P.bases(cls):
            f = self.special(b, 'movector') if mv else None
            if f is None and (not mv or not self.has_move(b)):
                f = self.special(b, 'copyctor')
            if f is not None:
                self.run_ctor(o, f, [Cell(src)])
            else:
                self.memberwise(o, b, src, mv)
        for f in self.P.rec.get(cls, {}).get('fields', ()):
            k = cls + '::' + f['n']
            if k in src.f:
                v = src.f[k].v
                if is_ref(f['t']):
                    o.f[k] = src.f[k]
                elif self.is_value_field(cls, k):
                    o.f[k].v = self.move(v) if mv else self.copy(v)
                else:
                    o.f[k].v = v

    def move_elem(self, v):
        if isinstance(v, Obj) and v.tag and isinstance(v.tag, tuple) and v.tag[0] == 'ptr':
            return v
        return self.move(v)

    def has_move(self, cls):
        r = self.P.rec.get(cls)
        return bool(r) and any(m.get('kind') == 'movector' and not m.get('deleted') for m in r['methods'])

    def assign_into(self, dst, src, mv=False):
        """dst = src for class values held in place."""
        if isinstance(dst, Obj) and isinstance(src, Obj):
            if dst is src:
                return dst
            n = self.move(src) if mv else self.copy(src)
            if n.cls != dst.cls and not self.P.is_base(dst.cls, n.cls):
                raise Unsupported('assignment %s = %s' % (dst.cls, n.cls))
            dst.f = n.f
            return dst
        if dst is src:
            return dst
        n = self.move(src) if mv else self.copy_lib(src)
        if isinstance(dst, ListV) and isinstance(n, ListV):
            if dst.items:
                self.destroy(dst)
            dst.items = n.items
        elif isinstance(dst, StrV) and isinstance(n, StrV):
            dst.s = n.s
        elif isinstance(dst, OptV):
            if isinstance(n, OptV):
                dst.c = n.c
            else:
                dst.c = Cell(n)
        elif isinstance(dst, UPtr):
            old = dst.p
            if isinstance(n, UPtr):
                dst.p = n.p
            else:
                dst.p = n
            if old is not dst.p and not dst.shared:
                self.destroy(old)
        elif isinstance(dst, PairV) and isinstance(n, PairV):
            dst.c = n.c
        elif isinstance(dst, MapV) and isinstance(n, MapV):
            dst.d = n.d
        else:
            raise Unsupported('assignment %r = %r at %s' % (dst, src, self.where()))
        return dst

    def ptr_own(self, v):
        """A smart pointer takes over v."""

    def ptr_disown(self, v):
        """A smart pointer lets go of v."""

    def destroy(self, v):
        """The storage of v is given up: what it owns must not be used again."""
        if isinstance(v, ListV):
            from . import lib
            if v.cls.startswith(('llvm::ArrayRef<', 'llvm::MutableArrayRef<', 'view')) or 'reference_wrapper<' in v.cls \
                    or lib.is_ptr_elem(v):
                return
            for c in v.items:
                self.destroy(c.v)
        elif isinstance(v, UPtr):
            if not v.shared:
                self.destroy(v.p)
        elif isinstance(v, Obj):
            if v.f is DEAD:
                return
            f, v.f = v.f, DEAD
            for c, d in self.P.fields(v.cls):
                if not d['t'].endswith(('*', '&')) and 'reference_wrapper<' not in d['t']:
                    x = f.get(c + '::' + d['n'])
                    if x is not None:
                        self.destroy(x.v)

    # ------------------------------------------------------------ objects
    def new_obj(self, cls):
        o = Obj(cls)
        fs = self.P.fields(cls)
        if not fs and cls not in self.P.rec:
            raise Unsupported('unknown class %s at %s' % (cls, self.where()))
        for c, f in fs:
            o.f[c + '::' + f['n']] = Cell(self.default_value(f['t'], scalar=UNINIT))
        return o

    def default_value(self, t, scalar=0):
        b = base_type(t)
        if t.endswith('*') or t.endswith('&'):
            return scalar if scalar is UNINIT else None
        if b.startswith(LIST_PRE):
            if b.startswith('std::array<'):
                n = int(b.rstrip('>').rsplit(',', 1)[1].strip().rstrip('UL'))
                et = b[len('std::array<'):].rsplit(',', 1)[0]
                return ListV([self.default_construct(et) for _ in range(n)], b)
            return ListV((), b)
        if b.startswith(STR_PRE):
            return StrV()
        if b.startswith(OPT_PRE):
            return OptV()
        if b.startswith(PTR_PRE):
            return UPtr(None, b.startswith('std::shared_ptr<'))
        if b.startswith(MAP_PRE):
            return MapV()
        if b.startswith(SET_PRE):
            return MapV('set')
        if b.startswith(FN_PRE):
            return None
        if scalar is UNINIT:
            return UNINIT
        if b == 'bool':
            return False
        return scalar

    def default_construct(self, t):
        b = base_type(t)
        if t.endswith('*'):
            return None
        if b in self.P.rec:
            r = self.P.rec[b]
            for m in r['methods']:
                if m.get('kind') == 'ctor' and not m['p']:
                    f = self.P.fn.get(m['id'])
                    if f:
                        return self.construct_with(b, f, [])
            o = Obj(b)
            for c, f in self.P.fields(b):
                o.f[c + '::' + f['n']] = Cell(self.default_construct(f['t']))
            return o
        if b.startswith(PAIR_PRE):
            from . import lib
            return PairV(*[self.default_construct(x) for x in lib.targs(b)])
        return self.default_value(t, 0)

    def construct_with(self, cls, f, argcells):
        o = self.new_obj(cls)
        self.run_ctor(o, f, argcells)
        return o

    def run_ctor(self, o, f, argcells):
        """argcells: Cells for each parameter (already bound)."""
        env = {}
        for p, c in zip(f['p'], argcells):
            env[p['d']] = c
        self.enter(f)
        saved = self.env, self.this
        cur_cls = f['cls']
        try:
            for i in f['inits']:
                self.env, self.this, self.ctor_args = env, o, argcells
                e = i['e']
                if 'f' in i:
                    key = cur_cls + '::' + i['f']
                    if key not in o.f:
                        raise Unsupported('field %s' % key)
                    ft = self.field_type(cur_cls, i['f'])
                    if is_ref(ft):
                        o.f[key] = self.lval(e)
                    elif ft.endswith(']'):
                        v = self.ev(e)
                        o.f[key].v = v
                    else:
                        o.f[key].v = self.init_value(ft, e)
                elif 'base' in i:
                    self.ctor_into(o, i['base'], e)
                else:
                    self.ctor_into(o, cur_cls, e)
            self.env, self.this = env, o
            r = self.ex(f['body'])
        finally:
            self.env, self.this = saved
            self.leave()

    def ctor_into(self, o, cls, e):
        """Run constructor expression e on (base sub)object o."""
        if e['k'] == 'ctor':
            f = self.P.fn.get(e['id'])
            if f is not None and not f.get('defaulted'):
                self.run_ctor(o, f, self.bind_args(f, e['a']))
                return
            if e.get('ck') in ('copy', 'move'):
                src = self.ev(e['a'][0])
                self.memberwise(o, cls, src, e['ck'] == 'move')
                return
            if e.get('ck') == 'default' or not e['a']:
                if f is not None:
                    self.run_ctor(o, f, [])
                return
        if e['k'] == 'inhctor':
            f = self.P.fn.get(e['id'])
            if f is None:
                raise Unsupported('inherited constructor of %s' % cls)
            self.run_ctor(o, f, self.ctor_args)
            return
        if not self.P.fields(cls):
            return
        raise Unsupported('base initialiser %s for %s' % (e['k'], cls))

    def field_type(self, cls, name):
        for f in self.P.rec[cls]['fields']:
            if f['n'] == name:
                return f['t']
        raise Unsupported('field %s::%s' % (cls, name))

    def init_value(self, t, e):
        """Value initialising an object of type t from expression e."""
        if e['k'] == 'ilist' and t.endswith(']'):
            et = ARRAY_DIM.sub('', t, 1)
            return ListV([self.init_value(et, x) for x in e['a']])
        v = self.ev(e)
        if isinstance(v, ListV) and e['k'] == 'ilist':
            b = base_type(t)
            if b in self.P.rec:
                return self.aggregate(b, v)
            if b.startswith(PAIR_PRE):
                return PairV(*v.vals)
            if t.endswith(']') or b.startswith(LIST_PRE):
                return v
            if len(v.items) == 1:
                return v.items[0].v
            if not v.items:
                return self.default_construct(t)
        return v

    def aggregate(self, cls, v):
        o = Obj(cls)
        fs = self.P.fields(cls)
        for (c, f), x in zip(fs, v.vals):
            o.f[c + '::' + f['n']] = Cell(x)
        for c, f in fs[len(v.items):]:
            o.f[c + '::' + f['n']] = Cell(self.default_construct(f['t']))
        return o

    # ------------------------------------------------------------ calls
    env = None
    this = None

    def enter(self, f):
        if len(self.stack) > 150:
            raise Unsupported('recursion too deep in %s' % f.get('n'))
        self.stack.append(f)
        self.visited.add(f.get('id'))

    def leave(self):
        self.stack.pop()

    def bind_args(self, f, argnodes):
        from . import lib
        cells = []
        for p, a in zip(f['p'], argnodes):
            t = p['t']
            if is_ref(t):
                c = self.lval(a)
                if isinstance(c.v, ListV) and a['k'] == 'ilist':
                    c = Cell(self.init_value(t, a))
                cells.append(c)
            elif a['k'] == 'ilist':
                cells.append(Cell(self.init_value(t, a)))
            else:
                v = lib.take(self, a)
                if not isinstance(v, OptV) and base_type(t).startswith(OPT_PRE) and not t.endswith('*'):
                    v = OptV() if lib.is_nullopt(a, v) else OptV(Cell(v))
                cells.append(Cell(v))
        if len(cells) < len(f['p']):
            raise Unsupported('missing arguments to %s' % f['n'])
        return cells

    def call_fn(self, f, this, cells):
        if f.get('body') is None:
            raise Unsupported('no body: %s' % f['n'])
        env = {}
        for p, c in zip(f['p'], cells):
            env[p['d']] = c
        self.enter(f)
        saved = self.env, self.this, self.line
        self.env, self.this = env, this
        try:
            r = self.ex(f['body'])
        finally:
            self.env, self.this, self.line = saved
            self.leave()
        if isinstance(r, Ret):
            return r.v
        return None

    def call_method(self, obj, name, *args, pred=None):
        """Convenience: call a method by short name with Python values."""
        f = self.find_method(obj.cls, name, len(args), pred)
        cells = [a if isinstance(a, Cell) else Cell(a) for a in args]
        r = self.call_fn(f, obj, cells)
        return r.v if isinstance(r, Cell) else r

    def find_method(self, cls, name, nargs, pred=None):
        todo = [cls]
        while todo:
            c = todo.pop(0)
            r = self.P.rec.get(c)
            if not r:
                continue
            cands = [m for m in r['methods'] if m['n'] == name and len(m['p']) == nargs and
                     m['id'] in self.P.fn and (pred is None or pred(m))]
            if cands:
                if len(cands) > 1:
                    cc = [m for m in cands if m.get('const')]
                    if len(cc) == 1:
                        cands = cc
                    else:
                        raise AnalysisBroken('ambiguous method %s::%s' % (cls, name))
                m = cands[0]
                if m.get('virt'):
                    fin = self.P.find_override(m['id'], cls)
                    if fin and fin in self.P.fn:
                        return self.P.fn[fin]
                return self.P.fn[m['id']]
            todo += r['bases']
        raise AnalysisBroken('no method %s::%s/%d' % (cls, name, nargs))

    def new(self, cls, *args, pred=None):
        """Construct an object of class cls calling its matching constructor."""
        r = self.P.rec.get(cls)
        if not r:
            raise AnalysisBroken('no class %s' % cls)
        cands = [m for m in r['methods'] if m.get('kind') == 'ctor' and len(m['p']) == len(args) and
                 m['id'] in self.P.fn and (pred is None or pred(m))]
        if len(cands) != 1:
            raise AnalysisBroken('%d constructors of %s with %d arguments' % (len(cands), cls, len(args)))
        return self.construct_with(cls, self.P.fn[cands[0]['id']],
                                   [a if isinstance(a, Cell) else Cell(a) for a in args])

    def call(self, n):
        """Evaluate a call node; returns a value or a Cell (reference)."""
        self.line = n.get('l', self.line)
        n = self.once_obj(n)
        fn = n.get('fn')
        if fn is None:
            callee = self.ev(n['cal'])
            return self.call_value(callee, n['a'])
        h = self.hooks.get(n['id']) or self.hooks.get(fn)
        if h is not None:
            r = h(self, n)
            if r is not NotImplemented:
                return r
        nm = short(fn)
        if 'obj' in n:
            obj = self.ev(n['obj'])
            f = self.P.fn.get(n['id'])
            if isinstance(obj, Obj):
                if n.get('virt') and not n.get('nonvirt'):
                    fin = self.P.find_override(n['id'], obj.cls)
                    if fin is None:
                        raise Unsupported('no override of %s for %s' % (fn, obj.cls))
                    h = self.hooks.get(fin)
                    if h is not None:
                        r = h(self, n)
                        if r is not NotImplemented:
                            return r
                    f = self.P.fn.get(fin)
                if f is not None and not (f.get('defaulted') and nm == 'operator='):
                    if n.get('static') or f.get('static'):
                        return self.call_fn(f, None, self.bind_args(f, n['a']))
                    return self.call_fn(f, obj, self.bind_args(f, n['a']))
                if nm == 'operator=':
                    m = self.P.meth.get(n['id'], {})
                    src = self.ev(n['a'][0])
                    self.assign_into(obj, src, m.get('kind') == 'moveassign')
                    return Cell(obj)
                r = self.obj_fallback(obj, nm, n)
                if r is not NotImplemented:
                    return r
            elif f is not None and not isinstance(obj, (ListV, StrV, OptV, UPtr, PairV, MapV, IterV, LIterV)) and obj is not None and not isinstance(obj, Tok):
                if n.get('static'):
                    return self.call_fn(f, None, self.bind_args(f, n['a']))
                return self.call_fn(f, obj, self.bind_args(f, n['a']))
            elif n.get('static') and f is not None:
                return self.call_fn(f, None, self.bind_args(f, n['a']))
            if obj is None and nm != 'operator=':
                raise Trap('method %s called on a null pointer' % fn, n)
            if obj is UNINIT and nm != 'operator=':
                raise Trap('method %s called on an uninitialised value' % fn, n)
            from . import lib
            n = self.memo_args(n)
            r = lib.method(self, obj, nm, n)
            if r is not NotImplemented:
                return r
            return self.unknown(n, obj)
        f = self.P.fn.get(n['id'])
        from . import lib
        if f is None:
            n = self.memo_args(n)
            r = lib.free(self, fn, nm, n)
            if r is not NotImplemented:
                return r
            return self.unknown(n, None)
        return self.call_fn(f, None, self.bind_args(f, n['a']))

    def once_obj(self, n):
        """The call node with its receiver evaluated (exactly once)."""
        o = n.get('obj')
        if o is not None and impure(o):
            n = dict(n)
            n['obj'] = {'k': 'val', 'c': self.lval(o), 't': o.get('t'), 'vc': o.get('vc'), 'l': o.get('l')}
        return n

    def memo_args(self, n):
        """The call node with arguments that are evaluated at most once."""
        for x in n['a']:
            if impure(x):
                n = dict(n)
                n['a'] = [{'k': 'memo', 'e': x, 't': x.get('t'), 'vc': x.get('vc'), 'l': x.get('l'), 'c': []} if impure(x)
                          else x for x in n['a']]
                return n
        return n

    def e_memo(self, e):
        return self.l_memo(e).v

    def l_memo(self, e):
        if not e['c']:
            e['c'].append(self.lval(e['e']))
        return e['c'][0]

    def obj_fallback(self, obj, nm, n):
        return NotImplemented

    def unknown(self, n, obj):
        if self.opaque_calls:
            key = ('call', short(n['fn']))
            if 'obj' in n:
                key += (self.keyof(obj),)
            for a in n['a']:
                key += (self.keyof(self.ev(a)),)
            return Tok(*key)
        raise Unsupported('call to %s on %r at %s' % (n['fn'], type(obj).__name__, self.where()))

    def keyof(self, v):
        """A hashable key for value v (structural for values)."""
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Obj):
            return ('obj', id(v)) if v.tag is None else ('obj', v.tag)
        if isinstance(v, StrV):
            return v.s
        if isinstance(v, ListV):
            return ('list',) + tuple(self.keyof(x) for x in v.vals)
        if isinstance(v, PairV):
            return tuple(self.keyof(c.v) for c in v.c)
        if isinstance(v, OptV):
            return ('opt', self.keyof(v.c.v) if v.c else None)
        if isinstance(v, UPtr):
            return ('uptr', self.keyof(v.p))
        if isinstance(v, Tok):
            return v.name
        return v

    def call_value(self, f, argnodes):
        if isinstance(f, Cell):
            f = f.v
        if isinstance(f, FnV):
            if f.py:
                return f.py(*[self.ev(a) for a in argnodes])
            node = f.node
            cells = self.bind_args(node, argnodes)
            return self.invoke(f, cells)
        if isinstance(f, Tok):
            return Tok('call', f.name, *[self.keyof(self.ev(a)) for a in argnodes])
        if f is None:
            raise Trap('call through an empty function')
        if isinstance(f, Obj):
            op = self.find_method(f.cls, 'operator()', len(argnodes))
            return self.call_fn(op, f, self.bind_args(op, argnodes))
        raise Unsupported('call of %r' % (f,))

    def invoke(self, f, cells):
        """Call a callable value with Cells."""
        if isinstance(f, Obj):
            op = self.find_method(f.cls, 'operator()', len(cells))
            return self.call_fn(op, f, cells)
        if f.py:
            return f.py(*[c.v for c in cells])
        node = f.node
        if node.get('k') == 'lambda':
            env = dict(f.env)
            spec = self.specialization(node, cells)
            for p, c in zip(spec['p'], cells):
                env[p['d']] = c if is_ref(p['t']) else Cell(c.v)
            fr = {'n': 'lambda@%s' % node.get('l'), 'id': node.get('id')}
            self.enter(fr)
            saved = self.env, self.this, self.line
            self.env, self.this = env, f.this
            try:
                r = self.ex(spec['body'])
            finally:
                self.env, self.this, self.line = saved
                self.leave()
            return r.v if isinstance(r, Ret) else None
        return self.call_fn(node, f.this, cells)

    def specialization(self, node, cells):
        """The body of a generic lambda for these arguments."""
        if 'specs' in node:
            for s in [node] + node['specs']:
                if len(s['p']) == len(cells) and all(
                        not isinstance(c.v, Obj) or self.P.is_base(base_type(p['t']), c.v.cls) or base_type(p['t']) == c.v.cls
                        for p, c in zip(s['p'], cells)):
                    return s
        return node

    # ------------------------------------------------------------ lvalues
    def e_val(self, e):
        return e['c'].v

    def once(self, e):
        """Evaluate node e now; the result stands for it from here on."""
        if e['k'] in ('ilist', 'val', 'ref', 'const', 'str', 'lambda'):
            return e
        r = {'k': 'val', 'c': self.lval(e), 'l': e.get('l')}
        for x in ('t', 'vc'):
            if x in e:
                r[x] = e[x]
        return r

    def lval(self, e):
        k = e['k']
        if k == 'val':
            return e['c']
        if k == 'memo':
            return self.l_memo(e)
        if k == 'ref':
            c = self.env.get(e['d'])
            if c is None:
                raise Unsupported('unbound variable %s at %s' % (e['n'], self.where()))
            return c
        if k == 'mem':
            b = self.ev(e['b'])
            return self.member(b, e)
        if k == 'un' and e['op'] == '*':
            return self.deref(self.ev(e['e']), e)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e)
            return self.lval(e['e'])
        if k == 'call':
            r = self.call(e)
            return r if isinstance(r, Cell) else Cell(r)
        if k == 'idx':
            b = self.ev(e['b'])
            i = self.ev(e['i'])
            if isinstance(b, ListV):
                return self.elem(b, i, e)
            if isinstance(b, IterV):
                return self.elem(b.l, b.i + i, e)
            if isinstance(b, StrV):
                return Cell(self.strat(b, i))
            raise Unsupported('subscript of %r' % (b,))
        if k == 'cond':
            return self.lval(e['x'] if self.truth(self.ev(e['c'])) else e['y'])
        if k == 'bin' and (e['op'] == '=' or e['op'] in ASSIGN):
            self.ev(e)
            return self.lval(e['x'])
        if k == 'bin' and e['op'] == ',':
            self.ev(e['x'])
            return self.lval(e['y'])
        if k == 'cast':
            if e['ck'] in NOPCAST:
                return self.lval(e['e'])
            return Cell(self.ev(e))
        if k == 'gref':
            if e['id'] in self.env:
                return self.env[e['id']]
            if e['id'] not in self.statics:
                v = self.P.var.get(e['id'])
                if v is None or 'i' not in v:
                    from . import lib
                    g = lib.glob(self, e['n'])
                    if g is NotImplemented:
                        raise Unsupported('global %s' % e['n'])
                    self.statics[e['id']] = Cell(g)
                else:
                    self.statics[e['id']] = Cell(self.init_value(v['t'], v['i']))
            return self.statics[e['id']]
        return Cell(self.ev(e))

    def strat(self, s, i):
        if isinstance(i, int) and 0 <= i < len(s.s):
            c = s.s[i]
            return ord(c) if isinstance(c, str) else c
        if i == len(s.s):
            return 0
        raise Trap('string index out of range')

    def elem(self, l, i, e=None):
        if isinstance(i, Num):
            c = i.const(self)
            if c is None:
                raise Unsupported('symbolic index at %s' % self.where())
            i = c
        if not isinstance(i, int):
            raise Unsupported('index %r at %s' % (i, self.where()))
        if not 0 <= i < len(l.items):
            raise Trap('index %d out of range (size %d) at %s' % (i, len(l.items), self.where()), e)
        return l.items[i]

    def member(self, b, e):
        if isinstance(b, LIterV):
            return self.member(self.deref(b, e).v, e)
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, UPtr):
            b = b.p
        if type(b).__name__ == 'RefV':
            b = b.c.v
        if isinstance(b, Obj):
            key = e['cls'] + '::' + e['f']
            c = b.f.get(key)
            if c is None:
                if b.f is DEAD:
                    raise Trap('use of %s of a destroyed %s at %s' % (e['f'], b.cls, self.where()), e)
                raise Unsupported('no field %s in %r at %s' % (key, b, self.where()))
            return c
        if isinstance(b, PairV):
            i = {'first': 0, 'second': 1}.get(e['f'])
            if i is not None:
                c = b.c[i]
                return c.v if isinstance(c.v, Cell) else c
        if isinstance(b, IterV):
            return self.member(self.deref(b, e).v, e)
        if b is None:
            raise Trap('member %s of a null pointer at %s' % (e['f'], self.where()), e)
        if b is UNINIT:
            raise Trap('member %s of an uninitialised pointer' % e['f'], e)
        if isinstance(b, Tok):
            return Cell(Tok('field', b.name, e['f']))
        raise Unsupported('member %s of %r at %s' % (e['f'], b, self.where()))

    def mkiter(self, l, i):
        if isinstance(l, ListV) and l.cls.startswith('std::list<'):
            return LIterV(l, l.items[i] if i < len(l.items) else None)
        return IterV(l, i)

    def iter_add(self, it, k):
        if isinstance(it, LIterV):
            p = it.pos() + k
            if not 0 <= p <= len(it.l.items):
                raise Trap('iterator moved out of range at %s' % self.where())
            return self.mkiter(it.l, p)
        if isinstance(it, IterV):
            n = len(it.l.d) if isinstance(it.l, MapV) else len(it.l.items)
            if not 0 <= it.i + k <= n:
                raise Trap('iterator moved out of range at %s' % self.where())
            return IterV(it.l, it.i + k, it.rev)
        if isinstance(it, Obj):
            from . import lib
            c = self.copy(it)
            for _ in range(k):
                lib.user_op(self, c, 'operator++', 0)
            return c
        raise Unsupported('iterator arithmetic on %r' % (it,))

    def assign_cell(self, c, v):
        if isinstance(c.v, (Obj, ListV, StrV, OptV, UPtr, MapV)) and type(c.v) is type(v):
            self.assign_into(c.v, v)
        else:
            c.v = v

    def deref(self, p, e=None):
        if isinstance(p, Cell):
            return p
        if isinstance(p, Obj):
            op = None
            if e is None or True:
                return Cell(p)
        if isinstance(p, LIterV):
            if p.c is None:
                raise Trap('dereference of end iterator at %s' % self.where(), e)
            p.pos()
            return p.c
        if isinstance(p, IterV):
            i = p.i
            if p.rev:
                i = len(p.l.items) - 1 - i
            if isinstance(p.l, MapV):
                ks = list(p.l.d.values())
                if not 0 <= p.i < len(ks):
                    raise Trap('dereference of end iterator at %s' % self.where(), e)
                return ks[p.i].c[0] if p.l.kind == 'set' else Cell(ks[p.i])
            if not 0 <= i < len(p.l.items):
                raise Trap('dereference of an out-of-range iterator at %s' % self.where(), e)
            return p.l.items[i]
        if p is None:
            raise Trap('null pointer dereference at %s' % self.where(), e)
        if isinstance(p, UPtr):
            if p.p is None:
                raise Trap('null unique_ptr dereference at %s' % self.where(), e)
            return Cell(p.p)
        if isinstance(p, (StrV, ListV, MapV, OptV, PairV)):
            return Cell(p)
        if isinstance(p, Tok):
            return Cell(Tok('deref', p.name))
        raise Unsupported('dereference of %r at %s' % (p, self.where()))

    # ------------------------------------------------------------ rvalues
    def ev(self, e):
        self.fuel -= 1
        if self.fuel < 0:
            raise Trap('no termination within %d abstract steps at %s' % (self.fuel0, self.where()))
        return EV[e['k']](self, e)

    def e_const(self, e):
        if base_type(e.get('t', '')) == 'bool':
            return bool(e['v'])
        return e['v']

    def e_str(self, e):
        return StrV(tuple(e['v']))

    def e_lv(self, e):
        return self.lval(e).v

    def e_this(self, e):
        return self.this

    def e_call(self, e):
        r = self.call(e)
        return r.v if isinstance(r, Cell) else r

    def e_ctor(self, e):
        self.line = e.get('l', self.line)
        cls = e['cls']
        h = self.ctor_hooks.get(cls)
        if h is not None:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        f = self.P.fn.get(e['id'])
        if cls in self.P.rec:
            ck = e.get('ck')
            if ck in ('copy', 'move') and (f is None or f.get('defaulted')):
                v = self.ev(e['a'][0])
                if isinstance(v, Obj):
                    return self.copy(v) if ck == 'copy' else self.move(v)
                return v
            if f is not None:
                return self.construct_with(cls, f, self.bind_args(f, e['a']))
            if ck == 'default' or not e['a']:
                o = self.new_obj(cls)
                for c, fl in self.P.fields(cls):
                    k = c + '::' + fl['n']
                    if 'i' in fl:
                        o.f[k].v = self.init_value(fl['t'], fl['i'])
                    elif base_type(fl['t']) in self.P.rec and not fl['t'].endswith('*'):
                        o.f[k].v = self.default_construct(fl['t'])
                return o
            m = self.P.meth.get(e['id'])
            if ck is None and e['a'] and f is None:
                # inherited constructor (using Base::Base)
                for b in self.P.bases(cls):
                    pass
            r = self.unknown_ctor(e)
            if r is not NotImplemented:
                return r
            raise Unsupported('constructor of %s at %s' % (cls, self.where()))
        from . import lib
        r = lib.ctor(self, cls, e)
        if r is not NotImplemented:
            return r
        if self.opaque_calls:
            return Tok('ctor', cls, *[self.keyof(self.ev(a)) for a in e['a']])
        raise Unsupported('constructor of %s at %s' % (cls, self.where()))

    def unknown_ctor(self, e):
        return NotImplemented

    def e_un(self, e):
        op = e['op']
        if op == '&':
            x = e['e']
            if x['k'] == 'fref':
                return FnV(self.P.fn.get(x['id']))
            c = self.lval(x)
            if isinstance(c.v, (Obj, ListV, StrV, MapV, OptV, PairV)) and not str(x.get('t', '')).endswith('*'):
                return c.v
            return c
        if op == '*':
            return self.lval(e).v
        if op in ('++', '--'):
            c = self.lval(e['e'])
            old = c.v
            if isinstance(old, (IterV, LIterV)):
                new = self.iter_add(old, 1 if op == '++' else -1)
            else:
                new = self.binop('+' if op == '++' else '-', old, 1, e.get('t'))
            c.v = new
            return old if e.get('post') else new
        if op == '!':
            v = self.ev(e['e'])
            if isinstance(v, Tok):
                return not self.truth(v)
            return not self.truth(v)
        v = self.ev(e['e'])
        if op == '-':
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return wrap(-v, e.get('t'))
            if isinstance(v, Num):
                return v.binop(self, '-', 0, True)
            if isinstance(v, Tok):
                return Tok('-', v.name)
        if op == '+':
            return v
        if op == '~' and isinstance(v, int):
            return wrap(~v, e.get('t'))
        raise Unsupported('unary %s on %r' % (op, v))

    def e_bin(self, e):
        op = e['op']
        self.line = e.get('l', self.line)
        if op == '&&':
            return self.truth(self.ev(e['x'])) and self.truth(self.ev(e['y']))
        if op == '||':
            return self.truth(self.ev(e['x'])) or self.truth(self.ev(e['y']))
        if op == ',':
            self.ev(e['x'])
            return self.ev(e['y'])
        if op == '=':
            v = self.ev(e['y'])
            c = self.lval(e['x'])
            c.v = v
            return v
        if op in ASSIGN:
            y = self.ev(e['y'])
            c = self.lval(e['x'])
            v = self.binop(ASSIGN[op], c.v, y, e.get('t'))
            c.v = v
            return v
        x = self.ev(e['x'])
        y = self.ev(e['y'])
        return self.binop(op, x, y, e.get('t'))

    def binop(self, op, x, y, t=None):
        if isinstance(x, Num):
            return x.binop(self, op, y, False)
        if isinstance(y, Num):
            return y.binop(self, op, x, True)
        if x is UNINIT or y is UNINIT:
            raise Trap('use of an uninitialised value at %s' % self.where())
        if isinstance(x, (int, float)) and isinstance(y, (int, float)):
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op in ('/', '%'):
                if y == 0:
                    if isinstance(x, float) or isinstance(y, float):
                        raise Unsupported('float division by zero')
                    raise Trap('division by zero')
                if isinstance(x, float) or isinstance(y, float):
                    r = x / y
                else:
                    q = abs(x) // abs(y)
                    if (x < 0) != (y < 0):
                        q = -q
                    r = q if op == '/' else x - q * y
            elif op == '<':
                return x < y
            elif op == '>':
                return x > y
            elif op == '<=':
                return x <= y
            elif op == '>=':
                return x >= y
            elif op == '==':
                return x == y
            elif op == '!=':
                return x != y
            elif op == '&':
                r = x & y
            elif op == '|':
                r = x | y
            elif op == '^':
                r = x ^ y
            elif op == '<<':
                r = x << y
            elif op == '>>':
                r = x >> y
            else:
                raise Unsupported('binary %s' % op)
            return wrap(r, t)
        if isinstance(x, AbsEnum) or isinstance(y, AbsEnum):
            return self.enumcmp(op, x, y)
        if op in ('==', '!='):
            r = self.same(x, y)
            return r if op == '==' else (not r)
        if isinstance(x, IterV) and isinstance(y, IterV):
            if op == '-':
                return x.i - y.i
            if op == '<':
                return x.i < y.i
        if isinstance(x, IterV) and isinstance(y, int):
            if op == '+':
                return IterV(x.l, x.i + y, x.rev)
            if op == '-':
                return IterV(x.l, x.i - y, x.rev)
        if isinstance(x, Tok) or isinstance(y, Tok):
            if op in ('<', '>', '<=', '>='):
                return self.choose(('cmp', op, self.keyof(x), self.keyof(y))) == 0
            return Tok(op, self.keyof(x), self.keyof(y))
        raise Unsupported('%r %s %r at %s' % (x, op, y, self.where()))

    def enumcmp(self, op, x, y):
        """Comparison of a set-valued enumerator, narrowing it on this path."""
        if isinstance(x, AbsEnum) and isinstance(y, AbsEnum):
            if x is y:
                return op in ('==', '<=', '>=')
            if len(y.s) == 1:
                y = next(iter(y.s))
            elif len(x.s) == 1:
                x = next(iter(x.s))
            else:
                raise Unsupported('comparison of two abstract enumerators')
        if not isinstance(x, AbsEnum):
            x, y = y, x
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        f = {'==': lambda v: v == y, '!=': lambda v: v != y, '<': lambda v: v < y, '>': lambda v: v > y,
             '<=': lambda v: v <= y, '>=': lambda v: v >= y}.get(op)
        if f is None:
            raise Unsupported('abstract enumerator %s' % op)
        yes = frozenset(v for v in x.s if f(v))
        no = x.s - yes
        if not no:
            return True
        if not yes:
            return False
        r = self.choose(('enum', x.tag, op, y, x.s)) == 0
        x.s = yes if r else no
        return r

    def visit(self, f, v):
        if isinstance(f, Obj):
            g = self.find_method(f.cls, 'operator()', 1, lambda m: base_type(m['p'][0]['t']) == v.t)
            return self.call_fn(g, f, [v.c])
        return self.invoke(f, [v.c])

    def same(self, x, y):
        """x == y for pointers, tokens, scalars."""
        if isinstance(x, UPtr):
            x = x.p
        if isinstance(y, UPtr):
            y = y.p
        if x is y:
            return True
        if x is None or y is None:
            z = y if x is None else x
            if isinstance(z, Tok):
                return self.choose(('null', z.name)) == 1
            return False
        if isinstance(x, IterV) and isinstance(y, IterV):
            return x.l is y.l and x.i == y.i
        if isinstance(x, LIterV) and isinstance(y, LIterV):
            return x.l is y.l and x.c is y.c
        if isinstance(x, Tok) and isinstance(y, Tok):
            if x == y:
                return True
            a, b = sorted([repr(x.name), repr(y.name)])
            return self.choose(('eq', a, b)) == 1
        if isinstance(x, Tok) or isinstance(y, Tok):
            t, v = (x, y) if isinstance(x, Tok) else (y, x)
            return self.choose(('eqc', t.name, self.keyof(v))) == 1
        if isinstance(x, (Obj, Cell)) and isinstance(y, (Obj, Cell)):
            return x is y
        if isinstance(x, StrV) and isinstance(y, StrV):
            return self.str_eq(x, y)
        if isinstance(x, bool) or isinstance(y, bool) or isinstance(x, int):
            return x == y
        raise Unsupported('%r == %r at %s' % (x, y, self.where()))

    def str_eq(self, a, b):
        if a.s == b.s:
            return True
        if all(isinstance(c, str) for c in a.s + b.s):
            return False
        k = sorted([repr(a.s), repr(b.s)])
        return self.choose(('streq', k[0], k[1])) == 1

    def e_cond(self, e):
        return self.ev(e['x'] if self.truth(self.ev(e['c'])) else e['y'])

    def e_cast(self, e):
        ck = e['ck']
        v = self.ev(e['e'])
        if ck in NOPCAST:
            return v
        if isinstance(v, Num):
            r = v.cast(self, ck, e.get('t'))
            if r is not NotImplemented:
                return r
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, int):
                return wrap(v, e.get('t'))
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
            if isinstance(v, Num):
                return self.truth(v)
            return self.truth(v)
        if ck == 'NullToPointer':
            return None
        if ck == 'IntegralToFloating':
            if isinstance(v, int):
                return float(v)
            return v
        if ck == 'FloatingToIntegral':
            if isinstance(v, float):
                return int(v)
            return v
        if ck == 'FloatingCast':
            return v
        if ck == 'ToVoid':
            return None
        if ck == 'MemberPointerToBoolean':
            return True
        raise Unsupported('cast %s at %s' % (ck, self.where()))

    def e_ilist(self, e):
        t = e.get('t', '')
        b = base_type(t)
        if b in self.P.rec and not t.endswith(']'):
            return self.aggregate(b, ListV([self.ev(a) for a in e['a']]))
        if t and not t.endswith(']') and not b.startswith(LIST_PRE) and len(e['a']) <= 1 and not b.startswith(PAIR_PRE):
            if e['a']:
                return self.ev(e['a'][0])
            return self.default_construct(t)
        return ListV([self.ev(a) for a in e['a']], t or 'ilist')

    def e_lambda(self, e):
        env = {}
        this = None
        for c in e['cap']:
            if c.get('this'):
                this = self.this
            elif 'd' in c:
                if 'init' in c:
                    env[c['d']] = self.lval(c['init']) if c['byref'] else Cell(self.ev(c['init']))
                    continue
                cell = self.env.get(c['d'])
                if cell is None:
                    raise Unsupported('capture of %s' % c['n'])
                env[c['d']] = cell if c['byref'] else Cell(self.copy_lib(cell.v) if not isinstance(cell.v, Obj) else cell.v)
        return FnV(e, env, this)

    def e_fref(self, e):
        f = self.P.fn.get(e['id'])
        if f is None:
            from . import lib
            nm = short(e['fn'])

            def py(*a):
                raise Unsupported('call through pointer to %s' % e['fn'])
            return FnV(py=py)
        return FnV(f)

    def e_zero(self, e):
        return self.default_construct(e['t'])

    def e_new(self, e):
        if 'init' in e and e['init'] is not None:
            return self.init_value(e['t'], e['init'])
        return self.default_construct(e['t'])

    def e_null(self, e):
        return None

    def e_delete(self, e):
        self.ev(e['e'])

    def e_other(self, e):
        if self.opaque_calls:
            return Tok('other', e['c'], *[self.keyof(self.ev(a)) for a in e['a']])
        raise Unsupported('expression %s at %s' % (e['c'], self.where()))

    def e_sizeof(self, e):
        return Tok('sizeof', e['of'])

    def e_float(self, e):
        try:
            return float(e['v'])
        except ValueError:
            return Tok('float', e['v'])

    # ------------------------------------------------------------ statements
    def ex(self, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise Trap('no termination within %d abstract steps at %s' % (self.fuel0, self.where()))
        if s is None:
            return None
        l = s.get('l')
        if l:
            self.line = l
        return EX[s['k']](self, s)

    def s_expr(self, s):
        self.ev_discard(s['e'])

    def ev_discard(self, e):
        if e['k'] in ('call',):
            self.call(e)
        else:
            self.ev(e)

    def s_block(self, s):
        for x in s['s']:
            r = self.ex(x)
            if r is not None:
                return r

    def bind_var(self, v):
        t = v['t']
        if v.get('staticlocal'):
            if v['id'] not in self.statics:
                self.statics[v['id']] = Cell(self.init_value(t, v['i']) if 'i' in v else self.default_construct(t))
            self.env[v['d']] = self.statics[v['id']]
            self.env[v['id']] = self.statics[v['id']]
            return
        if 'i' in v and v['i'] is not None:
            if is_ref(t):
                self.env[v['d']] = self.lval(v['i'])
            else:
                self.env[v['d']] = Cell(self.init_value(t, v['i']))
        else:
            self.env[v['d']] = Cell(self.default_value(t, UNINIT))
        if 'bind' in v:
            self.bind_struct(v, self.env[v['d']])

    def bind_struct(self, v, cell):
        x = cell.v
        for i, b in enumerate(v['bind']):
            if isinstance(x, PairV):
                self.env[b['d']] = x.c[i] if not isinstance(x.c[i].v, Cell) else x.c[i].v
            elif isinstance(x, Obj):
                c, f = self.P.fields(x.cls)[i]
                self.env[b['d']] = x.f[c + '::' + f['n']]
            elif isinstance(x, ListV):
                self.env[b['d']] = x.items[i]
            elif isinstance(x, tuple):
                self.env[b['d']] = Cell(x[i])
            elif type(x).__name__ == 'EnumR':
                self.env[b['d']] = Cell(x.i) if i == 0 else x.c
            else:
                raise Unsupported('structured binding of %r' % (x,))

    def s_decl(self, s):
        for v in s['v']:
            self.bind_var(v)

    def cond_value(self, s):
        if 'cv' in s:
            self.bind_var(s['cv'])
            if s.get('c') is not None:
                return self.ev(s['c'])
            return self.env[s['cv']['d']].v
        return self.ev(s['c'])

    def s_if(self, s):
        if 'init' in s:
            self.ex(s['init'])
        if 'cx' in s:
            return self.ex(s.get('x') if s['cx'] else s.get('y'))
        if self.truth(self.cond_value(s), s):
            return self.ex(s.get('x'))
        return self.ex(s.get('y'))

    def s_while(self, s):
        while self.truth(self.cond_value(s), s):
            r = self.ex(s['b'])
            if r is BRK:
                break
            if r is not None and r is not CNT:
                return r

    def s_do(self, s):
        while True:
            r = self.ex(s['b'])
            if r is BRK:
                break
            if r is not None and r is not CNT:
                return r
            if not self.truth(self.ev(s['c']), s):
                break

    def s_for(self, s):
        if 'init' in s:
            self.ex(s['init'])
        while s.get('c') is None or self.truth(self.ev(s['c']), s):
            r = self.ex(s.get('b'))
            if r is BRK:
                break
            if r is not None and r is not CNT:
                return r
            if s.get('inc') is not None:
                self.ev_discard(s['inc'])

    def s_rfor(self, s):
        if 'init' in s:
            self.ex(s['init'])
        from . import lib
        rng = self.ev(s['r'])
        v = s['v']
        for c in lib.iterate(self, rng):
            if isinstance(c.v, lib.RefV) and 'reference_wrapper' not in v['t']:
                c = c.v.c
            if is_ref(v['t']):
                self.env[v['d']] = c
            else:
                i = v.get('i')
                if isinstance(c.v, Obj) and i is not None and i.get('k') == 'ctor':
                    self.env[v['d']] = Cell(self.copy(c.v))
                else:
                    self.env[v['d']] = Cell(self.copy_lib(c.v) if not isinstance(c.v, (Obj, UPtr)) else c.v)
            if 'bind' in v:
                self.bind_struct(v, self.env[v['d']])
            r = self.ex(s['b'])
            if r is BRK:
                break
            if r is not None and r is not CNT:
                return r

    def s_switch(self, s):
        if 'init' in s:
            self.ex(s['init'])
        v = self.cond_value(s)
        flat = []
        default = None

        def flatten(x):
            nonlocal default
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'case':
                    labels.append(x.get('v', x.get('e')))
                else:
                    labels.append('default')
                x = x.get('b')
            return x
        body = s['b']
        stmts = body['s'] if body['k'] == 'block' else [body]
        for x in stmts:
            labels = []
            y = flatten(x)
            flat.append((labels, y))
        start = None
        for i, (labels, _) in enumerate(flat):
            for lb in labels:
                if lb != 'default' and self.truth(self.binop('==', v, lb)):
                    start = i
                    break
            if start is not None:
                break
        if start is None:
            for i, (labels, _) in enumerate(flat):
                if 'default' in labels:
                    start = i
        if start is None:
            return None
        for labels, y in flat[start:]:
            r = self.ex(y)
            if r is BRK:
                return None
            if r is not None:
                return r

    def s_ret(self, s):
        e = s.get('e')
        if e is None:
            return Ret(None)
        f = self.stack[-1]
        rt = f.get('rt')
        if rt is not None and is_ref(rt):
            return Ret(self.lval(e))
        if rt is None:
            # lambda: keep references as cells only for class-typed lvalues
            return Ret(self.ev(e))
        if rt and e['k'] == 'ilist':
            return Ret(self.init_value(rt, e))
        return Ret(self.ev(e))

    def s_break(self, s):
        return BRK

    def s_continue(self, s):
        return CNT

    def s_nop(self, s):
        return None

    def s_other(self, s):
        raise Unsupported('statement %s at %s' % (s.get('c', s['k']), self.where()))


NOPCAST = {'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueToRValue',
           'ConstructorConversion', 'UserDefinedConversion', 'Dynamic', 'FunctionToPointerDecay',
           'ArrayToPointerDecay', 'LValueBitCast'}
ASSIGN = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '&=': '&', '|=': '|', '^=': '^',
          '<<=': '<<', '>>=': '>>'}
EV = {'memo': Interp.e_memo, 'int': Interp.e_const, 'const': Interp.e_const, 'bool': Interp.e_const, 'char': Interp.e_const, 'enum': Interp.e_const,
      'str': Interp.e_str, 'float': Interp.e_float, 'null': Interp.e_null, 'this': Interp.e_this,
      'ref': Interp.e_lv, 'gref': Interp.e_lv, 'mem': Interp.e_lv, 'idx': Interp.e_lv,
      'call': Interp.e_call, 'ctor': Interp.e_ctor, 'un': Interp.e_un, 'bin': Interp.e_bin,
      'cond': Interp.e_cond, 'cast': Interp.e_cast, 'ilist': Interp.e_ilist, 'lambda': Interp.e_lambda,
      'fref': Interp.e_fref, 'zero': Interp.e_zero, 'new': lambda I, e: I.e_new(e), 'other': Interp.e_other,
      'delete': lambda I, e: I.e_delete(e), 'sizeof': Interp.e_sizeof, 'mref': Interp.e_other,
      'val': Interp.e_val, 'inhctor': Interp.e_other, 'dref': Interp.e_other}
EX = {'expr': Interp.s_expr, 'block': Interp.s_block, 'decl': Interp.s_decl, 'if': Interp.s_if,
      'while': Interp.s_while, 'do': Interp.s_do, 'for': Interp.s_for, 'rfor': Interp.s_rfor,
      'switch': Interp.s_switch, 'ret': Interp.s_ret, 'break': Interp.s_break,
      'continue': Interp.s_continue, 'nop': Interp.s_nop, 'sother': Interp.s_other,
      'case': Interp.s_other, 'default': Interp.s_other}
