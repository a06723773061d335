"""Abstract heap model of syntax-tree nodes: generic over the class hierarchy.

A node of class C is built by its constructor, then every field receives a
distinct opaque token (scalars, strings) or a distinct opaque child node."""
from .facts import AnalysisBroken, loc
from .interp import (Interp, Cell, Tok, Obj, ListV, StrV, OptV, UPtr, Trap, Unsupported, AbsEnum, paths,
                     base_type, LIST_PRE, STR_PRE, PTR_PRE, MapV, Infeasible)
from . import lib


class AstInterp(Interp):
    """Children are objects of the root class tagged ('child', path)."""
    root = None

    def child(self, tag):
        o = Obj(self.root, ('child',) + tag)
        for c, f in self.P.fields(self.root):
            o.f[c + '::' + f['n']] = Cell(None if f['t'].endswith('*') else Tok('childfield', tag, f['n']))
        return o

    def is_child(self, v):
        return isinstance(v, Obj) and isinstance(v.tag, tuple) and v.tag and v.tag[0] in ('child', 'clone')

    def call(self, n):
        fn = n.get('fn')
        if fn is not None and 'obj' in n and n.get('virt'):
            o = self.ev(n['obj'])
            if self.is_child(o):
                nm = fn.rsplit('::', 1)[-1]
                if nm == 'clone':
                    k = self.child(('x',))
                    k.tag = ('clone', o.tag)
                    return UPtr(k)
                return Tok('virt', nm, o.tag)
            if isinstance(o, UPtr):
                pass
        return super().call(n)

    def truth(self, v, node=None):
        if isinstance(v, Tok) and isinstance(v.name, tuple) and v.name[:1] == ('virt',):
            return True     # assertions about children (isa, isLValue, ...)
        return super().truth(v, node)


def cast_hook(I, n):
    c = I.lval(n['a'][0])
    v = c.v.p if isinstance(c.v, UPtr) else c.v
    if I.is_child(v):
        nm = n['fn'].rsplit('::', 1)[-1]
        if nm.startswith('isa'):
            return True
        return Cell(v) if nm.startswith('cast') else v
    return NotImplemented


CASTHOOKS = {'llvm::' + x: cast_hook for x in ('cast', 'isa', 'dyn_cast', 'cast_or_null', 'dyn_cast_or_null',
                                               'cast_if_present', 'dyn_cast_if_present', 'isa_and_nonnull')}


class Model:
    def __init__(self, P, root):
        self.P = P
        self.root = root
        if root not in P.rec:
            raise AnalysisBroken('no class %s' % root)
        self.classes = sorted(c for c in P.subclasses(root))
        self.concrete = [c for c in self.classes if not P.rec[c].get('abstract')]

    def interp(self, o=None, hooks=None):
        h = dict(CASTHOOKS)
        h.update(hooks or {})
        I = AstInterp(self.P, o, hooks=h, fuel=200000)
        I.root = self.root
        return I

    def construct(self, I, cls, loc=None):
        """Run the simplest constructor (first parameter: location)."""
        r = self.P.rec[cls]
        cs = [m for m in r['methods'] if m.get('kind') == 'ctor' and m['id'] in self.P.fn and not m.get('deleted')
              and m.get('access', 'public') in ('public', 0, None)]
        if not cs:
            raise AnalysisBroken('no analysable constructor of %s' % cls)
        m = min(cs, key=lambda m: len(m['p']))
        f = self.P.fn[m['id']]
        args = [Cell(Tok('arg', i)) for i in range(len(f['p']))]
        return I.construct_with(cls, f, args)

    def base_fields(self):
        return {c + '::' + f['n']: f for c, f in self.P.fields(self.root)}

    def own_fields(self, cls):
        b = self.base_fields()
        return [(c + '::' + f['n'], f) for c, f in self.P.fields(cls) if c + '::' + f['n'] not in b]

    def parent_key(self):
        ks = [k for k, f in self.base_fields().items() if f['t'].endswith('*')]
        if len(ks) != 1:
            raise AnalysisBroken('no unique parent link in %s' % self.root)
        return ks[0]

    # ---------------------------------------------------------------- values
    def value(self, I, t, path, size, owner, alt=0, null=()):
        b = base_type(t)
        if b.startswith(PTR_PRE):
            if path in null or path[:1] in null:
                return UPtr(None)
            c = I.child(path)
            c.f[self.parent_key()].v = owner
            return UPtr(c)
        if b.startswith(LIST_PRE):
            et = lib.elem_type(b)
            return ListV([self.value(I, et, path + (i,), size, owner, alt, null) for i in range(size)], b)
        if b.startswith(STR_PRE):
            return StrV((Tok('str', path),))
        if b.startswith('std::variant<'):
            ts = lib.targs(b)
            a = ts[alt % len(ts)]
            return lib.VarV(base_type(a), self.value(I, a, path + ('alt',), size, owner, alt, null))
        if b in self.P.enum:
            return AbsEnum([x[1] for x in self.P.enum[b]['v']], path)
        return Tok('val', path)

    def populate(self, I, cls, size=2, alt=0, null=()):
        o = self.construct(I, cls)
        for k, f in self.own_fields(cls):
            n = k.rsplit('::', 1)[-1]
            o.f[k].v = self.value(I, f['t'], (n,), size, o, alt, null)
        pk = self.parent_key()
        o.f[pk].v = Tok('parent')
        return o

    def alts(self, cls):
        n = 1
        for k, f in self.own_fields(cls):
            if base_type(f['t']).startswith('std::variant<'):
                n = max(n, len(lib.targs(base_type(f['t']))))
        return n

    def fieldset(self, v):
        """Tokens/children contained in a value, with their paths."""
        out = []
        if isinstance(v, UPtr):
            if v.p is not None:
                out.append(v.p)
        elif isinstance(v, ListV):
            for c in v.items:
                out += self.fieldset(c.v)
        elif isinstance(v, lib.VarV):
            out += self.fieldset(v.c.v)
        elif isinstance(v, StrV):
            out += [x for x in v.s if isinstance(x, Tok)]
        elif isinstance(v, Tok):
            out.append(v)
        return out

    # ---------------------------------------------------------------- compare
    def diff_clone(self, a, b, owner, path):
        """Differences between field value a and its deep copy b."""
        out = []
        if isinstance(a, UPtr):
            if not isinstance(b, UPtr):
                return ['%s: not a node' % path]
            if a.p is None:
                return [] if b.p is None else ['%s: absent child became present' % path]
            if b.p is None:
                return ['%s: child is missing in the copy' % path]
            if b.p is a.p:
                return ['%s: child is shared, not cloned' % path]
            if not isinstance(b.p, Obj) or b.p.tag != ('clone', a.p.tag):
                return ['%s: child is %r instead of a clone of %r' % (path, b.p.tag, a.p.tag)]
            if b.p.f[self.parent_key()].v is not owner:
                out.append('%s: parent of the cloned child is not the copy' % path)
            return out
        if isinstance(a, ListV):
            if not isinstance(b, ListV) or len(a.items) != len(b.items):
                return ['%s: %d elements became %s' % (path, len(a.items), len(b.items) if isinstance(b, ListV) else b)]
            for i, (x, y) in enumerate(zip(a.items, b.items)):
                out += self.diff_clone(x.v, y.v, owner, '%s[%d]' % (path, i))
            return out
        if isinstance(a, lib.VarV):
            if not isinstance(b, lib.VarV) or a.t != b.t:
                return ['%s: alternative %s became %r' % (path, a.t, getattr(b, 't', b))]
            return self.diff_clone(a.c.v, b.c.v, owner, path)
        if isinstance(a, StrV):
            return [] if isinstance(b, StrV) and a.s == b.s else ['%s: text differs' % path]
        if isinstance(a, AbsEnum):
            return [] if b is a else ['%s: enumerator differs' % path]
        return [] if a == b else ['%s: %r became %r' % (path, a, b)]
