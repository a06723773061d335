"""Rules over a syntax-tree class hierarchy (shared by C01-C04 and their controls)."""
import re
from sa.facts import Program, AnalysisBroken, srcs, loc, REPO
from sa.interp import Trap, Unsupported, Cell, Tok, Obj, ListV, StrV, UPtr, OptV, MapV, AbsEnum, paths, base_type, \
    LIST_PRE, PTR_PRE, STR_PRE
from sa.astmodel import Model
from sa import lib
from sa.report import Check

_p = {}


def ast_model():
    if 'm' not in _p:
        P = Program(srcs('lib/AST/BaseModelica/*.cpp', 'lib/AST/*.cpp'))
        _p['m'] = Model(P, 'marco::ast::ASTNode')
        if len(_p['m'].concrete) < 35:
            raise AnalysisBroken('only %d concrete syntax-tree classes found' % len(_p['m'].concrete))
    return _p['m']


def ctl_model():
    if 'c' not in _p:
        import os
        from sa.facts import VERIF
        _p['c'] = Model(Program([os.path.join(VERIF, 'controls/ast.cpp')]), 'ctl::Node')
    return _p['c']


def nm(c):
    return c.rsplit('::', 1)[-1]


def where(M, cls, meth):
    for m in M.P.rec[cls]['methods']:
        if m['n'] == meth and m['id'] in M.P.fn:
            return loc(M.P.fn[m['id']])
    return ''


def guard(chk, kind, key):
    class G:
        def __enter__(s):
            return s

        def __exit__(s, t, v, tb):
            if t is not None and issubclass(t, (Unsupported, AnalysisBroken)):
                chk.undecided(kind, key, v)
                return True
            if t is not None and issubclass(t, Trap):
                chk.ok(kind, key, False, 'execution traps: %s' % v)
                return True
            return False
    return G()


# ---------------------------------------------------------------------- C01
def find_classof(P, cls):
    todo = [cls]
    while todo:
        c = todo.pop(0)
        r = P.rec.get(c)
        if not r:
            continue
        ms = [m for m in r['methods'] if m['n'] == 'classof']
        if ms:
            return ms
        todo += r['bases']
    return []


def rtti(chk, M):
    P = M.P
    for c in M.concrete:
        try:
            I = M.interp()
            o = M.construct(I, c)
        except (Unsupported, Trap) as e:
            chk.undecided('type-test', nm(c), e)
            continue
        for t in M.classes:
            ms = [m for m in find_classof(P, t) if m['id'] in P.fn]
            key = 'isa<%s>(%s)' % (nm(t), nm(c))
            if not ms:
                chk.undecided('type-test', key, 'no analysable type test')
                continue
            with guard(chk, 'type-test', key):
                f = P.fn[ms[0]['id']]
                v = I.truth(I.call_fn(f, None, [Cell(o)]))
                want = P.is_base(t, c)
                chk.ok('type-test', key, v == want,
                       'a %s node answers %s to the type test for %s, but %s from it' % (
                           nm(c), v, nm(t), 'derives' if want else 'does not derive'), loc(f))
                chk.paths += 1
        chk.visited(I.visited, P)


# ---------------------------------------------------------------------- C02
def const_queries(M, cls):
    """Public const nullary boolean members, own and inherited."""
    out = []
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c == M.root:
            continue
        r = M.P.rec.get(c)
        if not r:
            continue
        for m in r['methods']:
            if m.get('const') and not m['p'] and m.get('rt') == 'bool' and m['id'] in M.P.fn and not m.get('access'):
                out.append(m)
        todo += r['bases']
    return out


def bool_of(M, m, o):
    try:
        I = M.interp()
        v = I.call_fn(M.P.fn[m['id']], o, [])
        v = v.v if isinstance(v, Cell) else v
        return v if v is True or v is False else repr(v)
    except (Unsupported, Trap, AnalysisBroken) as e:
        return None


def optional_children(M, cls):
    """Child links whose absence some public query reports."""
    out = []
    for k, f in M.own_fields(cls):
        if not base_type(f['t']).startswith(PTR_PRE):
            continue
        n = k.rsplit('::', 1)[-1]
        try:
            a = M.populate(M.interp(), cls, 1)
            b = M.populate(M.interp(), cls, 1, 0, ((n,),))
        except (Unsupported, Trap):
            continue
        for m in const_queries(M, cls):
            x, y = bool_of(M, m, a), bool_of(M, m, b)
            if x is not None and y is not None and x != y:
                out.append((n,))
                break
    return out


def clone(chk, M, sizes=(0, 1, 2, 3)):
    P = M.P
    pk = M.parent_key()
    for c in M.concrete:
        opts = optional_children(M, c)
        nulls = [()] + [(x,) for x in opts] + ([tuple(opts)] if len(opts) > 1 else [])
        for size in sizes:
            for alt in range(M.alts(c)):
                for null in nulls:
                    key = '%s/size=%d%s%s' % (nm(c), size, '/alt=%d' % alt if alt else '',
                                              '/absent=' + '+'.join(x[0] for x in null) if null else '')

                    def f(orc):
                        I = M.interp(orc)
                        o = M.populate(I, c, size, alt, null)
                        snap = {k: snapshot(o.f[k].v) for k, _ in M.own_fields(c)}
                        r = I.call_method(o, 'clone')
                        return I, o, snap, r
                    with guard(chk, 'clone', key):
                        for orc, (I, o, snap, r) in paths(f, 2000):
                            chk.paths += 1
                            chk.visited(I.visited, P)
                            d = []
                            n = r.p if isinstance(r, UPtr) else None
                            if n is None or n.cls != c:
                                d.append('the copy is a %s' % (n.cls if n is not None else r))
                            else:
                                if n is o:
                                    d.append('the copy is the node itself')
                                for k, fl in M.own_fields(c):
                                    d += M.diff_clone(o.f[k].v, n.f[k].v, n, k.rsplit('::', 1)[-1])
                                for k, fl in M.base_fields().items():
                                    if k != pk and not same(o.f[k].v, n.f[k].v):
                                        d.append('%s of the copy differs' % k.rsplit('::', 1)[-1])
                                for k, fl in M.own_fields(c):
                                    if snapshot(o.f[k].v) != snap[k]:
                                        d.append('copying changes %s of the original' % k.rsplit('::', 1)[-1])
                            chk.ok('clone', key, not d, '; '.join(d), where(M, c, 'clone'))


def same(a, b):
    if isinstance(a, (Tok, StrV)) or isinstance(b, (Tok, StrV)):
        return a == b
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls and a.tag == b.tag:
        return all(same(a.f[k].v, b.f[k].v) for k in a.f if k in b.f)
    return a is b or a == b


def snapshot(v):
    if isinstance(v, UPtr):
        return ('p', id(v.p))
    if isinstance(v, ListV):
        return ('l',) + tuple(snapshot(c.v) for c in v.items)
    if isinstance(v, lib.VarV):
        return ('v', v.t, snapshot(v.c.v))
    if isinstance(v, StrV):
        return ('s', v.s)
    if isinstance(v, (Tok, int, bool, float, str)) or v is None:
        return v
    return id(v)


# ---------------------------------------------------------------------- C04
def tokens(v, out):
    if isinstance(v, MapV):
        for p in v.d.values():
            tokens(p.c[1].v, out)
    elif isinstance(v, ListV):
        for c in v.items:
            tokens(c.v, out)
    elif isinstance(v, StrV):
        out.extend(x for x in v.s if isinstance(x, Tok))
    elif isinstance(v, (lib.VarV, OptV)):
        if v.c:
            tokens(v.c.v, out)
    elif isinstance(v, (Tok, AbsEnum)):
        out.append(v)
    elif v is not None and not isinstance(v, (int, float)):
        out.append(v)


def contains(name, leaf):
    if name == leaf:
        return True
    return isinstance(name, tuple) and any(contains(x, leaf) for x in name)


def as_text(v):
    if isinstance(v, StrV) and not any(isinstance(x, Tok) for x in v.s):
        return ''.join(x if isinstance(x, str) else chr(x) for x in v.s)
    return None


def json(chk, M, sizes=(0, 2)):
    P = M.P
    kinds = {}
    for c in M.concrete:
        opts = optional_children(M, c)
        nulls = [()] + [(x,) for x in opts]
        for size in sizes:
            for alt in range(M.alts(c)):
                for null in nulls:
                    key = '%s/size=%d%s%s' % (nm(c), size, '/alt=%d' % alt if alt else '',
                                              '/absent=' + null[0][0] if null else '')

                    def f(orc):
                        I = M.interp(orc)
                        o = M.populate(I, c, size, alt, null)
                        return I, o, I.call_method(o, 'toJSON')
                    seen = {}
                    npath = 0
                    with guard(chk, 'json', key):
                        res = list(paths(f, 2000))
                        for orc, (I, o, v) in res:
                            npath += 1
                            chk.paths += 1
                            chk.visited(I.visited, P)
                            if not isinstance(v, MapV):
                                if isinstance(v, (lib.VarV, OptV)) and isinstance(v.c.v, MapV):
                                    v = v.c.v
                                else:
                                    raise Unsupported('toJSON of %s yields %r' % (nm(c), type(v).__name__))
                            out = []
                            tokens(v, out)
                            names = [x.name for x in out if isinstance(x, Tok)]
                            cond = [k for k, _, n in orc.trace]
                            for k, fl in M.own_fields(c):
                                for t in M.fieldset(o.f[k].v):
                                    leaf = t.name if isinstance(t, Tok) else t.tag
                                    n = sum(1 for x in names if contains(x, leaf))
                                    dec = any(contains(x, leaf) for x in cond)
                                    s = seen.setdefault(leaf, [0, 0, k])
                                    if n or dec:
                                        s[0] += 1
                                    if n > 1 and isinstance(t, Obj):
                                        s[1] = 1
                                v0 = o.f[k].v
                                if isinstance(v0, AbsEnum):
                                    s = seen.setdefault(('enum', k), [0, 0, k])
                                    s[0] += 1 if any(x is v0 for x in out) or len(v0.s) < len(
                                        P.enum[base_type(fl['t'])]['v']) else 0
                            kn = [as_text(p.c[1].v) for kk, p in v.d.items() if keytext(kk) == 'kind']
                            chk.ok('json-kind', key, len(kn) == 1 and kn[0],
                                   'the output has no node kind', where(M, c, 'toJSON'))
                            if kn and kn[0]:
                                kinds.setdefault(kn[0], set()).add(c)
                        # A leaf may be hidden on some paths (for instance
                        # behind a flag), but not on every one of them.
                        miss = sorted({s[2].rsplit('::', 1)[-1] for s in seen.values() if s[0] == 0})
                        dup = sorted({s[2].rsplit('::', 1)[-1] for s in seen.values() if s[1]})
                        chk.ok('json', key, not miss and not dup and npath,
                               '; '.join(['%s does not reach the output' % x for x in miss] +
                                         ['%s is emitted more than once' % x for x in dup]),
                               where(M, c, 'toJSON'))
    for k, cs in sorted(kinds.items()):
        chk.ok('json-kind-unique', k, len(cs) == 1, 'kind name shared by %s' % sorted(nm(x) for x in cs))


def keytext(k):
    if isinstance(k, StrV):
        return as_text(k)
    if isinstance(k, tuple):
        return ''.join(k) if all(isinstance(x, str) for x in k) else None
    return k if isinstance(k, str) else None


# ---------------------------------------------------------------------- C03
IRREGULAR = {'Indices': 'Index', 'Path': 'Element', 'Properties': None}
COUNT_NAMES = ('getNumOf%s', 'getNum%s')


def methods(M, cls):
    out = []
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c == M.root:
            continue
        r = M.P.rec.get(c)
        if r:
            out += [(c, m) for m in r['methods'] if m['id'] in M.P.fn and not m.get('access')]
            todo += r['bases']
    return out


class Acc:
    """Behaviour of the accessor family of one setter."""

    def __init__(self, chk, M, cls):
        self.chk, self.M, self.cls, self.P = chk, M, cls, M.P
        self.ms = methods(M, cls)

    def find(self, name, nargs=0):
        return [m for c, m in self.ms if m['n'] == name and len(m['p']) == nargs]

    def run(self, o, m, *args):
        I = self.M.interp()
        r = I.call_fn(self.P.fn[m['id']], o, [a if isinstance(a, Cell) else Cell(a) for a in args])
        self.chk.visited(I.visited, self.P)
        self.chk.paths += 1
        if isinstance(r, Cell):
            r = r.v
        return r


def unwrap(v):
    if isinstance(v, UPtr):
        return v.p
    return v


def plural_to_singular(x):
    if x in IRREGULAR:
        return IRREGULAR[x]
    return x[:-1] if x.endswith('s') else None


def accessors(chk, M):
    P = M.P
    for cls in M.classes:
        # abstract classes are exercised through one concrete descendant
        conc = cls if cls in M.concrete else next((c for c in M.concrete if P.is_base(cls, c)), None)
        if conc is None:
            continue
        for m in P.rec[cls]['methods']:
            if not re.match(r'set[A-Z]', m['n']) or m['id'] not in P.fn or m.get('access'):
                continue
            if sum(1 for x in P.rec[cls]['methods'] if x['n'] == m['n']) > 1:
                continue        # overloaded: see variants()
            key = '%s::%s' % (nm(cls), m['n'])
            with guard(chk, 'accessor', key):
                family(chk, M, cls, conc, m, key)


def children_of(M, I, n, tag):
    out = []
    for i in range(n):
        out.append(Cell(UPtr(I.child((tag, i)))))
    return ListV([c.v for c in out], 'llvm::ArrayRef<x>')


def observers(A, X):
    """(kind, method) pairs that observe the attribute X."""
    obs = []
    for p in ('get', 'is', 'has'):
        obs += [(p, m) for m in A.find(p + X)]
    for f in COUNT_NAMES:
        obs += [('count', m) for m in A.find(f % X)]
    return obs


def family(chk, M, cls, conc, m, key):
    P = M.P
    A = Acc(chk, M, conc)
    X = m['n'][3:]
    w = loc(P.fn[m['id']])
    pts = [p['t'] for p in m['p']]
    pk = M.parent_key()
    last = base_type(pts[-1])
    is_list = last.startswith(LIST_PRE)
    et = lib.elem_type(last) if is_list else None
    child_list = is_list and base_type(et).startswith(PTR_PRE)
    S = plural_to_singular(X)

    def fresh():
        return M.populate(M.interp(), conc, 2)

    def other_state(o):
        """Observations of every other accessor family."""
        out = {}
        names = {x['n'] for c, x in A.ms}
        mine = {p + X for p in ('get', 'is', 'has')} | {f % X for f in COUNT_NAMES}
        if S:
            mine |= {'get' + S}
        for c, x in A.ms:
            if x['n'] in mine or x['p'] or not x['n'].startswith('get') or not x.get('const'):
                continue
            if not ('set' + x['n'][3:]) in names:
                continue
            try:
                out[x['n']] = snapshot(A.run(o, x))
            except (Unsupported, Trap, AnalysisBroken):
                pass
        return out

    def done(d):
        chk.ok('accessor', key, not d, '; '.join(dict.fromkeys(d)), w)

    d = []
    seen = 0
    if len(pts) == 1 and not is_list:
        b = last
        if b.startswith(PTR_PRE):
            I = M.interp()
            o = fresh()
            before = other_state(o)
            ch = I.child(('new',))
            A.run(o, m, Cell(UPtr(ch)))
            for k, g in observers(A, X):
                v = unwrap(A.run(o, g))
                if k == 'get':
                    seen += 1
                    if v is not ch:
                        d.append('%s() does not return the node that was set' % g['n'])
                elif k in ('has', 'is'):
                    seen += 1
                    if v is not True:
                        d.append('%s() is false after the node was set' % g['n'])
            if ch.f[pk].v is not o:
                d.append('the parent of the node that was set is not the owner')
            if other_state(o) != before:
                d.append('setting %s changes another attribute' % X)
            if X == 'Expression' or True:
                for k, g in observers(A, X):
                    if k == 'has':
                        fld = [kk for kk, f in M.own_fields(conc) if isinstance(o.f[kk].v, UPtr) and o.f[kk].v.p is ch]
                        if len(fld) == 1:
                            z = M.populate(M.interp(), conc, 2, 0, ((fld[0].rsplit('::', 1)[-1],),))
                            if A.run(z, g) is not False:
                                d.append('%s() is true although nothing was set' % g['n'])
        else:
            o = fresh()
            before = other_state(o)
            if b.startswith(STR_PRE):
                val = StrV((Tok('str', 'new'),))
            elif b in P.enum:
                val = AbsEnum([x[1] for x in P.enum[b]['v']], ('new',))
            else:
                val = Tok('val', 'new')
            A.run(o, m, Cell(StrV(val.s) if isinstance(val, StrV) else val))
            cands = observers(A, X)
            if not cands:
                cands = [('get', g) for g in A.find('is' + X + 'Property')]
            for k, g in cands:
                if k == 'count':
                    continue
                v = A.run(o, g)
                seen += 1
                good = v == val if isinstance(val, (Tok, StrV)) else v is val
                if not good:
                    d.append('%s() returns %r instead of the value that was set' % (g['n'], v))
            if other_state(o) != before:
                d.append('setting %s changes another attribute' % X)
        if not seen:
            raise Unsupported('no accessor observes %s' % X)
        return done(d)
    if is_list and len(pts) in (1, 2):
        indexed = len(pts) == 2
        counts = [g for f in COUNT_NAMES for g in A.find(f % X, 1 if indexed else 0)]
        if not counts and not indexed:
            own = {x['id'] for x in P.rec[cls]['methods']}
            for n in ('size', 'getRank', 'get%sLength' % X):
                counts += [x for x in A.find(n) if x['id'] in own]
        elems = A.find('get' + S, 2 if indexed else 1) if S else []
        if not indexed:
            elems = elems or A.find('operator[]', 1)
        whole = A.find('get' + X, 1 if indexed else 0)
        hass = A.find('has' + X) if not indexed else []
        empties = A.find('empty') if not indexed else []
        for rounds in ((0,), (1,), (3,), (2, 3), (3, 1), (2, 0)) if not indexed else ((2, 3), (1, 0)):
            if indexed:
                # grow an empty collection entry by entry, then overwrite one
                o = M.populate(M.interp(), conc, 0)
                steps = [(0, rounds[0]), (1, rounds[1]), (2, 1), (0, 1)]
            else:
                o = fresh()
                steps = [(None, n) for n in rounds]
            state = {}
            before = other_state(o)
            for si, (ix, n) in enumerate(steps):
                I = M.interp()
                if child_list:
                    lst = children_of(M, I, n, 'new%d' % si)
                    want = [('clone', c.v.p.tag) for c in lst.items]
                else:
                    lst = ListV([M.value(I, et, ('new%d' % si, i), 1, None) for i in range(n)], 'llvm::ArrayRef<x>')
                    want = [c.v for c in lst.items]
                args = ([ix] if indexed else []) + [Cell(lst)]
                A.run(o, m, *args)
                state[ix] = want
                if child_list and [c.v.p.tag if isinstance(c.v, UPtr) and c.v.p is not None else None
                                   for c in lst.items] != [x[1] for x in want]:
                    d.append('the nodes passed in are modified')
                for jx, wl in state.items():
                    pre = [jx] if indexed else []
                    tag = ' after setting %s elements' % '/'.join(map(str, [s[1] for s in steps[:si + 1]]))
                    for g in counts:
                        seen += 1
                        if A.run(o, g, *pre) != len(wl):
                            d.append('%s() is not the number of elements set%s' % (g['n'], tag))
                    for g in hass:
                        seen += 1
                        if A.run(o, g) != (len(wl) > 0):
                            d.append('%s() is wrong%s' % (g['n'], tag))
                    if not counts and not whole and hass:
                        pass
                    for g in empties:
                        if A.run(o, g) != (len(wl) == 0):
                            d.append('empty() is wrong%s' % tag)
                    got = []
                    for g in elems:
                        seen += 1
                        for i in range(len(wl)):
                            got.append((g['n'], i, A.run(o, g, *pre, i)))
                    for g in whole:
                        seen += 1
                        v = A.run(o, g, *pre)
                        if not isinstance(v, ListV) or len(v.items) != len(wl):
                            d.append('%s() has a wrong number of elements%s' % (g['n'], tag))
                        else:
                            got += [(g['n'], i, x.v) for i, x in enumerate(v.items)]
                    for gn, i, v in got:
                        v = unwrap(v)
                        if child_list:
                            if not isinstance(v, Obj) or v.tag != wl[i]:
                                d.append('%s: element %d is not the clone of the node set%s' % (gn, i, tag))
                            elif v.f[pk].v is not o:
                                d.append('%s: the parent of element %d is not the owner' % (gn, i))
                        elif v != wl[i]:
                            d.append('%s: element %d differs from the value set%s' % (gn, i, tag))
            if other_state(o) != before:
                d.append('setting %s changes another attribute' % X)
        if not seen:
            raise Unsupported('no accessor observes %s' % X)
        return done(d)
    raise Unsupported('setter signature not modelled')
