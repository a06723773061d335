"""Recursive-descent parser against the reference grammar.

Each parsing function is interpreted abstractly on streams whose subphrases
are opaque (only their first tokens are constrained); a call that parses such
a subphrase is replaced by its specification."""
import itertools
from sa.facts import AnalysisBroken, Program, srcs, loc
from sa.interp import (Interp, Cell, Tok, Obj, ListV, StrV, OptV, UPtr, PairV, Trap, Unsupported, AbsEnum, Infeasible,
                       UNINIT, base_type, paths, short)
from sa.astmodel import AstInterp, CASTHOOKS
from sa.grammar import Grammar, Sym, tree, Node
from sa import lib
from sa.report import Check
from . import parsegrammar as G

NS = 'marco::parser::bmodelica::'
AST = 'marco::ast::bmodelica::'
PARSER = NS + 'Parser'
_c = {}


class Stop(Exception):
    """The run is over: outcome of the phrase under analysis."""

    def __init__(self, kind, msg=''):
        super().__init__(msg)
        self.kind, self.msg = kind, msg


class NeedExpand(Exception):
    def __init__(self, slot, why):
        super().__init__(why)
        self.slot = slot


class TokVal:
    """Payload of a token: alternative determined by the token kind."""

    def __init__(self, slot, kinds, text):
        self.slot, self.kinds, self.text = slot, kinds, text


class Env:
    """Facts about the parser."""

    def __init__(self):
        self.P = Program(srcs('lib/Parser/BaseModelica/*.cpp', 'lib/Lexer/*.cpp', 'lib/AST/BaseModelica/*.cpp',
                              'lib/AST/*.cpp'))
        P = self.P
        if PARSER not in P.rec:
            raise AnalysisBroken('no class ' + PARSER)
        self.tk = {n: v for n, v in P.enum[NS + 'TokenKind']['v']}
        self.kn = {v: n for n, v in self.tk.items()}
        self.never = {'None', 'Begin'}      # never produced by the lexer
        kinds = set(self.tk) - self.never
        self.fn = {}
        for m in P.rec[PARSER]['methods']:
            if m['id'] in P.fn:
                self.fn.setdefault(m['n'].rsplit('::', 1)[-1], P.fn[m['id']])
        inline = {n for n in G.RULES if G.ENTRY[n] not in self.fn or n in G.NEVER_OPAQUE}
        self.g = Grammar(G.RULES, kinds, inline)
        self.g.seed_follow('root', ['EndOfFile'])
        self.nt_of = {G.ENTRY[n]: n for n in G.RULES if n not in inline}
        self.scans = {f['id'] for f in P.fn.values() if f['n'].endswith('::scan') and 'Lexer<' in f['n']}
        adv = [f for f in P.fn.values() if f.get('cls') == PARSER and not f['p'] and self.calls_scan(f)
               and f.get('kind') not in ('ctor',)]
        if len(adv) != 1:
            raise AnalysisBroken('%d functions of the parser read tokens' % len(adv))
        self.advance = adv[0]
        self.spelled = {'NAME'} | {x.text for n in G.RULES for S in [self.g.nfa(n)[0]] for es in S
                                   for _, x, _, _ in es if x is not None and x.text}
        self.payload = {self.tk['Integer']: 'long', self.tk['FloatingPoint']: 'double'}

    def calls_scan(self, f):
        def w(x):
            if isinstance(x, dict):
                if x.get('k') == 'call' and (x.get('id') in self.scans or str(x.get('fn', '')).endswith('::scan')):
                    return True
                return any(w(v) for v in x.values())
            if isinstance(x, list):
                return any(w(v) for v in x)
            return False
        return w(f.get('body')) or w(f.get('inits'))


def env():
    if 'e' not in _c:
        _c['e'] = Env()
    return _c['e']


class Slot:
    """One token of the stream."""
    __slots__ = ('kinds', 'role', 'sym', 'text')

    def __init__(self, kinds, role, sym=None, text=None):
        self.kinds, self.role, self.sym, self.text = kinds, role, sym, text


class PI(AstInterp):
    root = 'marco::ast::ASTNode'

    def __init__(self, E, o, slots, blobs, tail):
        super().__init__(E.P, o, hooks=HOOKS, fuel=60000,
                         ctor_hooks={c: (lambda I, e: Tok('lexer')) for c in E.P.rec if c.startswith('marco::lexer::Lexer<')})
        self.E = E
        self.slots = slots          # Slot per token
        self.blobs = blobs          # slot -> (sym, variant, fails)
        self.tail = tail            # number of arbitrary tokens after the slots before giving up
        self.scanned = 0
        self.look = None
        self.errors = []
        self.warnings = 0
        self.uidx = None            # index of the offending token, if any
        self.toks = {}
        self.file = None
        self.eof = False            # the file ends after the slots
        self.depth_entry = None
        self.consumed_u_errors = None

    # ---- tokens
    def pos(self):
        return self.scanned - (self.look or 0)

    def srange(self, i, j=None):
        j = i if j is None else j
        P = self.P
        if self.file is None:
            self.file = UPtr(self.new('marco::SourceFile', StrV('f')), True)
        b = self.new('marco::SourcePosition', UPtr(self.file.p, True), 1, 10 * i + 1)
        e = self.new('marco::SourcePosition', UPtr(self.file.p, True), 1, 10 * j + 5)
        return self.new('marco::SourceRange', b, e)

    def slot(self, i):
        while i >= len(self.slots):
            if self.eof:
                self.slots.append(Slot(frozenset([self.E.tk['EndOfFile']]), 'any'))
                continue
            self.slots.append(Slot(frozenset(self.E.kn) - {self.E.tk[x] for x in self.E.never}, 'any'))
        return self.slots[i]

    def make_token(self, i):
        s = self.slot(i)
        if isinstance(s.kinds, AbsEnum):
            k = s.kinds
        else:
            k = AbsEnum(s.kinds, ('tok', i)) if len(s.kinds) > 1 else next(iter(s.kinds))
            if isinstance(k, AbsEnum):
                s.kinds = k
        t = Obj(NS + 'Token')
        vals = {'kind': k, 'location': self.srange(i), 'value': TokVal(i, k, s.text)}
        for c, f in self.P.fields(NS + 'Token'):
            b = base_type(f['t'])
            if b == NS + 'TokenKind':
                v = vals['kind']
            elif b == 'marco::SourceRange':
                v = vals['location']
            elif b.startswith('std::variant<'):
                v = vals['value']
            else:
                raise Unsupported('field %s of Token' % f['n'])
            t.f[c + '::' + f['n']] = Cell(v)
        return t

    def scan(self):
        self.fuel = self.fuel0
        i = self.scanned
        self.scanned += 1
        if self.look is not None:
            # a token was consumed: which one?
            c = self.pos() - 1
            if c in self.blobs and c not in self.called:
                raise NeedExpand(c, 'read token by token')
            if self.uidx is not None:
                if c == self.uidx:
                    self.consumed_u_errors = len(self.errors)
                elif c > self.uidx and len(self.errors) == self.consumed_u_errors == 0:
                    raise Stop('accepts', 'accepts %s' % self.kindname(self.uidx))
            if self.eof and self.pos() > len(self.slots0) + 4 * self.tail:
                raise Stop('hang', 'keeps reading past the end of the file')
            if not self.eof and self.pos() > len(self.slots0) + self.tail:
                raise Stop('overrun', 'keeps consuming tokens after the end of the phrase')
        return self.make_token(i)

    def kindname(self, i):
        k = self.slot(i).kinds
        s = k.s if isinstance(k, AbsEnum) else k
        n = sorted(self.E.kn[x] for x in s)
        return n[0] if len(n) == 1 else '%s (or %d other kinds)' % (n[0], len(n) - 1)

    def payload_of(self, v, t):
        ks = v.kinds.s if isinstance(v.kinds, AbsEnum) else {v.kinds}
        want = {'std::string': 'str'}.get(t, t)
        if want.startswith('std::basic_string<'):
            want = 'str'
        if want == 'int64_t':
            want = 'long'
        bad = sorted(self.E.kn[k] for k in ks if self.E.payload.get(k, 'str') != want)
        if bad:
            raise Trap('reads the %s of a token that may be %s' % (
                {'str': 'text', 'long': 'integer'}.get(want, want), bad[0]))
        if want == 'str':
            if v.text is not None:
                return StrV(v.text)
            return StrV((Tok('text', v.slot),))
        return Tok(want, v.slot)

    def str_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if len(x.s) == 1 and isinstance(x.s[0], Tok) and x.s[0].name[0] == 'text' and \
                    all(isinstance(c, str) for c in y.s) and ''.join(y.s) in self.E.spelled:
                return False        # a word other than the ones the grammar singles out
        return super().str_eq(a, b)

    # ---- calls
    def call(self, n):
        fn = n.get('fn')
        if fn:
            if fn.startswith('clang::') or ('obj' in n and str(n.get('cls', '')).startswith('clang::')):
                return self.clang(n, short(fn))
            if n['id'] in self.E.scans:
                return self.scan()
            if fn.startswith(PARSER + '::'):
                nt = self.E.nt_of.get(fn.rsplit('::', 1)[-1])
                if nt is not None and self.stack:
                    r = self.intercept(nt, n)
                    if r is not NotImplemented:
                        return r
        return super().call(n)

    def clang(self, n, nm):
        if 'obj' in n and n['obj'].get('k') in ('call', 'ctor') :
            self.ev(n['obj'])
        args = [self.ev(a) for a in n['a']]
        args = [a.v if isinstance(a, Cell) else a for a in args]
        if nm == 'getCustomDiagID':
            lv = args[0]
            names = {}
            for k, e in self.P.enum.items():
                if k.startswith('clang::') and k.endswith('::Level'):
                    names = {v: x for x, v in e['v']}
            return Tok('diag', names.get(lv, lv))
        if nm == 'Report':
            did = [a for a in args if isinstance(a, Tok) and a.name[0] == 'diag']
            where = [a for a in args if isinstance(a, Tok) and a.name[0] == 'loc']
            lvl = did[0].name[1] if did else None
            if lvl in ('Error', 'Fatal', 3, 4):
                self.errors.append(where[0].name[1:] if where else None)
            else:
                self.warnings += 1
            return Tok('builder')
        if nm == 'operator<<':
            return Tok('builder')
        if nm == 'translateFileLineCol':
            return Tok('loc', args[1], args[2])
        if nm in ('getFileRef', 'getOptionalFileRef', 'getFile'):
            return OptV(Cell(Tok('fileref')))
        if 'obj' in n and nm == 'getFileManager':
            return Cell(Tok('filemanager'))
        if nm == 'FileEntryRef' or nm.startswith('operator'):
            return Tok('fileref')
        return Tok('clang', nm)

    def intercept(self, nt, n):
        p = self.pos()
        if p in self.blobs and p < len(self.slots0):
            sym, variant, fails = self.blobs[p]
            if sym.name != nt:
                if self.E.g.null.get(nt):
                    return NotImplemented
                raise NeedExpand(p, '%s called on %s' % (nt, sym.name))
            self.called.add(p)
            if fails:
                self.errors.append('sub')
                self.failed_sub = True
                return OptV()
            save = self.uidx
            for _ in range(2):
                self.call_fn(self.E.advance, self.this_parser, [])
            return self.blob_result(nt, p, variant, n)
        s = self.slot(p)
        if s.role in ('bad', 'any', 'after'):
            k = self.E.tk
            first = {k[x] for x in self.E.g.first[nt]}
            cur = s.kinds.s if isinstance(s.kinds, AbsEnum) else frozenset(s.kinds)
            if not (cur & first):
                if self.E.g.null.get(nt):
                    return NotImplemented
                # the callee rejects this token (its own obligation)
                self.errors.append((1, 10 * p + 1))
                return OptV()
            if s.role == 'bad':
                if isinstance(s.kinds, AbsEnum):
                    s.kinds.s = frozenset(cur & first)
                raise Stop('accepts', 'accepts %s as the start of %s' % (self.kindname(p), nt))
            if s.role == 'after':
                raise Stop('reads-on', 'parses %s after a complete phrase, on %s' % (nt, self.kindname(p)))
            return NotImplemented
        return NotImplemented

    def opaque(self, p, i, span):
        o = self.child((p, i))
        for k, c in o.f.items():
            pass
        for c, f in self.P.fields(self.root):
            key = c + '::' + f['n']
            if base_type(f['t']) == 'marco::SourceRange':
                o.f[key].v = self.srange(*span)
        return UPtr(o)

    def wrap(self, t, v, span):
        """A value of the parse result type t."""
        inner = lib.targs(base_type(t))[0]
        b = base_type(inner)
        if 'ValueWrapper<' in b:
            cls = b
            if cls not in self.P.rec:
                raise Unsupported('no class %s' % cls)
            return OptV(Cell(self.new(cls, self.srange(*span), v)))
        return OptV(Cell(v))

    def blob_result(self, nt, p, variant, n):
        f = self.E.fn[G.ENTRY[nt]]
        t = f['rt']
        span = (p, p + 1)

        def lst(a, k, et='std::vector<std::unique_ptr<marco::ast::ASTNode>>'):
            # elements in order: the first starts the phrase, the last ends it
            out = []
            for i in range(k):
                out.append(self.opaque(p, a + i, (p if i == 0 else p + 1, p + 1 if i == k - 1 else p)))
            return ListV(out, et)
        if nt in G.LISTS:
            return self.wrap(t, lst(0, G.LISTS[nt][variant]), span)
        if nt in G.PAIRS:
            a, b = G.PAIRS[nt][variant]
            return self.wrap(t, PairV(lst(0, a), lst(a, b)), span)
        return self.wrap(t, self.opaque(p, 0, span), span)


def h_get(I, n):
    v = I.ev(n['a'][0])
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, TokVal):
        return Cell(I.payload_of(v, str(n['ta'][0])))
    return NotImplemented


def h_getif(I, n):
    v = I.ev(n['a'][0])
    if isinstance(v, Cell):
        v = v.v
    if isinstance(v, TokVal):
        raise Unsupported('get_if on a token value')
    return NotImplemented


def h_tostring(I, n):
    if n['a'] and base_type(n['a'][0].get('t', '')).startswith(NS + 'Token'):
        return StrV((Tok('tokname'),))
    return NotImplemented


HOOKS = dict(CASTHOOKS)
HOOKS['std::get'] = h_get
HOOKS['std::get_if'] = h_getif
HOOKS[NS + 'toString'] = lambda I, n: StrV((Tok('tokname'),))


# ---------------------------------------------------------------- dump
class Dump:
    """Observes a produced tree through its accessors."""

    def __init__(self, I):
        self.I = I
        self.locs = []      # (node description, span or None, begin, end) filled by compare
        self.P = I.P
        self.ops = {v: n for n, v in I.P.enum[AST + 'OperationKind']['v']}
        self.bts = None
        for k, e in I.P.enum.items():
            if k.startswith(AST + 'BuiltInType::'):
                self.bts = {v: n for n, v in e['v']}

    def get(self, o, name, *a):
        r = self.I.call_method(o, name, *a)
        if isinstance(r, Cell):
            r = r.v
        return r

    def node(self, v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, UPtr):
            v = v.p
        return v

    def attrs(self, cls):
        out = []
        for x in G.OBS[cls]:
            if isinstance(x, str):
                out += G.OBS[x]
            else:
                out.append(x)
        return out

    def attr(self, o, spec):
        if len(spec) == 2:
            g = spec[1]
            if g == '#variant':
                for k, c in o.f.items():
                    if isinstance(c.v, lib.VarV):
                        return c.v.c.v
                raise Unsupported('no variant in ' + o.cls)
            if g[0] == '?':
                return self.get(o, 'get' + g[1:]) if self.get(o, 'has' + g[1:]) else None
            return self.get(o, g)
        if spec[1][0] == '!':
            return None if self.get(o, 'has' + spec[1][1:]) else self.get(o, spec[2])
        if spec[1][0] == '~':
            return None if self.get(o, spec[1][1:]) else self.get(o, spec[2])
        n = self.get(o, spec[1])
        if not isinstance(n, int):
            raise Unsupported('abstract count')
        if isinstance(spec[2], tuple):
            out = []
            for i in range(n):
                m = self.get(o, spec[2][0], i)
                out.append([self.get(o, spec[2][1], i, j) for j in range(m)])
            return out
        return [self.get(o, spec[2], i) for i in range(n)]


class Cmp:
    def __init__(self, I, within):
        self.I = I
        self.d = Dump(I)
        self.diffs = []
        self.locs = []
        self.within = within

    def scalar(self, v):
        if isinstance(v, StrV):
            if len(v.s) == 1 and isinstance(v.s[0], Tok):
                t = v.s[0].name
                if t[0] == 'text':
                    return ('text', t[1])
            if all(isinstance(c, str) for c in v.s):
                return ''.join(v.s)
            return repr(v)
        if isinstance(v, Tok):
            return v.name
        return v

    def want(self, e):
        if isinstance(e, G.S):
            return {'id': ('text', e.slot), 'str': ('text', e.slot), 'int': ('long', e.slot),
                    'float': ('double', e.slot)}[e.kind]
        return e

    def cmp(self, e, v, path):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, OptV):
            v = v.c.v if v.c else None
        if isinstance(e, (list, tuple)) and not isinstance(v, PairV):
            vs = v.vals if isinstance(v, ListV) else v
            if not isinstance(vs, list):
                self.diffs.append('%s: not a list' % path)
                return
            if len(vs) != len(e):
                self.diffs.append('%s: %d elements instead of %d' % (path, len(vs), len(e)))
                return
            for i, (a, b) in enumerate(zip(e, vs)):
                self.cmp(a, b, '%s[%d]' % (path, i))
            return
        if isinstance(e, tuple):
            for i, (a, c) in enumerate(zip(e, v.c)):
                self.cmp(a, c.v, '%s.%d' % (path, i))
            return
        if isinstance(e, G.E):
            o = self.d.node(v)
            if o is None:
                self.diffs.append('%s: missing node, expected %s' % (path, e.cls))
                return
            if not isinstance(o, Obj):
                self.diffs.append('%s: %r instead of %s' % (path, o, e.cls))
                return
            if self.I.is_child(o):
                self.diffs.append('%s: subphrase %s instead of %s' % (path, o.tag[1:], e.cls))
                return
            c = o.cls.rsplit('::', 1)[-1]
            if c != e.cls:
                self.diffs.append('%s: %s instead of %s' % (path, c, e.cls))
                return
            self.location(o, e.span, path + ':' + c, e.within)
            for spec in self.d.attrs(c):
                if spec[0] not in e.f:
                    raise AnalysisBroken('no expectation for %s.%s' % (c, spec[0]))
                x = self.d.attr(o, spec)
                w = e.f[spec[0]]
                if spec[0] == 'kind' and isinstance(x, int):
                    x = (self.d.ops if c == 'Operation' else self.d.bts).get(x, x)
                self.cmp(w, x, '%s.%s' % (path, spec[0]))
            return
        if isinstance(e, G.B):
            o = self.d.node(v)
            if not isinstance(o, Obj) or not self.I.is_child(o) or self.origin(o) != (e.slot, e.i):
                self.diffs.append('%s: %s instead of the subphrase at token %d' % (
                    path, getattr(o, 'tag', None) or o, e.slot))
            return
        if e is None:
            o = self.d.node(v)
            if o is not None:
                self.diffs.append('%s: unexpected %r' % (path, o))
            return
        w = self.want(e)
        x = self.scalar(v)
        if w != x or isinstance(w, bool) != isinstance(x, bool):
            self.diffs.append('%s: %r instead of %r' % (path, x, w))

    def origin(self, o):
        t = o.tag
        while t[0] == 'clone':
            t = t[1]
        return t[1:]

    def location(self, o, span, path, within=None):
        r = self.I.call_method(o, 'getLocation')
        self.range(r, span, path, within)

    def range(self, r, span, path, within=None):
        if isinstance(r, Cell):
            r = r.v
        b, e = r.get('begin'), r.get('end')

        def xy(p):
            return p.get('line'), p.get('column')
        try:
            (bl, bc), (el, ec) = xy(b), xy(e)
        except KeyError:
            raise Unsupported('source position fields')
        if span is not None:
            want = ((1, 10 * span[0] + 1), (1, 10 * span[1] + 5))
            if ((bl, bc), (el, ec)) != want:
                self.locs.append('%s: location %s-%s instead of tokens %d..%d' % (path, tname(bc), tname(ec), *span))
            else:
                self.locs.append(None)
            return
        within = within or self.within
        lo, hi = 10 * within[0] + 1, 10 * within[1] + 5
        if not all(isinstance(x, int) for x in (bl, bc, el, ec)):
            raise Unsupported('abstract location')
        if bl == 0 and el == 0 and path.endswith(':Root'):
            self.locs.append(None)
            return
        if (bl, bc) > (el, ec):
            self.locs.append('%s: location ends (%s) before it begins (%s)' % (path, tname(ec), tname(bc)))
        elif bl != 1 or el != 1 or bc < lo or ec > hi:
            self.locs.append('%s: location %s-%s outside of the phrase' % (path, tname(bc), tname(ec)))
        else:
            self.locs.append(None)


def tname(c):
    if isinstance(c, int):
        return '%s of token %d' % ('start' if c % 10 == 1 else 'end', c // 10)
    return str(c)


# ---------------------------------------------------------------- runs
class Outcome:
    def __init__(self, kind, msg='', I=None, value=None):
        self.kind, self.msg, self.I, self.value = kind, msg, I, value


def make_slots(E, syms, variants, payload='same'):
    slots, blobs = [], {}
    vi = 0
    for s in syms:
        if s.t == 't':
            text = None
            if s.text == 'NAME' or (s.text == 'SAME' and payload == 'same'):
                text = tuple('NAME')
            elif s.text and s.text != 'SAME':
                text = tuple(s.text)
            slots.append(Slot(frozenset([E.tk[s.name]]), 'tok', s, text))
        else:
            first = {E.tk[k] for k in E.g.symfirst(s)}
            second = frozenset(E.kn) - {E.tk[x] for x in E.never}
            if s.second:
                ks = frozenset(E.tk[k] for k in s.second[1])
                second = second - ks if s.second[0] else ks
            v = variants[vi] if vi < len(variants) else 0
            vi += 1
            blobs[len(slots)] = (s, v, False)
            slots.append(Slot(frozenset(first), 'blob', s))
            slots.append(Slot(second, 'blob2', s))
    return slots, blobs


def run_phrase(E, nt, slots, blobs, args, uidx=None, o=None, eof=False):
    """One abstract path of the parsing function of nt on the stream."""
    r = run_phrase1(E, nt, slots, blobs, args, uidx, o, eof)
    if r.kind != 'expand':
        for p in sorted(blobs):
            k = r.I.slots[p + 1].kinds
            if isinstance(k, AbsEnum) and k.s != slots[p + 1].kinds:
                # the decision depends on the second token: spell the phrase out
                k = r.I.slot(p).kinds
                r.kind, r.msg = 'expand', 'token by token: depends on the second token'
                r.slot, r.kinds = p, {E.kn[v] for v in (k.s if isinstance(k, AbsEnum) else k)}
                break
    return r


def run_phrase1(E, nt, slots, blobs, args, uidx, o, eof):
    I = PI(E, o, [Slot(s.kinds, s.role, s.sym, s.text) for s in slots], blobs, 3)
    I.slots0 = list(slots)
    I.uidx = uidx
    I.eof = eof
    I.called = set()
    I.failed_sub = False
    try:
        P = construct_parser(E, I)
        f = E.fn[G.ENTRY[nt]]
        r = I.call_fn(f, P, [Cell(a) for a in args])
        if isinstance(r, Cell):
            r = r.v
        if not isinstance(r, OptV):
            raise Unsupported('result %r' % (r,))
        return Outcome('ok' if r.c is not None else 'fail', '', I, r.c.v if r.c else None)
    except NeedExpand as x:
        k = I.slot(x.slot).kinds
        r = Outcome('expand', str(x), I)
        r.slot, r.kinds = x.slot, {E.kn[v] for v in (k.s if isinstance(k, AbsEnum) else k)}
        return r
    except Stop as s:
        return Outcome(s.kind, s.msg, I)
    except Trap as t:
        if 'no termination' in str(t):
            return Outcome('hang', 'does not terminate: ' + str(t), I)
        return Outcome('trap', str(t), I)


def construct_parser(E, I):
    """Run the parser's own constructor on the abstract stream."""
    r = E.P.rec[PARSER]
    cs = [m for m in r['methods'] if m.get('kind') == 'ctor' and m['id'] in E.P.fn]
    if len(cs) != 1:
        raise AnalysisBroken('%d constructors of the parser' % len(cs))
    f = E.P.fn[cs[0]['id']]
    cells = []
    for p in f['p']:
        cells.append(Cell(Tok('arg', base_type(p['t']))))
    o = I.new_obj(PARSER)
    for c, fd in E.P.fields(PARSER):
        if 'lexer::Lexer<' in fd['t']:
            o.f[c + '::' + fd['n']].v = Tok('lexer')
    I.this_parser = o
    I.run_ctor(o, f, cells)
    I.look = I.scanned
    return o


# ---------------------------------------------------------------- exploration
def syms_of(steps):
    return [x for x in steps if isinstance(x, Sym)]


def describe(steps):
    return ' '.join(map(repr, syms_of(steps))) or '(nothing)'


def second(E, w, r):
    """The word w with its second token restricted by r, if it has one."""
    ls = [k for k, x in enumerate(w) if isinstance(x, Sym)]
    if len(ls) < 2:
        return None
    g = w[ls[1]]
    ok = frozenset(k for k in E.g.symfirst(g) if (k in r[1]) != r[0])
    if not ok:
        return None
    w = list(w)
    if g.t == 'n':
        w[ls[1]] = Sym('n', g.name, g.text, (False, ok), g.second, g.label)
    return w


def leftwords(E, s, allowed, terminal, per=2, depth=0):
    """Small words of the nonterminal s starting with each of the allowed kinds; with `terminal`, spelled out until
    the first token."""
    cnt = dict.fromkeys(allowed, 0)
    out, seen = [], []
    if depth > 24:
        raise Unsupported('left recursion')
    for cost in range(4):
        for w, done in E.g.walks(s.name, cost):
            if not done:
                continue
            w = list(w)
            ls = [k for k, x in enumerate(w) if isinstance(x, Sym)]
            if not ls or syms_keys(w) in seen:
                continue
            f = w[ls[0]]
            fk = E.g.symfirst(f) & allowed
            if not fk or all(cnt[k] >= per for k in fk):
                continue
            seen.append(syms_keys(w))
            if f.t == 't':
                ws = [w]
            else:
                n = Sym('n', f.name, f.text, (False, frozenset(fk)), s.second if len(ls) == 1 or not terminal else f.second,
                        f.label)
                if terminal:
                    ws = [w[:ls[0]] + [('open', f.name, f.label)] + x + [('close', f.name, f.label)] + w[ls[0] + 1:]
                          for x in leftwords(E, n, frozenset(fk), True, 1 if depth else per, depth + 1)]
                else:
                    w[ls[0]] = n
                    ws = [w]
            if s.second and (f.t == 't' or terminal):
                ws = [y for y in (second(E, x, s.second) for x in ws) if y]
            for x in ws:
                out.append(x)
                first = next(y for y in x if isinstance(y, Sym))
                for k in E.g.symfirst(first) & fk:
                    cnt[k] += 1
        if all(cnt.values()) and cost:
            break
    if not s.second and not all(cnt.values()):
        raise Unsupported('no small word of %s starts with %s' % (s.name, sorted(k for k in cnt if not cnt[k])[0]))
    return out


def expansions(E, steps, slot, kinds, terminal):
    """Spell the opaque phrase at token `slot` out in every (small) way."""
    at, i = 0, None
    for j, x in enumerate(steps):
        if isinstance(x, Sym):
            if at == slot:
                i = j
                break
            at += 1 if x.t == 't' else 2
    s = steps[i]
    if s.t == 't':
        raise Unsupported('cannot spell out a token')
    return [list(steps[:i]) + [('open', s.name, s.label)] + w + [('close', s.name, s.label)] + list(steps[i + 1:])
            for w in leftwords(E, s, frozenset(kinds), terminal)]


def syms_keys(steps):
    return [x.key if isinstance(x, Sym) else x for x in steps]


def variants_of(steps):
    bl = [x for x in syms_of(steps) if x.t == 'n']
    base = [0] * len(bl)
    yield tuple(base)
    for i, s in enumerate(bl):
        for v in range(1, len(G.LISTS.get(s.name, G.PAIRS.get(s.name, [0])))):
            b = list(base)
            b[i] = v
            yield tuple(b)


class Explorer:
    def __init__(self, chk, which):
        self.chk, self.which = chk, which
        self.E = env()
        self.nexp = 0
        self.spelled = set()    # tokens whose opaque phrase was not parsed by its own function

    def ob(self, cat, kind, key, ok, msg=''):
        if cat in self.which:
            self.chk.ok(kind, key, ok, msg)

    def outcomes(self, steps, run, key, depth=0):
        """Outcomes of run(steps) over all abstract paths, spelling opaque phrases out on demand."""
        pend = {}
        for o, r in paths(lambda o: run(steps, o), 3000):
            self.chk.paths += 1
            if r.kind != 'expand':
                yield steps, r
                continue
            k = (r.slot, 'token by token' in r.msg)
            pend.setdefault(k, [set(), r.msg])[0].update(r.kinds)
        for (slot, terminal), (kinds, why) in sorted(pend.items()):
            self.nexp += 1
            if not depth and not terminal:
                self.spelled.add(slot)
            if depth >= 4 or self.nexp > 4000:
                raise Unsupported('phrase parsed in an unexpected way: %s' % why)
            for s in expansions(self.E, steps, slot, kinds, terminal):
                yield from self.outcomes(s, run, key, depth + 1)

    def guard(self, kind, key, f):
        try:
            f()
        except Unsupported as e:
            self.chk.undecided(kind, key, e)

    def phrase(self, nt, cost, part=0, parts=1):
        E, g = self.E, self.E.g
        nfa, s0, fin = g.nfa(nt)
        f = E.fn[G.ENTRY[nt]]
        argss = G.ARGS.get(nt, [[]])
        if len(f['p']) != len(argss[0]):
            self.chk.undecided('phrase', nt, 'unexpected signature of ' + f['n'])
            return
        seen = set()
        words = set()
        cnt = 0
        for steps, done in itertools.chain([((), False)], g.walks(nt, cost)):
            k = tuple(x.key for x in syms_of(steps))
            mine = words if done else seen
            if k in mine:
                continue
            mine.add(k)
            cnt += 1
            if cnt % parts != part:
                continue
            if done:
                self.guard('rejection', '%s: %s misnamed' % (nt, describe(steps)),
                           lambda: self.misnamed(nt, steps, argss[0]))
                for a in argss:
                    self.guard('phrase', '%s: %s' % (nt, describe(steps)), lambda: self.accept(nt, steps, a))
            else:
                key = '%s: %s' % (nt, describe(steps))
                self.guard('rejection', key, lambda: self.reject(nt, steps, argss[0]))
                self.guard('rejection', key + ' 2', lambda: self.reject2(nt, steps, argss[0]))
                if steps and steps[-1].t == 'n':
                    self.guard('rejection', key, lambda: self.subfail(nt, steps, argss[0]))

    def misnamed(self, nt, steps, args):
        """The closing name differs from the opening one."""
        E = self.E
        if not any(x.text == 'SAME' for x in syms_of(steps)):
            return

        def where(st):
            i = 0
            for x in syms_of(st):
                if x.text == 'SAME':
                    return i
                i += 1 if x.t == 't' else 2
        key = '%s: %s with another closing name' % (nt, describe(steps))
        bad = {}

        def run(st, o):
            slots, blobs = make_slots(E, syms_of(st), (), 'other')
            slots.append(Slot(frozenset(E.tk[k] for k in E.g.follow[nt]), 'after'))
            return run_phrase(E, nt, slots, blobs, args, o=o)
        for st, r in self.outcomes(list(steps), run, key):
            if r.kind in ('trap', 'hang'):
                bad.setdefault('robust', []).append(r.msg)
            elif r.kind != 'fail':
                bad.setdefault('language', []).append('accepts a closing name other than the opening one')
            elif not r.I.errors:
                bad.setdefault('robust', []).append('fails without reporting an error')
            elif r.I.errors[0] != (1, 10 * where(st) + 1):
                bad.setdefault('robust', []).append('the error is not located at the closing name')
        self.ob('language', 'rejection', key, not bad.get('language'), '; '.join(bad.get('language', [])[:4]))
        self.ob('robust', 'rejection', key, not bad.get('robust'), '; '.join(bad.get('robust', [])[:4]))

    def subset(self, nt, steps):
        g = self.E.g
        nfa, s0, fin = g.nfa(nt)
        S = g.closure(nfa, {s0})
        amb = False
        for x in syms_of(steps):
            prev = S
            S = g.step(nfa, S, x.key)
            amb = False
            fs = g.symfirst(x)
            for y in g.next_syms(nfa, prev):
                if y.key != x.key and (x.t == 't' and y.t == 'n' or x.t == 'n' and y.t == 't') and \
                        (g.symfirst(y) & fs):
                    amb = True
        return S, fin in S, amb, nfa

    def accept(self, nt, steps, args):
        E, g = self.E, self.E.g
        S, acc, amb, nfa = self.subset(nt, steps)
        follow = g.follow[nt] - g.next_kinds(nfa, S)
        last = syms_of(steps)[-1] if syms_of(steps) else None
        if last is not None and last.t == 'n':
            follow = follow - g.greedy[last.name]
        if not follow:
            return
        key0 = '%s: %s' % (nt, describe(steps))
        if nt in G.ARGS:
            key0 += ' %s' % args
        word = list(steps)
        for vs in variants_of(steps):

            def run(st, o):
                slots, blobs = make_slots(E, syms_of(st), vs if st == word else ())
                slots.append(Slot(frozenset(E.tk[k] for k in follow), 'after'))
                r = run_phrase(E, nt, slots, blobs, args, o=o)
                r.n = len(slots) - 1
                return r
            bad = {}
            for st, r in self.outcomes(word, run, key0):
                vv = vs if st == word else ()
                self.judge_accept(nt, st, vv, r, args, key0, bad)
            k = key0 + (' %s' % (vs,) if any(vs) else '')
            for cat, kind in (('language', 'phrase'), ('robust', 'phrase'), ('tree', 'tree'), ('location', 'location')):
                m = bad.get(cat, [])
                self.ob(cat, kind, k, not m, '; '.join(m[:4]))

    def judge_accept(self, nt, st, vs, r, args, key, bad):
        self.chk.visited(r.I.visited, self.E.P)
        if r.kind in ('trap', 'hang'):
            bad.setdefault('robust', []).append(r.msg)
            bad.setdefault('language', []).append(r.msg)
            return
        if r.kind == 'fail':
            bad.setdefault('language', []).append('rejects the phrase at %s' % self.seen(r))
            if not r.I.errors:
                bad.setdefault('robust', []).append('fails without reporting an error')
            return
        if r.kind != 'ok':
            bad.setdefault('language', []).append(r.msg)
            return
        if r.I.pos() != r.n:
            bad.setdefault('language', []).append('stops after %d of %d tokens' % (r.I.pos(), r.n))
            return
        if r.I.errors:
            bad.setdefault('language', []).append('reports an error on a correct phrase')
        if not ({'tree', 'location'} & set(self.which)):
            return
        t = tree(nt, st, vs)
        e = G.BUILD[nt](t) if nt != 'element' else G.b_element(t, args[0])
        I = r.I
        I.fuel = 400000
        v = r.value
        c = Cmp(I, t.span or (0, 0))
        span = None
        if isinstance(e, G.W):
            span, e = e.span, e.items
        try:
            if isinstance(v, Obj) and 'ValueWrapper<' in v.cls:
                if nt in G.EXACT and span is not None:
                    c.range(I.call_method(v, 'getLocation'), span, nt)
                v = [m for m in [self.wrapped(I, v)]][0]
            if nt in G.EXACT and isinstance(e, G.E) and t.span and e.span is None:
                pass
            c.cmp(e, v, nt)
        except Trap as x:
            c.diffs.append(str(x))
        if c.diffs:
            bad.setdefault('tree', []).extend(c.diffs)
        bl = [m for m in c.locs if m]
        if bl:
            bad.setdefault('location', []).extend(bl)

    def wrapped(self, I, v):
        r = I.call_method(v, 'getValue')
        return r.v if isinstance(r, Cell) else r

    def seen(self, r):
        return 'token %d' % r.I.pos()

    def reject(self, nt, steps, args):
        E, g = self.E, self.E.g
        S, acc, amb, nfa = self.subset(nt, steps)
        if amb:
            return
        U = g.kinds - g.next_kinds(nfa, S)
        last = syms_of(steps)[-1] if syms_of(steps) else None
        if last is not None and last.t == 'n':
            U = U - g.greedy[last.name] - G.ABSORB.get(last.name, set())
        if not steps and (g.null[nt] or nt in G.MAY_BE_EMPTY):
            U = U - g.follow[nt]
        if acc:
            U = U - g.follow[nt]
        key = '%s: %s ^' % (nt, describe(steps))
        self.spelled = set()
        self.offend(nt, list(steps), args, U, acc, key)
        bl = [i for i, x in self.blobs_of(steps)]
        if last is not None and last.t == 'n' and (bl[-1] in self.spelled or not U and self.probe(nt, steps, args, bl[-1])):
            self.inner(nt, steps, args, S, acc, nfa)

    def blobs_of(self, steps):
        i = 0
        for x in syms_of(steps):
            if x.t == 'n':
                yield i, x
            i += 1 if x.t == 't' else 2

    def probe(self, nt, steps, args, at):
        """Is the last opaque phrase parsed by another function than its own?"""
        E = self.E

        def run(o):
            slots, blobs = make_slots(E, syms_of(steps), ())
            slots.append(Slot(frozenset(E.kn) - {E.tk[x] for x in E.never}, 'after'))
            return run_phrase(E, nt, slots, blobs, args, o=o)
        return any(r.kind == 'expand' and r.slot == at and 'token by token' not in r.msg for o, r in paths(run, 500))

    def inner(self, nt, steps, args, S, acc, nfa):
        """The last opaque phrase is parsed inline: offending tokens inside of it."""
        E, g = self.E, self.E.g
        last = syms_of(steps)[-1]
        at = max(j for j, x in enumerate(steps) if x is last)
        infa, s0, fin = g.nfa(last.name)
        allowed = g.symfirst(last)
        seen = set()
        for w, done in g.walks(last.name, 2):
            w = list(w)
            ws = syms_of(w)
            if done or not ws:
                continue
            k = tuple(syms_keys(ws))
            if k in seen or not g.symfirst(ws[0]) & allowed:
                continue
            seen.add(k)
            T = g.closure(infa, {s0})
            amb = False
            for x in ws:
                prev, T = T, g.step(infa, T, x.key)
                amb = any(y.key != x.key and x.t != y.t and g.symfirst(y) & g.symfirst(x) for y in g.next_syms(infa, prev))
            if amb:
                continue
            U = g.kinds - g.next_kinds(infa, T)
            if fin in T:
                U -= g.next_kinds(nfa, S)
                if acc:
                    U -= g.follow[nt]
            if ws[-1].t == 'n':
                U = U - g.greedy[ws[-1].name] - G.ABSORB.get(ws[-1].name, set())
            st = list(steps[:at]) + [('open', last.name, last.label)] + w + [('close', last.name, last.label)] + \
                list(steps[at + 1:])
            self.offend(nt, st, args, U, acc and fin in T, '%s: %s ^ in %s' % (nt, describe(st), last.name))

    def offend(self, nt, steps, args, U, acc, key):
        """Every token of U after the beginning of a phrase."""
        E = self.E
        if not U:
            return
        bad = {}
        for eof in ((False, True) if 'EndOfFile' in U else (False,)):
            def run(st, o):
                slots, blobs = make_slots(E, syms_of(st), ())
                slots.append(Slot(frozenset([E.tk['EndOfFile']] if eof else [E.tk[k] for k in U]), 'bad'))
                r = run_phrase(E, nt, slots, blobs, args, uidx=len(slots) - 1, o=o, eof=eof)
                r.n = len(slots) - 1
                return r
            for st, r in self.outcomes(steps, run, key):
                self.judge_reject(r, acc, bad)
        self.ob('language', 'rejection', key, not bad.get('language'), '; '.join(bad.get('language', [])[:4]))
        self.ob('robust', 'rejection', key, not bad.get('robust'), '; '.join(bad.get('robust', [])[:4]))

    def reject2(self, nt, steps, args):
        """First tokens shared by alternatives: the token after them must fit one of the alternatives."""
        E, g = self.E, self.E.g
        S, acc, amb, nfa = self.subset(nt, steps)
        fin = g.nfa(nt)[2]
        by = {}
        for x in g.next_syms(nfa, S):
            if x.t == 'n':
                for k in g.symfirst(x):
                    by.setdefault(k, [])
        for x in g.next_syms(nfa, S):
            for k in g.symfirst(x):
                if k in by:
                    by[k].append(x)
        F = g.first2()
        last = syms_of(steps)[-1] if syms_of(steps) else None
        more = (g.greedy[last.name] | G.ABSORB.get(last.name, set())) if last is not None and last.t == 'n' else set()
        groups = {}
        for k, xs in by.items():
            if len(xs) < 2 or k in more:
                continue
            nxt, done = set(), False
            for x in xs:
                T = g.step(nfa, S, x.key)
                r = g.sym2(F, x, T, nfa, fin).get(k, set())
                nxt |= r - {None}
                if None in r:
                    done = True
                    nxt |= g.follow[nt]
            groups.setdefault((frozenset(nxt), done), set()).add(k)
        for (nxt, done), ks in sorted(groups.items(), key=lambda x: sorted(x[1])):
            U = g.kinds - nxt
            if not U:
                continue
            key = '%s: %s %s ^' % (nt, describe(steps), '|'.join(sorted(ks)))
            bad = {}

            def run(st, o):
                slots, blobs = make_slots(E, syms_of(st), ())
                slots.append(Slot(frozenset(E.tk[k] for k in ks), 'tok'))
                slots.append(Slot(frozenset(E.tk[k] for k in U), 'bad'))
                r = run_phrase(E, nt, slots, blobs, args, uidx=len(slots) - 1, o=o)
                r.n = len(slots) - 1
                return r
            for st, r in self.outcomes(list(steps), run, key):
                self.judge_reject(r, done, bad)
            self.ob('language', 'rejection', key, not bad.get('language'), '; '.join(bad.get('language', [])[:4]))
            self.ob('robust', 'rejection', key, not bad.get('robust'), '; '.join(bad.get('robust', [])[:4]))

    def judge_reject(self, r, acc, bad):
        self.chk.visited(r.I.visited, self.E.P)
        what = r.I.kindname(r.n)
        if r.kind in ('trap', 'hang'):
            bad.setdefault('robust', []).append('on %s: %s' % (what, r.msg))
        elif r.kind in ('accepts', 'overrun', 'reads-on'):
            bad.setdefault('language', []).append(r.msg)
        elif r.kind == 'ok':
            if not acc:
                bad.setdefault('language', []).append('accepts the incomplete phrase followed by %s' % what)
            elif r.I.pos() > r.n:
                bad.setdefault('language', []).append('consumes %s' % what)
        else:
            if not r.I.errors:
                bad.setdefault('robust', []).append('fails on %s without reporting an error' % what)
            elif r.I.errors[0] != (1, 10 * r.n + 1):
                bad.setdefault('robust', []).append('the error on %s is not located there (%s)' % (what, r.I.errors[0]))

    def subfail(self, nt, steps, args):
        E = self.E
        key = '%s: %s fails' % (nt, describe(steps))
        bad = {}

        def run(st, o, eof):
            slots, blobs = make_slots(E, syms_of(st), ())
            b = max(blobs)
            blobs[b] = (blobs[b][0], 0, True)
            r = run_phrase(E, nt, slots, blobs, args, o=o, eof=eof)
            r.n = b
            return r
        steps = list(steps)
        for eof in (False, True):
            for o, r in paths(lambda o: run(steps, o, eof), 3000):
                self.chk.paths += 1
                if r.kind == 'expand':
                    continue
                if r.kind in ('trap', 'hang'):
                    bad.setdefault('robust', []).append(r.msg)
                elif r.kind != 'fail':
                    bad.setdefault('language', []).append('accepts although the subphrase failed')
        self.ob('language', 'propagation', key, not bad.get('language'), '; '.join(bad.get('language', [])[:4]))
        self.ob('robust', 'propagation', key, not bad.get('robust'), '; '.join(bad.get('robust', [])[:4]))
