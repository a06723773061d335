"""Tokeniser against the lexical grammar.

One step of the tokeniser (one character in, perhaps a token out) is
interpreted abstractly on a symbolic character: a character is a set of bytes
that the comparisons met on a path split.  Text, digits and positions gathered
so far are opaque.  The product with a reference tokeniser is explored until
no new abstract state appears, so the result holds for texts of any length."""
from sa.facts import AnalysisBroken, Program, srcs
from sa.interp import (Interp, Cell, Tok, Obj, ListV, StrV, OptV, UPtr, PairV, MapV, Num, Trap, Unsupported, FnV,
                       AbsEnum, UNINIT, Infeasible, IterV, base_type, paths, short, wrap)
from sa import lib
from sa.lib import VarV

NS = 'marco::parser::bmodelica::'
SM = NS + 'StateMachine'
TOKEN = NS + 'Token'
FL = 'marco::lexer::FloatLexer<'
POS = 'marco::SourcePosition'

KEYWORDS = '''algorithm and annotation block break class connect connector constant constrainedby der discrete each else
elseif elsewhen encapsulated end enumeration equation expandable extends external false final flow for function if import
impure in initial inner input loop model not operator or outer output package parameter partial protected public pure
record redeclare replaceable return stream then true type when while within'''.split()
SYMBOLS = {'+': 'Plus', '.+': 'PlusEW', '-': 'Minus', '.-': 'MinusEW', '*': 'Product', '.*': 'ProductEW', '/': 'Division',
           './': 'DivisionEW', '^': 'Pow', '.^': 'PowEW', '.': 'Dot', '==': 'Equal', '<>': 'NotEqual', '<': 'Less',
           '<=': 'LessEqual', '>': 'Greater', '>=': 'GreaterEqual', ',': 'Comma', ';': 'Semicolon', ':': 'Colon',
           '(': 'LPar', ')': 'RPar', '[': 'LSquare', ']': 'RSquare', '{': 'LCurly', '}': 'RCurly',
           '=': 'EqualityOperator', ':=': 'AssignmentOperator'}
ESC = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11}


def bytes_of(s):
    return frozenset(map(ord, s))


DIGIT = bytes_of('0123456789')
ALPHA = bytes_of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_')
SPACE = bytes_of(' \t\n\v\f\r')
ALL = frozenset(range(256))
NUL = frozenset([0])
SIGNED0 = tuple(b - 256 if b > 127 else b for b in range(256))
NAMES = {'isspace': lambda v: v in (9, 10, 11, 12, 13, 32), 'isdigit': lambda v: 48 <= v <= 57,
         'isalpha': lambda v: 65 <= v <= 90 or 97 <= v <= 122, 'isupper': lambda v: 65 <= v <= 90,
         'islower': lambda v: 97 <= v <= 122, 'isalnum': lambda v: 48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122,
         'isblank': lambda v: v in (9, 32), 'iscntrl': lambda v: 0 <= v < 32 or v == 127,
         'isprint': lambda v: 32 <= v < 127, 'isgraph': lambda v: 32 < v < 127,
         'ispunct': lambda v: 32 < v < 127 and not chr(v).isalnum(),
         'isxdigit': lambda v: 0 <= v < 128 and chr(v) in '0123456789abcdefABCDEF',
         'tolower': lambda v: v + 32 if 65 <= v <= 90 else v, 'toupper': lambda v: v - 32 if 97 <= v <= 122 else v}
LLVM = {'isDigit': 'isdigit', 'isAlpha': 'isalpha', 'isAlnum': 'isalnum', 'isSpace': 'isspace', 'isUpper': 'isupper',
        'isLower': 'islower', 'isPrint': 'isprint', 'isPunct': 'ispunct', 'isHexDigit': 'isxdigit', 'toLower': 'tolower',
        'toUpper': 'toupper'}


class Sym:
    """One input character: the set of bytes it may be on this path."""

    def __init__(self, name, dom):
        self.name, self.dom = name, dom


class Map:
    """A function of a byte (None where it was not evaluated)."""
    pool = {}
    __slots__ = ('v', 'true', 'ops', 'cls')

    def __init__(self, v):
        self.v = v
        self.true = frozenset(b for b in range(256) if v[b])
        self.ops = {}
        g = {}
        for b in range(256):
            g.setdefault(v[b], set()).add(b)
        self.cls = [(x, frozenset(s)) for x, s in g.items()]

    @classmethod
    def of(cls, v):
        v = tuple(v)
        k = (v, tuple(map(type, v)))
        m = cls.pool.get(k)
        if m is None:
            m = cls.pool[k] = cls(v)
        return m

    def __getitem__(self, b):
        return self.v[b]

    def __iter__(self):
        return iter(self.v)


class ChV(Num):
    """A function of one input character."""
    __slots__ = ('s', 'm')

    def __init__(self, s, m):
        self.s, self.m = s, m if isinstance(m, Map) else Map.of(m)

    def mapped(self, k, f):
        m = self.m.ops.get(k)
        if m is None:
            m = self.m.ops[k] = Map.of(None if x is None else f(x) for x in self.m)
        return ChV(self.s, m)

    def vals(self):
        return {x for x, s in self.m.cls if not s.isdisjoint(self.s.dom)}

    def norm(self):
        d = self.s.dom
        for x, s in self.m.cls:
            if d <= s:
                return x
            if not d.isdisjoint(s):
                return self
        return self

    def binop(self, I, op, y, swapped):
        x = self
        if isinstance(y, ChV):
            y2 = y.norm()
            if not isinstance(y2, ChV):
                y = y2
            elif not isinstance(x.norm(), ChV):
                x, y = x.norm(), y2
                return I.binop(op, x, y) if not swapped else I.binop(op, y, x)
            elif y.s is not x.s:
                # partition by the value of the second character
                return self.binop(I, op, I.pin(y), swapped)
        elif not isinstance(y, int):
            raise Unsupported('character %s %r' % (op, y))
        k = (op, y.m if isinstance(y, ChV) else (type(y), y), swapped)
        m = x.m.ops.get(k)
        if m is None:
            out = []
            for b in range(256):
                u, v = x.m[b], y.m[b] if isinstance(y, ChV) else y
                if u is None or v is None or op in ('/', '%') and not (u if swapped else v):
                    out.append(None)
                else:
                    out.append(Interp.binop(I, op, v, u) if swapped else Interp.binop(I, op, u, v))
            m = x.m.ops[k] = Map.of(out)
        if None in ChV(x.s, m).vals():
            raise Unsupported('division by a character')
        return ChV(x.s, m).norm()

    def cast(self, I, ck, t):
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            return self.mapped(('cast', t), lambda x: wrap(int(x), t)).norm()
        return NotImplemented

    def const(self, I):
        return I.pin(self)

    def key(self):
        n = self.norm()
        return n if not isinstance(n, ChV) else ('c', self.s.name, tuple(self.m[b] for b in sorted(self.s.dom)))

    def __repr__(self):
        return '%s:%s' % (self.s.name, show(self.s.dom))


def show(dom):
    s = ''.join(chr(b) if 32 < b < 127 else '\\x%02x' % b for b in sorted(dom))
    return s if len(s) < 24 else '%d bytes' % len(dom)


SIGNED = Map.of(SIGNED0)


class LinV(Num):
    """Unknown natural number plus a constant."""
    __slots__ = ('a', 'k')

    def __init__(self, a, k=0):
        self.a, self.k = a, k

    def binop(self, I, op, y, swapped):
        if isinstance(y, int):
            if op == '+':
                return LinV(self.a, self.k + y)
            if op == '-' and not swapped:
                return LinV(self.a, self.k - y)
        if isinstance(y, LinV) and y.a == self.a and not swapped:
            return Interp.binop(I, op, self.k, y.k)
        raise Unsupported('position %s' % op)

    def key(self):
        return ('l', self.a, self.k)


class Poison(Num):
    """A character that an earlier step consumed."""

    def binop(self, I, op, y, swapped):
        raise Unsupported('a character of an earlier step is read')


class LI(Interp):
    def __init__(self, P, o, universe=()):
        super().__init__(P, o, fuel=40000, ctor_hooks={c: new_number for c in P.rec if c.startswith(FL)})
        self.universe = universe
        self.texts = {}

    # ---- characters
    def split(self, s, yes):
        """Is the character in the set?  Narrows it on this path."""
        y, n = s.dom & yes, s.dom - yes
        if not n:
            return True
        if not y:
            return False
        r = self.choose(('ch', s.name, y, s.dom)) == 0
        s.dom = y if r else n
        return r

    def isin(self, c, yes):
        if isinstance(c, Sym):
            return self.split(c, yes)
        return c % 256 in yes

    def pin(self, v):
        for x in sorted(v.vals()):
            if self.split(v.s, frozenset(b for b in v.s.dom if v.m[b] == x)):
                return x
        raise AnalysisBroken('empty character')

    def truth(self, v, node=None):
        if isinstance(v, ChV):
            return self.split(v.s, v.m.true)
        return super().truth(v, node)

    def str_eq(self, a, b):
        x, y = skey(a.s), skey(b.s)
        if x == y:
            return True
        for p, q in ((x, y), (y, x)):
            if all(isinstance(c, str) for c in q):
                t = ''.join(q)
                if all(isinstance(c, str) for c in p):
                    return False
                return self.text_of(p) == t
        return super().str_eq(a, b)

    # ---- texts
    def text_of(self, k):
        """Which of the spellings of interest the text is (None: no one)."""
        if all(isinstance(c, str) for c in k):
            return ''.join(k)
        if k not in self.texts:
            u = self.universe
            i = self.choose(('text', k), len(u) + 1)
            if i and not fits(u[i - 1], k):
                raise Infeasible()
            self.texts[k] = u[i - 1] if i else None
        return self.texts[k]

    def call(self, n):
        fn = n.get('fn')
        if fn is None:
            return super().call(n)
        nm = short(fn)
        if fn.startswith(FL):
            return number(self, n, nm)
        if 'obj' not in n and (nm in NAMES and fn in (nm, 'std::' + nm) or nm in LLVM and fn == 'llvm::' + nm):
            v = self.ev(n['a'][0])
            f = NAMES[LLVM.get(nm, nm)]
            std = nm in NAMES
            if std and isinstance(v, ChV) and self.truth(v.mapped('negative', lambda x: x < -1)) or \
                    std and isinstance(v, int) and v < -1:
                raise Trap('%s is given a negative character at %s' % (fn, self.where()))
            if isinstance(v, ChV):
                g = (lambda x: f(x)) if nm in ('tolower', 'toupper', 'toLower', 'toUpper') else (lambda x: int(f(x)))
                return v.mapped(nm, g).norm()
            return int(f(v))
        if fn == 'std::to_string':
            v = self.ev(n['a'][0])
            return StrV((Tok('num'),)) if isinstance(v, Num) else StrV(str(v))
        if 'obj' in n and nm in ('find', 'count', 'contains', 'at', 'lookup', 'operator[]'):
            n = self.once_obj(n)
            o = self.ev(n['obj'])
            if isinstance(o, MapV):
                a = self.ev(n['a'][0])
                if isinstance(a, StrV) and not all(isinstance(c, str) for c in a.s):
                    t = self.text_of(skey(a.s))
                    a = StrV(tuple(t) if t is not None else ('\x00other',))
                n = dict(n, a=[{'k': 'val', 'c': Cell(a), 't': n['a'][0].get('t')}] + n['a'][1:])
        if 'obj' in n and nm in MEMBER or fn in FMEMBER:
            if 'obj' in n:
                n = self.once_obj(n)
                o, an = self.ev(n['obj']), n['a'][0] if n['a'] else None
            else:
                o, an = self.ev(n['a'][0]), n['a'][1]
            if isinstance(o, StrV) and an is not None and all(isinstance(c, str) for c in o.s):
                c = self.ev(an)
                if isinstance(c, ChV):
                    if nm in ('contains', 'is_contained', 'starts_with', 'ends_with'):
                        t = {'starts_with': o.py()[:1], 'ends_with': o.py()[-1:]}.get(nm, o.py())
                        return self.split(c.s, frozenset(b for b in c.s.dom if chr(c.m[b] % 256) in t))
                    if nm in ('find', 'find_first_of') and all(self.ev(x) == 0 for x in n['a'][1:]):
                        for i, t in enumerate(o.py()):
                            if self.split(c.s, frozenset(b for b in c.s.dom if chr(c.m[b] % 256) == t)):
                                return i
                        return (1 << 64) - 1
                    raise Unsupported('%s of an unknown character at %s' % (fn, self.where()))
        if 'obj' in n and nm in LENGTH:
            n = self.once_obj(n)
            o = self.ev(n['obj'])
            if isinstance(o, StrV) and any(isinstance(c, Tok) for c in o.s) and \
                    (nm != 'empty' or all(isinstance(c, Tok) and c.name[:1] == ('E',) for c in o.s)):
                raise Unsupported('%s of a text of unknown length at %s' % (nm, self.where()))
        return super().call(n)


MEMBER = {'contains', 'starts_with', 'ends_with', 'find', 'count', 'rfind', 'find_first_of', 'find_last_of'}
FMEMBER = {'llvm::is_contained'}
LENGTH = {'empty', 'size', 'length', 'front', 'back', 'operator[]', 'at', 'substr', 'pop_back', 'starts_with', 'ends_with', 'find',
          'begin', 'end', 'resize', 'drop_front', 'drop_back', 'compare', 'compare_lower', 'rbegin', 'rend'}


def fits(word, k):
    """Can the text be the word?"""
    n = sum(1 for c in k if not (isinstance(c, tuple) and c[0] == 't'))
    exact = n == len(k)
    if len(word) < len(k) or exact and len(word) != n:
        return False
    return True


def skey(s):
    out = []
    for c in s:
        if isinstance(c, ChV):
            c = c.norm()
            if isinstance(c, ChV):
                c = ('c', c.s.name, tuple(c.m[b] % 256 for b in sorted(c.s.dom)))
            else:
                c = chr(c % 256)
        elif isinstance(c, int):
            c = chr(c % 256)
        elif isinstance(c, Tok):
            c = ('t',) + c.name
        out.append(c)
    return tuple(out)


def dkey(s):
    """Key of a digit sequence."""
    out = []
    for c in s:
        if isinstance(c, ChV):
            c = c.key()
        elif isinstance(c, Tok):
            c = ('t',) + c.name
        out.append(c)
    return tuple(out)


# ---- numeric literals: contract of FloatLexer (decided by C17)
def new_number(I=None, e=None):
    o = Obj(FL)
    for k in ('upper', 'lower', 'exp'):
        o.f[k] = Cell(())
    o.f['sign'] = Cell(True)
    return o


def number(I, n, nm):
    o = I.ev(n['obj'])
    if not isinstance(o, Obj) or 'upper' not in o.f:
        raise Unsupported('number %r' % o)
    if nm in ('addUpper', 'addLower', 'addExponential'):
        c = o.f[{'addUpper': 'upper', 'addLower': 'lower', 'addExponential': 'exp'}[nm]]
        c.v = c.v + (I.ev(n['a'][0]),)
        return None
    if nm == 'setSign':
        o.f['sign'].v = I.truth(I.ev(n['a'][0]))
        return None
    if nm == 'reset':
        for k, c in new_number().f.items():
            o.f[k].v = c.v
        return None
    if nm == 'getUpperPart':
        return Tok('int', dkey(o.f['upper'].v))
    if nm == 'get':
        return Tok('float', dkey(o.f['upper'].v), dkey(o.f['lower'].v), dkey(o.f['exp'].v),
                   o.f['sign'].v if o.f['exp'].v else True)
    if nm == 'isUpperPartRepresentable':
        return I.fits(o.f['upper'].v) if I.concrete else I.choose(('fits', dkey(o.f['upper'].v))) == 0
    if nm == 'operator=':
        s = I.ev(n['a'][0])
        for k in o.f:
            o.f[k].v = s.f[k].v
        return Cell(o)
    raise Unsupported('FloatLexer::%s' % nm)


# ---- reference tokeniser
def f_char(b):
    return SIGNED[b]


def f_digit(b):
    return b - 48


def f_esc(b):
    return ESC.get(chr(b), SIGNED[b])


class Token:
    def __init__(self, kind, payload, begin, end):
        self.kind, self.payload, self.begin, self.end = kind, payload, begin, end

    def __repr__(self):
        return '%s%s' % (self.kind, '' if self.payload is None else '(%s)' % (self.payload,))


class Ref:
    """Longest-match tokeniser with one character of lookahead."""
    FIELDS = ('st', 'kind', 'text', 'upper', 'lower', 'exp', 'sign', 'begin', 'end', 'pos')

    def __init__(self, **kw):
        self.st, self.kind = 'N', None
        self.text = self.upper = self.lower = self.exp = ()
        self.sign = True
        self.begin = self.end = self.pos = (1, 0)
        self.__dict__.update(kw)

    def emit(self, kind, payload=None, st='N'):
        self.st, self.kind = st, None
        t = Token(kind, payload, self.begin, self.end)
        self.text = self.upper = self.lower = self.exp = ()
        self.sign = True
        return [t]

    def err(self):
        return self.emit('Error', st='ERR')

    def num(self, f):
        return Tok('float', dkey(self.upper), dkey(self.lower), dkey(self.exp), self.sign if self.exp else True)

    def step(self, I, cur, nxt, val):
        """val(c, f): the value f(byte) of character c as an interpreter value."""
        isin = I.isin
        l, c = self.pos
        self.pos = (I.binop('+', l, 1), 0) if isin(cur, NL) else (l, I.binop('+', c, 1))
        st = self.st
        if st in ('END', 'ERR'):
            return []
        if st == 'N':
            if isin(cur, SPACE):
                return []
            self.begin = self.pos
            self.end = self.pos
            if isin(cur, NUL):
                return self.emit('EndOfFile', st='END')
            if isin(cur, ALPHA) or isin(cur, DOLLAR) and isin(nxt, ALPHA):
                self.st = st = 'ID'
            elif isin(cur, DIGIT):
                self.st = st = 'NUM'
            elif isin(cur, SQ):
                self.st = 'Q'
                return self.eof(I, nxt)
            elif isin(cur, DQ):
                self.st = 'S'
                return self.eof(I, nxt)
            elif isin(cur, SLASH) and isin(nxt, SLASH):
                self.st = 'LC'
                return []
            elif isin(cur, SLASH) and isin(nxt, STAR):
                self.st = 'BC0'
                return []
            else:
                return self.symbol(I, cur, nxt)
        self.end = self.pos
        if st == 'ID':
            self.text += (val(cur, f_char),)
            if isin(nxt, ALPHA | DIGIT):
                return []
            k = I.text_of(skey(self.text))
            if k in KEYWORDS:
                return self.emit(k)
            return self.emit('Identifier', skey(self.text))
        if st in ('Q', 'S'):
            if isin(cur, BACK):
                self.st = st + 'b'
                return self.eof(I, nxt)
            if isin(cur, SQ if st == 'Q' else DQ):
                return self.emit('Identifier' if st == 'Q' else 'String', skey(self.text))
            self.text += (val(cur, f_char),)
            return self.eof(I, nxt)
        if st in ('Qb', 'Sb'):
            self.text += (val(cur, f_esc),)
            self.st = st[0]
            return self.eof(I, nxt)
        if st == 'NUM':
            self.upper += (val(cur, f_digit),)
            if isin(nxt, DIGIT):
                return []
            if isin(nxt, DOT):
                self.st = 'DOT'
                return []
            if isin(nxt, EE):
                self.st = 'E'
                return []
            if I.choose(('fits', dkey(self.upper))) if not I.concrete else not I.fits(self.upper):
                return self.err()
            return self.emit('Integer', Tok('int', dkey(self.upper)))
        if st in ('DOT', 'FRAC'):
            if st == 'FRAC':
                self.lower += (val(cur, f_digit),)
            if isin(nxt, DIGIT):
                self.st = 'FRAC'
                return []
            if isin(nxt, EE):
                self.st = 'E'
                return []
            return self.emit('FloatingPoint', self.num(I))
        if st == 'E':
            if isin(nxt, DIGIT):
                self.st = 'EXP'
                return []
            if isin(nxt, SIGN):
                self.st = 'SIGN'
                return []
            return self.err()
        if st == 'SIGN':
            self.sign = isin(cur, PLUS)
            if isin(nxt, DIGIT):
                self.st = 'EXP'
                return []
            return self.err()
        if st == 'EXP':
            self.exp += (val(cur, f_digit),)
            if isin(nxt, DIGIT):
                return []
            return self.emit('FloatingPoint', self.num(I))
        if st == 'LC':
            if isin(cur, NL) or isin(nxt, NUL):
                self.st = 'N'
            return []
        if st == 'BC0':
            self.st = 'BC'
            return self.eof(I, nxt)
        if st == 'BC':
            if isin(cur, STAR) and isin(nxt, SLASH):
                self.st = 'BC1'
                return []
            return self.eof(I, nxt)
        if st == 'BC1':
            self.st = 'N'
            return []
        if st == 'SYM':
            return self.emit(self.kind)
        raise AnalysisBroken('reference state ' + st)

    def eof(self, I, nxt):
        """Inside of a delimited token: the text must not end here."""
        return self.err() if I.isin(nxt, NUL) else []

    def symbol(self, I, cur, nxt):
        for s, k in SYMBOLS.items():
            if len(s) == 2 and I.isin(cur, bytes_of(s[0])) and I.isin(nxt, bytes_of(s[1])):
                self.st, self.kind = 'SYM', k
                return []
        for s, k in SYMBOLS.items():
            if len(s) == 1 and I.isin(cur, bytes_of(s)):
                return self.emit(k)
        return self.err()


NL, DOLLAR, SQ, DQ, SLASH, STAR, BACK, DOT, EE, SIGN, PLUS = map(bytes_of, ('\n', '$', "'", '"', '/', '*', '\\', '.', 'eE', '+-', '+'))


# ---- the code under analysis
class Env:
    def __init__(self):
        self.P = P = Program(srcs('lib/Parser/BaseModelica/*.cpp', 'lib/Lexer/*.cpp'))
        if SM not in P.rec:
            raise AnalysisBroken('no class ' + SM)
        self.kinds = {n: v for n, v in P.enum[NS + 'TokenKind']['v']}
        low = {n.lower(): v for n, v in self.kinds.items()}
        self.code = {}
        for k in ['EndOfFile', 'Error', 'Identifier', 'Integer', 'FloatingPoint', 'String'] + list(SYMBOLS.values()):
            self.code[k] = self.kinds[k]
        for k in KEYWORDS:
            if k not in low:
                raise AnalysisBroken('no token kind for the keyword ' + k)
            self.code[k] = low[k]
        self.name = {v: k for k, v in self.code.items()}
        self.step = P.one(SM + '::step')

    def machine(self, I, first):
        r = self.P.rec[SM]
        cs = [m for m in r['methods'] if m.get('kind') == 'ctor' and m['id'] in self.P.fn]
        if len(cs) != 1:
            raise AnalysisBroken('%d constructors of the state machine' % len(cs))
        f = self.P.fn[cs[0]['id']]
        cells = []
        for p in f['p']:
            cells.append(Cell(first if base_type(p['t']) == 'char' else UPtr(Tok('file'), True)))
        return I.construct_with(SM, f, cells)

    def token(self, I, t):
        """The token as the reference describes it."""
        kind = I.call_method(t, 'getKind')
        kind = kind.v if isinstance(kind, Cell) else kind
        if isinstance(kind, AbsEnum) or kind not in self.name:
            return Token('kind %r' % kind, None, None, None)
        k = self.name[kind]
        pl = None
        g = {'Identifier': 'getString', 'String': 'getString', 'Integer': 'getInt', 'FloatingPoint': 'getFloat'}.get(k)
        if g:
            pl = payload(lib.V(I.call_method(t, g)))
        return Token(k, pl, *self.range(I, lib.V(I.call_method(t, 'getLocation'))))

    def range(self, I, r):
        return tuple((x.get('line'), x.get('column')) for x in (r.get('begin'), r.get('end')))


def payload(v):
    if isinstance(v, StrV):
        return skey(v.s)
    return v


def pk(p):
    """Comparable form of a position."""
    return tuple(x.key() if isinstance(x, LinV) else x for x in p) if p is not None else None


def diff(a, b, getters=True):
    """Why the produced token a is not the expected token b."""
    if a.kind != b.kind:
        return 'token %s instead of %s' % (a.kind, b.kind)
    if b.kind == 'EndOfFile':
        return None
    if b.payload is not None and a.payload != b.payload:
        return 'the value of the %s token is not that of its text' % b.kind
    if pk(a.begin) != pk(b.begin):
        return 'the location of the %s token does not begin at its first character' % b.kind
    if b.kind != 'Error' and pk(a.end) != pk(b.end):
        return 'the location of the %s token does not end at its last character' % b.kind
    return None


GETTER = {'Identifier': 'getIdentifier', 'String': 'getString', 'Integer': 'getInt', 'FloatingPoint': 'getFloat'}


def observers(E, I, o, t):
    """The state machine's own observers right after token t."""
    g = GETTER.get(t.kind)
    if g and payload(lib.V(I.call_method(o, g))) != t.payload:
        return '%s() differs from the value of the %s token just found' % (g, t.kind)
    if t.kind not in ('EndOfFile', 'Error'):
        b, e = E.range(I, lib.V(I.call_method(o, 'getTokenPosition')))
        if pk(b) != pk(t.begin) or pk(e) != pk(t.end):
            return 'getTokenPosition() differs from the location of the %s token just found' % t.kind
    return None


# ---- concrete texts: validation of abstract counterexamples
class CI(LI):
    concrete = True

    def fits(self, ds):
        return int(''.join(map(str, ds))) < 1 << 63


class AI(LI):
    concrete = False


def text_tokens(E, s, limit=200):
    """Tokens of a given text, by interpretation; (tokens, reference tokens, failure)."""
    I = CI(E.P, None)
    b = list(s) + [0]
    I.cur_digits = None
    got, want = [], []
    errors = 0
    ref = Ref()
    i, fail = 0, None
    val = lambda c, f: f(c % 256)
    sg = [SIGNED[x] for x in b]
    try:
        o = E.machine(I, sg[0])
        n = 0
        while n < limit + len(s):
            n += 1
            cur = sg[min(i, len(sg) - 1)]
            i = min(i + 1, len(sg) - 1)
            I.fuel = I.fuel0
            r = I.call_fn(E.step, o, [Cell(sg[i])])
            r = lib.V(r)
            if ref.st not in ('END', 'ERR'):
                want += ref.step(I, cur, sg[i], val)
            if isinstance(r, OptV) and r.c is not None:
                t = E.token(I, r.c.v)
                if t.kind == 'EndOfFile' and errors:
                    break
                if not errors:
                    got.append(t)
                if t.kind == 'EndOfFile':
                    break
                if t.kind == 'Error':
                    errors += 1
                if errors:
                    continue
                w = observers(E, I, o, t)
                if w:
                    fail = w
                    break
        else:
            fail = 'no further token after %d steps' % n
    except Trap as e:
        fail = str(e)
    return got, want, fail, I


def judge_text(E, s):
    """None, or what is wrong with the tokens of the text."""
    got, want, fail, I = text_tokens(E, s)
    for a, b in zip(got, want):
        d = diff(a, b)
        if d:
            return d
    if fail:
        return fail
    if len(got) != len(want):
        return '%d tokens instead of %d' % (len(got), len(want))
    return None


# ---- abstract states
class Frz:
    """Snapshot of a product state with canonical names."""

    def __init__(self, nsym):
        self.n = nsym
        self.atoms = {}
        self.pos = {}

    def text(self, s, key):
        k = key(s)
        if not k:
            return ('s', k)
        # one name per value; texts are not empty
        return ('a', self.atoms.setdefault((key is dkey, k), len(self.atoms)))

    def position(self, p):
        if p is None:
            return None
        k = pk(p)
        if any(isinstance(x, Num) or not isinstance(x, int) for x in p) or k != (1, 0):
            return ('p', self.pos.setdefault(k, len(self.pos)))
        return ('p', self.pos.setdefault(k, len(self.pos)))

    def val(self, v):
        if isinstance(v, Obj):
            if 'upper' in v.f:
                return ('num', tuple(self.text(v.f[k].v, dkey) for k in ('upper', 'lower', 'exp')), ('b', v.f['sign'].v))
            if v.cls == POS:
                return ('pos', self.position((v.get('line'), v.get('column'))))
            return ('obj', v.cls, tuple((k, self.val(c.v)) for k, c in v.f.items()))
        if isinstance(v, StrV):
            return ('str', self.text(v.s, skey))
        if isinstance(v, ChV):
            if v.s is self.n:
                if all(v.m[b] == SIGNED[b] for b in v.s.dom):
                    return ('next',)
                return ('nextf', tuple((b, v.m[b]) for b in sorted(v.s.dom)))
            return ('old',)
        if isinstance(v, Poison):
            return ('old',)
        if isinstance(v, UPtr):
            return ('file',)
        if isinstance(v, MapV):
            return ('map', v)
        if isinstance(v, OptV):
            return ('opt', None if v.c is None else self.val(v.c.v))
        if v is UNINIT or v is None or isinstance(v, (bool, int)):
            return ('k', v)
        raise Unsupported('field value %r' % (v,))

    def ref(self, r):
        if r is None:
            return None
        return (r.st, r.kind, self.text(r.text, skey), self.text(r.upper, dkey), self.text(r.lower, dkey),
                self.text(r.exp, dkey), r.sign, self.position(r.begin), self.position(r.end), self.position(r.pos))

    def payload(self, p):
        if isinstance(p, Tok) and p.name[0] == 'int':
            return ('int', self.tkey(p.name[1], True))
        if isinstance(p, Tok):
            return ('float',) + tuple(self.tkey(x, True) for x in p.name[1:4]) + (p.name[4],)
        if isinstance(p, tuple):
            return ('txt', self.tkey(p, False))
        return p

    def tkey(self, k, digits):
        if not k:
            return ('s', ())
        return ('a', self.atoms.setdefault((digits, k), len(self.atoms)))

    def tok(self, t):
        return (t.kind, self.payload(t.payload), self.position(t.begin), self.position(t.end))


class Thaw:
    def __init__(self, nsym):
        self.n = nsym

    def text(self, t):
        return t[1] if t[0] == 's' else (Tok('E' if t[0] == 'e' else 'T', t[1]),)

    def position(self, p):
        return (LinV('l%d' % p[1]), LinV('c%d' % p[1])) if p is not None else None

    def val(self, t):
        k = t[0]
        if k == 'num':
            o = new_number()
            for n, x in zip(('upper', 'lower', 'exp'), t[1]):
                o.f[n].v = self.text(x)
            o.f['sign'].v = Tok('sign') if t[2][1] is None else t[2][1]
            return o
        if k == 'pos':
            o = Obj(POS)
            l, c = self.position(t[1])
            o.f[POS + '::file'] = Cell(UPtr(Tok('file'), True))
            o.f[POS + '::line'] = Cell(l)
            o.f[POS + '::column'] = Cell(c)
            return o
        if k == 'obj':
            o = Obj(t[1])
            for n, x in t[2]:
                o.f[n] = Cell(self.val(x))
            return o
        if k == 'str':
            return StrV(self.text(t[1]))
        if k == 'next':
            return ChV(self.n, SIGNED)
        if k == 'nextf':
            d = dict(t[1])
            return ChV(self.n, tuple(d.get(b) for b in range(256))).norm()
        if k == 'old':
            return Poison()
        if k == 'file':
            return UPtr(Tok('file'), True)
        if k == 'map':
            return t[1]
        if k == 'opt':
            return OptV(None if t[1] is None else Cell(self.val(t[1])))
        return t[1]

    def ref(self, t):
        if t is None:
            return None
        return Ref(st=t[0], kind=t[1], text=self.text(t[2]), upper=self.text(t[3]), lower=self.text(t[4]),
                   exp=self.text(t[5]), sign=t[6], begin=self.position(t[7]), end=self.position(t[8]),
                   pos=self.position(t[9]))

    def tkey(self, t):
        return tuple(('t',) + c.name for c in self.text(t))

    def payload(self, p):
        if not isinstance(p, tuple):
            return p
        if p[0] == 'int':
            return Tok('int', self.tkey(p[1]))
        if p[0] == 'float':
            return Tok('float', *[self.tkey(x) for x in p[1:4]], p[4])
        return self.tkey(p[1])

    def tok(self, t):
        return Token(t[0], self.payload(t[1]), self.position(t[2]), self.position(t[3]))


# A snapshot is a tree; its leaves ('s', text), ('a', n) and ('p', n) are the
# slots that a join may relate less precisely, everything else is the location.
SLOT = ('?',)


def locate(st):
    slots = []

    def w(t):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] in ('s', 'a', 'e', 'p', 'b') and not isinstance(t[1], tuple) or t[:1] == ('s',) and len(t) == 2:
                slots.append(t)
                return t[0] if t[0] in 'pb' else SLOT
            return tuple(w(x) for x in t)
        return t
    if st[1] is not None and st[1][2] == ('s', ()):
        # an empty text stays apart from the others
        return (w(st[:1]) + (w(st[1][:2]) + (st[1][2],) + w(st[1][3:]),) + w(st[2:])), tuple(slots)
    return w(st), tuple(slots)


def restore(loc, slots):
    it = iter(slots)

    def w(t):
        if t in ('p', 'b', SLOT):
            return next(it)
        if isinstance(t, tuple):
            return tuple(w(x) for x in t)
        return t
    return w(loc)


def join(a, b):
    """Slots equal in both states stay related, the others get a name of their own."""
    names = {}
    out = []
    for x, y in zip(a, b):
        if x == y and x[0] == 's':
            out.append(x)
        elif x[0] == 'b':
            out.append(x if x == y else ('b', None))
        else:
            k = 'p' if x[0] == 'p' else 'e' if {x, y} & {('s', ())} or 'e' in (x[0], y[0]) else 'a'
            out.append((k, names.setdefault((k, x, y), len(names))))
    return tuple(out)


MAPS = {}
LARGE = 'too many digits'


class Explorer:
    """Product of the tokeniser and the reference."""

    def __init__(self, chk, E, cap=3000, merge=True):
        self.chk, self.E, self.cap, self.merge = chk, E, cap, merge
        self.states = {}
        self.work = []
        self.edges = {}         # ended states: successors without a token
        self.bad = {}
        self.reported = set()
        self.swept = set()
        self.queued = set()
        self.joins = 0
        self.tried = {}
        words = set(KEYWORDS)
        I = AI(E.P, None)
        o = E.machine(I, ord('x'))
        for v in o.f.values():
            if isinstance(v.v, MapV):
                for p in v.v.d.values():
                    k = p.c[0].v
                    if isinstance(k, StrV):
                        words.add(k.py())
        self.words = sorted(words)

    def val(self, c, f):
        return ChV(c, MAPS.setdefault(f, None) or MAPS.update({f: Map.of(f(b) for b in range(256))}) or MAPS[f]).norm()

    def add(self, st, trail):
        """Join the state into the one known at its location."""
        loc, slots = locate(st)
        if self.merge and (loc[0] == 'free' or loc[1][0] == 'N' and not loc[2]) and loc[4] != NUL:
            # any character may follow
            loc = loc[:4] + (ALL,)
        old = self.states.get(loc)
        if old is None:
            if len(self.states) >= self.cap:
                raise Unsupported('more than %d abstract states' % self.cap)
            self.states[loc] = [slots, trail, 1]
        else:
            j = join(old[0], slots)
            if j == old[0]:
                return loc
            self.joins += 1
            old[0], old[1] = j, trail
            old[2] += 1
        if loc not in self.queued:
            self.queued.add(loc)
            self.work.append(loc)
        return loc

    def start(self):
        def go(o):
            I = AI(self.E.P, o, self.words)
            s = Sym('n', ALL)
            m = self.E.machine(I, ChV(s, SIGNED))
            self.seen(I)
            return self.freeze(m, Ref(), (), s, 'cmp')
        for o, st in paths(go):
            self.add(st, ())

    def seen(self, I):
        self.chk.visited(I.visited, self.E.P)
        self.chk.paths += 1

    def freeze(self, m, ref, pend, s, mode):
        F = Frz(s)
        r = F.ref(ref)
        p = tuple(F.tok(t) for t in pend)
        return (mode, r, p, F.val(m), s.dom)

    def run(self):
        try:
            self.start()
        except (Unsupported, Trap) as e:
            self.chk.undecided('step', 'initial state', e)
            return
        while self.work:
            loc = self.work.pop(0)
            self.queued.discard(loc)
            slots, trail, n = self.states[loc]
            try:
                self.expand(loc, restore(loc, slots), trail)
            except Unsupported as e:
                self.chk.undecided('step', self.describe(loc), e)
        self.progress()

    def describe(self, loc):
        return 'after %r' % self.concrete(self.states[loc][1])

    def concrete(self, trail):
        return bytes(c for c in (pick(d) for d, _ in trail) if c)

    def expand(self, loc, st, trail):
        self.edges[loc] = []
        mode, r, p, mv, dom = st

        def go(o):
            I = AI(self.E.P, o, self.words)
            n = Sym('n', dom)
            T = Thaw(n)
            m, ref, pend = T.val(mv), T.ref(r), [T.tok(t) for t in p]
            ended = I.split(n, NUL)
            c = Sym('x', NUL if ended else ALL)
            res = ['ok', None]
            tok = None
            try:
                x = lib.V(I.call_fn(self.E.step, m, [Cell(ChV(c, SIGNED))]))
                if isinstance(x, OptV) and x.c is not None:
                    tok = self.E.token(I, x.c.v)
                if mode == 'cmp':
                    pend = pend + ref.step(I, n, c, self.val)
                    if tok is not None:
                        if not pend:
                            return I, ('bad', 'token %s where the text has not ended a token' % tok.kind), (n, c), None, ended, 1
                        d = diff(tok, pend[0]) or observers(self.E, I, m, tok)
                        if d:
                            return I, ('bad', d), (n, c), None, ended, 1
                        pend = pend[1:]
                    if len(pend) > 2:
                        return I, ('bad', 'the %s token is not produced' % pend[0].kind), (n, c), None, ended, 1
            except Trap as e:
                return I, ('bad', str(e)), (n, c), None, ended, 1
            md = mode
            if tok is not None and tok.kind in ('Error', 'EndOfFile'):
                md, ref, pend = 'free', None, []
            return I, None, (n, c), self.freeze(m, ref, pend, c, md), ended, tok is not None
        for o, (I, bad, (n, c), new, ended, emitted) in paths(go, 20000):
            self.seen(I)
            key = '%s/%s' % (r[0] if r else 'after an error', show(n.dom))
            if bad is not None:
                word = next((w for w in I.texts.values() if w), None)
                if any(t[0] and t[0][0] == 'fits' and t[1] for t in o.trace):
                    word = LARGE
                self.candidate(st, trail, bad[1], n.dom, c.dom, word)
                continue
            self.chk.ok('step', key, True)
            to = self.add(new, (trail + ((n.dom, r[0] if r else None),))[-60:])
            if ended and not emitted:
                self.edges[loc].append(to)

    def candidate(self, st, trail, why, cur, nxt, word=None):
        """An abstract counterexample: look for a text that shows it."""
        rs = st[1][0] if st[1] else 'after an error'
        k = '%s: %s' % (rs, why)
        if k in self.reported or len(self.reported) > 10:
            return
        self.tried[k] = self.tried.get(k, 0) + 1
        if self.tried[k] > 4:
            return
        base = list(trail)
        tails = [b'', b' ', b'1', b'a', b'.', b';']
        for j in range(6):
            t = base + [(cur, rs)]
            s = self.concrete_tail(t, word, j)
            x = pick(nxt, j)
            for e in tails:
                s2 = s + (bytes([x]) if x else b'') + (e if x else b'')
                w = judge_text(self.E, s2)
                if w:
                    self.reported.add(k)
                    kk = 'text %r' % s2.decode('latin-1')
                    self.chk.ok('step', kk, False, w)
                    return
        if rs[:1] in ('Q', 'S') and rs not in self.swept:
            # one that depends on some of the characters of the text only
            self.swept.add(rs)
            q = b"'" if rs[0] == 'Q' else b'"'
            for p in (b'', b'\\'):
                for x in range(1, 256):
                    s2 = q + p + bytes([x]) + q
                    w = judge_text(self.E, s2)
                    if w:
                        self.reported.add(k)
                        self.chk.ok('step', 'text %r' % s2.decode('latin-1'), False, w)
                        return
        self.chk.undecided('step', k, 'abstract counterexample without an instance, e.g. %r' % (s,))

    def concrete_tail(self, trail, word, j):
        cs = [pick(d, j if i == len(trail) - 1 else 0) for i, (d, _) in enumerate(trail)]
        if word == LARGE:
            cs += [ord('9')] * 30
        elif word is not None:
            n = len(trail)
            while n and trail[n - 1][1] == 'ID':
                n -= 1
            if n == len(trail):
                n -= 1
            elif n:
                n -= 1
            cs = cs[:n] + [ord(c) for c in word]
        return bytes(c for c in cs if c)

    def progress(self):
        """At the end of the text, every state yields a token in finitely many steps."""
        color = {}
        for s in self.edges:
            if s in color:
                continue
            stack = [(s, iter(self.edges[s]))]
            color[s] = 1
            while stack:
                u, it = stack[-1]
                for v in it:
                    if color.get(v) == 1:
                        self.chk.ok('progress', self.describe(u), False, 'the end of the text yields no token, forever')
                        color[v] = 2
                    elif v not in color and v in self.edges:
                        color[v] = 1
                        stack.append((v, iter(self.edges[v])))
                        break
                else:
                    color[u] = 2
                    stack.pop()
            self.chk.ok('progress', self.describe(s), True)


def pick(dom, j=0):
    """A readable representative of the set."""
    best = sorted(dom, key=lambda b: (not (48 <= b < 58 or 97 <= b < 123), not 32 <= b < 127, b))
    return best[min(j, len(best) - 1)] if best else 0


# ---- the driver feeding the characters
class DI(AI):
    """Lexer<StateMachine> over a given buffer; the state machine is a stub
    yielding tokens as scripted."""

    def __init__(self, E, o, n, script):
        super().__init__(E.P, o)
        self.E = E
        self.buf = ListV([Tok('char', i) for i in range(n)] + [0], 'std::array<char>')
        self.script, self.fed, self.first = list(script), [], None
        self.sm = {m['id'] for m in E.P.rec[SM]['methods'] if m.get('kind') == 'ctor'}

    def run_ctor(self, o, f, cells):
        if f['id'] in self.sm:
            self.first = [c.v for p, c in zip(f['p'], cells) if base_type(p['t']) == 'char']
            return
        return super().run_ctor(o, f, cells)

    def same(self, x, y):
        # the characters of the buffer are not the terminator
        for a, b in ((x, y), (y, x)):
            if isinstance(a, Tok) and a.name[0] == 'char' and isinstance(b, int):
                return False
        return super().same(x, y)

    def truth(self, v, node=None):
        if isinstance(v, Tok) and v.name[0] == 'char':
            return True
        return super().truth(v, node)

    def call(self, n):
        fn = n.get('fn') or ''
        nm = short(fn)
        if n.get('id') == self.E.step['id']:
            self.fed.append(self.ev(n['a'][0]))
            if len(self.fed) > 3 * len(self.buf.items) + 12:
                raise Trap('characters are fed forever')
            if self.script and self.script.pop(0):
                return OptV(Cell(Tok('token', len(self.fed))))
            return OptV()
        if fn.startswith('llvm::MemoryBuffer::'):
            n1 = len(self.buf.items) - 1
            if nm == 'getBufferStart':
                return IterV(self.buf, 0)
            if nm == 'getBufferEnd':
                return IterV(self.buf, n1)
            if nm == 'getBufferSize':
                return n1
        return super().call(n)


def driver(chk, E):
    P = E.P
    L = [c for c in P.rec if c.startswith('marco::lexer::Lexer<') and SM in c]
    if len(L) != 1:
        raise AnalysisBroken('%d lexers over the state machine' % len(L))
    ctor = [P.fn[m['id']] for m in P.rec[L[0]]['methods'] if m.get('kind') == 'ctor' and m['id'] in P.fn and len(m['p']) == 1]
    scan = P.one(L[0] + '::scan')
    for n in range(4):
        for bits in range(1 << (n + 2)):
            script = [bool(bits >> i & 1) for i in range(n + 2)]
            key = '%d characters, tokens after steps %s' % (n, [i + 1 for i, x in enumerate(script) if x])
            scans = sum(script)
            if not scans:
                continue
            try:
                bad = drive(chk, E, L[0], ctor[0], scan, n, script, scans)
            except Unsupported as e:
                chk.undecided('driver', key, e)
                continue
            chk.ok('driver', key, bad is None, bad or '')


def drive(chk, E, cls, ctor, scan, n, script, scans):
    P = E.P

    def go(o):
        I = DI(E, o, n, script)
        f = I.new('marco::SourceFile', StrV('f'))
        b = Tok('buffer')
        for k, d in P.fields('marco::SourceFile'):
            if 'MemoryBuffer' in d['t']:
                f.f[k + '::' + d['n']].v = b
        try:
            x = I.construct_with(cls, ctor, [Cell(UPtr(f, True))])
            out = [lib.V(I.call_fn(scan, x, [])) for _ in range(scans)]
        except Trap as e:
            return I, str(e)
        want = [Tok('char', i) for i in range(n)] + [0]
        if I.first != [want[0]]:
            return I, 'the state machine does not start from the first character'
        last = max(i for i, t in enumerate(script) if t) + 1
        exp = [want[min(i + 1, n)] for i in range(last)]
        if I.fed != exp:
            return I, 'characters %s are fed instead of %s' % (I.fed, exp)
        if out != [Tok('token', i + 1) for i, t in enumerate(script) if t]:
            return I, 'the tokens of the state machine are not returned in their order'
        return I, None
    for o, (I, bad) in paths(go):
        chk.visited(I.visited, P)
        chk.paths += 1
        if bad:
            return bad
    return None


def spellings(chk, E):
    """The names of the tokens shown to the user are their spellings."""
    f = [x for x in E.P.fn.values() if x['n'] == NS + 'toString' and base_type(x['p'][0]['t']) == NS + 'TokenKind']
    if len(f) != 1:
        raise AnalysisBroken('%d functions naming the kinds of tokens' % len(f))
    for s, k in [(k, k) for k in KEYWORDS] + list(SYMBOLS.items()):
        I = AI(E.P, None)
        try:
            r = lib.V(I.call_fn(f[0], None, [Cell(E.code[k])]))
        except Unsupported as e:
            chk.undecided('spelling', s, e)
            continue
        chk.visited(I.visited, E.P)
        chk.ok('spelling', s, isinstance(r, StrV) and r.py() == s, 'the name of the token %s is %r' % (s, r))
