"""Reference grammars: EBNF text -> regular right-hand sides -> automata, FIRST/FOLLOW sets, bounded words.

  Name            terminal (a token kind)          Name=Text  terminal with a given spelling
  name            nonterminal                      @name      nonterminal spelled out in place
  name<first!=A,B;second=C>                        restrict its first / second token
  item:label      label for the tree builder
  (a|b) [a] {a}   alternative, option, repetition"""
import re
from .facts import AnalysisBroken

TOK = re.compile(r'\s*([A-Za-z_@][A-Za-z_0-9]*(?:=[A-Za-z]+)?(?:<[^>]*>)?(?::[A-Za-z_0-9]+)?|[(){}\[\]|])')


class Sym:
    """A leaf: terminal or (opaque) nonterminal."""
    __slots__ = ('t', 'name', 'text', 'first', 'second', 'label', 'key')

    def __init__(self, t, name, text=None, first=None, second=None, label=None):
        self.t, self.name, self.text, self.first, self.second, self.label = t, name, text, first, second, label
        self.key = (t, name, text, first, second)

    def __repr__(self):
        if self.t == 't':
            return self.name + ('=' + self.text if self.text else '')
        return '<%s>' % self.name


def parse_rhs(s):
    toks = []
    i = 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise AnalysisBroken('grammar: %r' % s[i:i + 30])
        toks.append(m.group(1))
        i = m.end()
        while i < len(s) and s[i].isspace():
            i += 1
    pos = 0

    def alt():
        nonlocal pos
        xs = [seq()]
        while pos < len(toks) and toks[pos] == '|':
            pos += 1
            xs.append(seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq():
        nonlocal pos
        xs = []
        while pos < len(toks) and toks[pos] not in '|)]}':
            t = toks[pos]
            pos += 1
            if t in '([{':
                x = alt()
                pos += 1
                xs.append({'(': x, '[': ('opt', x), '{': ('star', x)}[t])
            else:
                xs.append(leaf(t))
        return ('seq', xs)

    def leaf(t):
        label = None
        m = re.match(r'^(.*):([A-Za-z_0-9]+)$', t)
        if m and '>' not in m.group(2):
            t, label = m.group(1), m.group(2)
        opts = ''
        m = re.match(r'^([^<]*)<(.*)>$', t)
        if m:
            t, opts = m.group(1), m.group(2)
        text = None
        if '=' in t:
            t, text = t.split('=')
        if t.startswith('@'):
            return ('inl', t[1:], label)
        if t[0].isupper():
            return ('leaf', Sym('t', t, text, label=label))
        fs = {}
        for o in filter(None, opts.split(';')):
            k, neg, v = re.match(r'^(\w+)(!?)=(.*)$', o).groups()
            fs[k] = (bool(neg), frozenset(v.split(',')))
        return ('leaf', Sym('n', t, None, fs.get('first'), fs.get('second'), label))
    r = alt()
    if pos != len(toks):
        raise AnalysisBroken('grammar: trailing %r' % toks[pos:])
    return r


def restrict(s, r):
    if r is None:
        return s
    return s - r[1] if r[0] else s & r[1]


class Grammar:
    def __init__(self, rules, kinds, inline=()):
        """rules: name -> EBNF; kinds: all token kinds; inline: nonterminals never kept as leaves."""
        self.kinds = frozenset(kinds)
        self.rules = {k: parse_rhs(v) for k, v in rules.items()}
        self.inline = set(inline)
        self.null, self.first, self.follow = {}, {k: frozenset() for k in rules}, {k: frozenset() for k in rules}
        self._fix()
        self.nfas = {}
        self.greedy = {k: frozenset() for k in rules}
        self._greedy()

    # ---- classic sets
    def fnull(self, x):
        k = x[0]
        if k == 'leaf':
            return x[1].t == 'n' and self.null.get(x[1].name, False)
        if k == 'inl':
            return self.null.get(x[1], False)
        if k == 'seq':
            return all(self.fnull(y) for y in x[1])
        if k == 'alt':
            return any(self.fnull(y) for y in x[1])
        return True

    def symfirst(self, s):
        if s.t == 't':
            if s.name not in self.kinds:
                raise AnalysisBroken('no token kind %s' % s.name)
            return frozenset([s.name])
        return restrict(self.first[s.name], s.first)

    def ffirst(self, x):
        k = x[0]
        if k == 'leaf':
            return self.symfirst(x[1])
        if k == 'inl':
            return self.first[x[1]]
        if k == 'seq':
            r = frozenset()
            for y in x[1]:
                r |= self.ffirst(y)
                if not self.fnull(y):
                    break
            return r
        if k == 'alt':
            return frozenset().union(*[self.ffirst(y) for y in x[1]])
        return self.ffirst(x[1])

    def _follow(self, x, after, out):
        """Distribute 'after' (kinds that may follow x) into out; return kinds that may precede-follow x."""
        k = x[0]
        if k == 'leaf':
            if x[1].t == 'n':
                out.setdefault(x[1].name, set()).update(after)
        elif k == 'inl':
            out.setdefault(x[1], set()).update(after)
        elif k == 'seq':
            a = after
            for y in reversed(x[1]):
                self._follow(y, a, out)
                a = self.ffirst(y) | (a if self.fnull(y) else frozenset())
        elif k == 'alt':
            for y in x[1]:
                self._follow(y, after, out)
        elif k == 'opt':
            self._follow(x[1], after, out)
        else:
            self._follow(x[1], after | self.ffirst(x[1]), out)

    def _fix(self):
        ch = True
        while ch:
            ch = False
            for n, r in self.rules.items():
                if n not in self.null or self.null[n] != self.fnull(r):
                    self.null[n] = self.fnull(r)
                    ch = True
                f = self.ffirst(r)
                if f != self.first[n]:
                    self.first[n] = f
                    ch = True
        ch = True
        while ch:
            ch = False
            out = {}
            for n, r in self.rules.items():
                self._follow(r, self.follow[n], out)
            for n, s in out.items():
                s = self.follow[n] | frozenset(s)
                if s != self.follow[n]:
                    self.follow[n] = s
                    ch = True

    def seed_follow(self, n, kinds):
        self.follow[n] = self.follow[n] | frozenset(kinds)
        self._fix()

    # ---- automata (edges: (state, symbol or None, marker, cost))
    def nfa(self, name):
        if name in self.nfas:
            return self.nfas[name]
        E = []

        def st():
            E.append([])
            return len(E) - 1

        def build(x, depth):
            a = st()
            k = x[0]
            if k == 'leaf' and not (x[1].t == 'n' and x[1].name in self.inline):
                b = st()
                E[a].append((b, x[1], None, 0))
                return a, b
            if k in ('leaf', 'inl'):
                n, lab = (x[1].name, x[1].label) if k == 'leaf' else (x[1], x[2])
                if depth > 6:
                    b = st()            # recursion that is spelled out stops here
                    return a, b
                p, q = build(self.rules[n], depth + 1)
                b = st()
                E[a].append((p, None, ('open', n, lab), 0))
                E[q].append((b, None, ('close', n, lab), 0))
                return a, b
            if k == 'seq':
                cur = a
                for y in x[1]:
                    p, q = build(y, depth)
                    E[cur].append((p, None, None, 0))
                    cur = q
                return a, cur
            b = st()
            if k == 'alt':
                for i, y in enumerate(x[1]):
                    p, q = build(y, depth)
                    E[a].append((p, None, None, 1 if i else 0))
                    E[q].append((b, None, None, 0))
            elif k == 'opt':
                p, q = build(x[1], depth)
                E[a].append((b, None, None, 0))
                E[a].append((p, None, None, 1))
                E[q].append((b, None, None, 0))
            else:
                p, q = build(x[1], depth)
                E[a].append((b, None, None, 0))
                E[a].append((p, None, None, 1))
                E[q].append((b, None, None, 0))
                E[q].append((p, None, None, 1))
            return a, b
        s, f = build(self.rules[name], 0)
        self.nfas[name] = (E, s, f)
        return self.nfas[name]

    def closure(self, E, S):
        S = set(S)
        todo = list(S)
        while todo:
            a = todo.pop()
            for b, sym, mk, c in E[a]:
                if sym is None and b not in S:
                    S.add(b)
                    todo.append(b)
        return frozenset(S)

    def step(self, E, S, key):
        return self.closure(E, {b for a in S for b, sym, mk, c in E[a] if sym is not None and sym.key == key})

    def next_syms(self, E, S):
        out = {}
        for a in S:
            for b, sym, mk, c in E[a]:
                if sym is not None:
                    out[sym.key] = sym
        return list(out.values())

    def next_kinds(self, E, S):
        r = frozenset()
        for s in self.next_syms(E, S):
            r |= self.symfirst(s)
        return r

    def _greedy(self):
        """greedy(N): kinds a complete N would still swallow if they came next."""
        last = {}
        for n in self.rules:
            E, s, f = self.nfa(n)
            acc = frozenset()
            tails = set()
            # states reachable by a last leaf: closure after a leaf contains f
            S0 = self.closure(E, {s})
            seen = {S0}
            todo = [S0]
            while todo:
                S = todo.pop()
                if f in S:
                    acc |= self.next_kinds(E, S)
                for sym in self.next_syms(E, S):
                    T = self.step(E, S, sym.key)
                    if f in T and sym.t == 'n':
                        tails.add(sym.name)
                    if T not in seen:
                        seen.add(T)
                        todo.append(T)
            last[n] = tails
            self.greedy[n] = acc
        ch = True
        while ch:
            ch = False
            for n in self.rules:
                g = self.greedy[n].union(*[self.greedy[t] for t in last[n]]) if last[n] else self.greedy[n]
                if g != self.greedy[n]:
                    self.greedy[n] = g
                    ch = True

    # ---- pairs of first tokens
    def first2(self):
        """nonterminal -> first kind -> kinds of the second token (None: there is none)."""
        if hasattr(self, '_f2'):
            return self._f2
        F = {n: {} for n in self.rules}
        ch = True
        while ch:
            ch = False
            for n in self.rules:
                E, s, f = self.nfa(n)
                S = self.closure(E, {s})
                for x in self.next_syms(E, S):
                    T = self.step(E, S, x.key)
                    for k, ks in self.sym2(F, x, T, E, f).items():
                        o = F[n].setdefault(k, set())
                        if not ks <= o:
                            o |= ks
                            ch = True
        self._f2 = F
        return F

    def sym2(self, F, x, T, E, f):
        """first2 of symbol x followed by the states T."""
        after = set(self.next_kinds(E, T)) | ({None} if f in T else set())
        if x.t == 't':
            return {x.name: after}
        out = {}
        for k, ks in F[x.name].items():
            if x.first and (k in x.first[1]) == x.first[0]:
                continue
            r = set(ks)
            if None in r:
                r = (r - {None}) | after
            if x.second:
                r = {y for y in r if y is None or (y in x.second[1]) != x.second[0]}
            out[k] = r
        return out

    # ---- bounded words
    def walks(self, name, cost):
        """Yield (steps, complete): steps = list of Sym or ('open'/'close', n, label); prefixes ending in a
        leaf (or empty) and complete words, with at most `cost` optional choices."""
        E, s, f = self.nfa(name)
        # minimal completion cost from each state, to prune
        yield from self._walk(E, s, f, cost)

    def _walk(self, E, s, f, cost):
        stack = [(s, (), cost, frozenset())]
        while stack:
            a, path, c, eps = stack.pop()
            if a == f:
                yield path, True
            for b, sym, mk, k in reversed(E[a]):
                if k > c:
                    continue
                if sym is not None:
                    p = path + (sym,)
                    yield p, False
                    stack.append((b, p, c - k, frozenset()))
                else:
                    if b in eps:
                        continue
                    stack.append((b, path + ((mk,) if mk else ()), c - k, eps | {b}))


class Node:
    """Parse tree of a word."""
    __slots__ = ('name', 'items', 'span')

    def __init__(self, name):
        self.name = name
        self.items = []     # (label, item)
        self.span = None

    def all(self, *labels):
        return [x for l, x in self.items if l in labels]

    def one(self, label):
        xs = self.all(label)
        return xs[0] if xs else None

    def has(self, label):
        return bool(self.all(label))


class Leaf:
    __slots__ = ('sym', 'slot', 'end', 'variant')

    def __init__(self, sym, slot, end, variant=0):
        self.sym, self.slot, self.end, self.variant = sym, slot, end, variant

    @property
    def span(self):
        return (self.slot, self.end)


def tree(name, steps, variants=()):
    """Parse tree of a complete word; slots: terminals take one, opaque nonterminals two."""
    root = Node(name)
    st = [root]
    slot = 0
    vi = 0
    for x in steps:
        if isinstance(x, Sym):
            w = 1 if x.t == 't' else 2
            v = 0
            if x.t == 'n':
                v = variants[vi] if vi < len(variants) else 0
                vi += 1
            lf = Leaf(x, slot, slot + w - 1, v)
            st[-1].items.append((x.label or x.name, lf))
            for n in st:
                n.span = (n.span[0] if n.span else slot, slot + w - 1)
            slot += w
        elif x[0] == 'open':
            n = Node(x[1])
            st[-1].items.append((x[2] or x[1], n))
            st.append(n)
        else:
            st.pop()
    return root
