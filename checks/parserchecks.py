"""The four properties of the parser share the exploration of checks/parsing.py."""
from sa.report import Check
from .parsing import env, Explorer, G
from . import parsing

HEAVY = {'class_definition': 24, 'element': 4, 'if_equation': 3, 'if_statement': 3, 'when_equation': 3}


def tasks(which, thorough):
    E = env()
    ts = []
    for n in sorted(G.RULES, key=lambda n: -HEAVY.get(n, 1)):
        if G.ENTRY[n] not in E.fn:
            continue
        cost = 4 if thorough else 3
        parts = HEAVY.get(n, 1) * (4 if thorough else 1)
        for p in range(parts):
            ts.append(lambda c, n=n, p=p, parts=parts: Explorer(c, which).phrase(n, cost, p, parts))
    return ts


def missing(chk):
    E = env()
    for n in G.RULES:
        if G.ENTRY[n] not in E.fn:
            chk.undecided('phrase', n, 'no function %s' % G.ENTRY[n])


def probe(nt, which, patch):
    """Control: explore nt under a deliberately wrong specification."""
    c = Check('control', '')
    undo = patch()
    try:
        Explorer(c, which).phrase(nt, 1)
    finally:
        undo()
    return c.bad


def swap(d, k, v):
    def f():
        old = d[k]
        d[k] = v

        def undo():
            d[k] = old
        return undo
    return f


def wrong_rule(nt, rhs):
    def f():
        from sa.grammar import parse_rhs
        E = env()
        g = E.g
        old, nfas = g.rules[nt], dict(g.nfas)
        g.rules[nt] = parse_rhs(rhs)
        g.nfas.clear()

        def undo():
            g.rules[nt] = old
            g.nfas.clear()
            g.nfas.update(nfas)
        return undo
    return f
