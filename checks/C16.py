from . import lexing
from .lexing import *
from sa.report import Check


def run():
    chk = Check('C16', 'Abstract interpretation of one step of the tokeniser on a symbolic character (a set of bytes split by '
                'the comparisons it meets), with text, digits and positions gathered so far opaque; least fixpoint of its '
                'product with a reference longest-match tokeniser: every token has the kind, value and location of '
                'the reference one, no text makes the tokeniser invalid, and the end of the text is always reached. An '
                'abstract counterexample is reported when the interpretation of a text it suggests shows it.',
                ['The reference tokeniser of checks/lexing.py (the lexical grammar of Modelica, plus identifiers '
                 'starting with $) is the oracle.',
                 'The values computed from the digits of a number follow their contract (C17).',
                 'Driver: texts of up to three characters, with tokens after any of the steps.'])
    E = Env()
    explore(chk, E)
    driver(chk, E)
    spellings(chk, E)
    chk.control('a keyword that is an identifier', control(E))
    for k, n in FLOORS.items():
        chk.floor(k, n)
    return chk


FLOORS = {'step': 1000, 'progress': 3, 'driver': 50, 'spelling': 80}


def explore(chk, E):
    """With any character possible between tokens, else with those that are."""
    for merge in (True, False):
        c = Check('C16', '')
        X = Explorer(c, E, merge=merge)
        X.run()
        if c.bad or not c.und:
            break
    chk.merge(c)
    chk.extra['abstract_states'] = len(X.states)
    chk.extra['joins'] = X.joins


def control(E):
    saved = lexing.KEYWORDS
    try:
        lexing.KEYWORDS = [k for k in saved if k != 'model']
        return judge_text(E, b'model m') is not None
    finally:
        lexing.KEYWORDS = saved
