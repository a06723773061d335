"""Reference grammar of the accepted language and the tree every phrase denotes."""
from sa.grammar import Leaf

RULES = {
    'root': '{class_definition:c}',
    'class_definition': '''
        (Model:model | Record:record | Package:package | Function:fn | Class:model
          | Operator Record:record | Operator Function:fn | Pure [Operator] Function:fn | Impure:impure [Operator] Function:fn)
          Identifier=NAME:name [String]
          {@element:m Semicolon | class_definition:k}
          { equation_section:e | algorithm_section:a | @equation_section:e | @algorithm_section:a
            | (Public:pub | Protected:prot) {@element:m Semicolon | class_definition:k} }
          [External:ext [String:lang] [external_function_call:x] [annotation:xa] Semicolon]
          [annotation:ann Semicolon]
          End Identifier=SAME Semicolon
      | (Function:fn | Operator Function:fn | Pure [Operator] Function:fn | Impure:impure [Operator] Function:fn)
          Identifier=NAME:name EqualityOperator Der:der LPar expression:d {Comma expression:v} RPar [String] Semicolon''',
    'external_function_call': '''
        [(component_reference<first=Identifier;second!=LPar>:d | component_reference<first=Dot>:d) EqualityOperator]
        Identifier:f LPar [expression:a {Comma expression:a}] RPar''',
    'modification': '''(EqualityOperator | AssignmentOperator) expression:e
        | class_modification:c [EqualityOperator expression:e]''',
    'class_modification': 'LPar [argument_list:l] RPar',
    'argument_list': 'argument:a {Comma argument:a}',
    'argument': '[Each:each] [Final:final] Identifier:n [modification:m]',
    'algorithm_section': '[Initial:init] Algorithm {statement:s Semicolon}',
    'equation_section': '[Initial:init] Equation {equation:e Semicolon}',
    'equation': '''if_equation:x | for_equation:x | when_equation:x
        | expression<first!=If>:l EqualityOperator expression:r [String]''',
    'statement': '''if_statement:x | for_statement:x | while_statement:x | when_statement:x | Break:brk | Return:ret
        | LPar:tup [output_expression_list:o] RPar AssignmentOperator component_reference:c function_call_args:a
        | component_reference:c (function_call_args:a | AssignmentOperator:asg expression:e)''',
    'if_equation': '''If expression:c Then {equation:e Semicolon}
        {ElseIf:sep expression:c Then {equation:e Semicolon}} [Else:sep {equation:e Semicolon}] End If''',
    'if_statement': '''If expression:c Then {statement:e Semicolon}
        {ElseIf:sep expression:c Then {statement:e Semicolon}} [Else:sep {statement:e Semicolon}] End If''',
    'when_equation': '''When expression:c Then {equation:e Semicolon}
        {ElseWhen:sep expression:c Then {equation:e Semicolon}} [Else:sep {equation:e Semicolon}] End When''',
    'when_statement': 'When expression:c Then {statement:e Semicolon} End When',
    'while_statement': 'While expression:c Loop {statement:e Semicolon} End While',
    'for_equation': 'For for_indices:i Loop {equation:e Semicolon} End For',
    'for_statement': 'For for_indices:i Loop {statement:e Semicolon} End For',
    'for_indices': 'for_index:i {Comma for_index:i}',
    'for_index': 'Identifier:n [In expression:e]',
    'expression': 'simple_expression:x | If expression:c Then expression:c Else expression:c',
    'simple_expression': 'logical_expression:x [Colon logical_expression:x [Colon logical_expression:x]]',
    'logical_expression': 'logical_term:x {Or logical_term:x}',
    'logical_term': 'logical_factor:x {And logical_factor:x}',
    'logical_factor': '[Not:not] relation:x',
    'relation': '''arithmetic_expression:x
        [(Less:op | LessEqual:op | Greater:op | GreaterEqual:op | Equal:op | NotEqual:op) arithmetic_expression:x]''',
    'arithmetic_expression': '[Plus | Minus:neg] term:x {(Plus:op | PlusEW:op | Minus:op | MinusEW:op) term:x}',
    'term': 'factor:x {(Product:op | ProductEW:op | Division:op | DivisionEW:op) factor:x}',
    'factor': 'primary:x {(Pow:op | PowEW:op) primary:x}',
    'primary': '''Integer:int | FloatingPoint:float | String:str | True:true | False:false
        | component_reference:r [function_call_args:a [array_subscripts:s]]
        | Der:der function_call_args:a [array_subscripts:s]
        | LPar:par [output_expression_list:o] RPar [array_subscripts:s]
        | LCurly:cur array_arguments:o RCurly [array_subscripts:s]''',
    'component_reference': '[Dot:glob] component_reference_entry:e {Dot component_reference_entry:e}',
    'component_reference_entry': 'Identifier:n [array_subscripts:s]',
    'function_call_args': 'LPar [function_arguments:a] RPar',
    'function_arguments': '''named_arguments:n
        | (expression<first!=Identifier>:e | expression<first=Identifier;second!=EqualityOperator>:e)
          [For for_indices:i | Comma function_arguments_non_first:r]''',
    'function_arguments_non_first': '''named_arguments:n
        | (function_argument<first!=Identifier>:e | function_argument<first=Identifier;second!=EqualityOperator>:e)
          [Comma function_arguments_non_first:r]''',
    'named_arguments': 'named_argument:a {Comma named_argument:a}',
    'named_argument': 'Identifier:n EqualityOperator function_argument:v',
    'function_argument': 'expression:e',
    'array_arguments': 'expression:e [Comma array_arguments_non_first:r | For for_indices:i]',
    'array_arguments_non_first': 'expression:e {Comma expression:e}',
    'output_expression_list': 'expression:e {Comma:c [expression:e]} | Comma:c [expression:e] {Comma:c [expression:e]}',
    'array_subscripts': 'LSquare subscript:s {Comma subscript:s} RSquare',
    'subscript': 'Colon:colon | expression:e',
    'annotation': 'Annotation class_modification:c',
    'element': '''[Final] @type_prefix:p variable_type:t Identifier:n
        [modification<first=LPar,EqualityOperator>:m] [String] [annotation]''',
    'type_prefix': '[Discrete:v | Parameter:v | Constant:v] [Input:io | Output:io]',
    'variable_type': '''(Identifier=Real:b | Identifier=Integer:b | Identifier=Boolean:b | Identifier=String:b
          | [Dot:glob] Identifier:n {Dot Identifier:n})
        [LSquare array_dimension:d {Comma array_dimension:d} RSquare]''',
    'array_dimension': '''Colon:colon | Integer:int | expression<first!=Integer>:e
        | expression<first=Integer;second!=Comma,RSquare>:e''',
}

# phrase -> parsing function, extra arguments
ENTRY = {n: 'parse' + ''.join(w.capitalize() for w in n.split('_')) for n in RULES}
ARGS = {'element': [[True], [False]]}
MAY_BE_EMPTY = {'output_expression_list'}        # callers decide on emptiness
NEVER_OPAQUE = {'type_prefix', 'element'}       # their function takes flags or may match nothing
# tokens on which the phrase itself already gives up (sections run up to a section keyword)
CLASSKW = {'Class', 'Function', 'Model', 'Package', 'Record', 'Operator', 'Pure', 'Impure'}
ABSORB = {'equation_section': CLASSKW, 'algorithm_section': CLASSKW}
# unsupported constructs: rejected, but their keyword may start an argument
SKIP_U = {}

# shape of opaque phrases: 'node', or the sizes of the list they denote
LISTS = {'argument_list': [2, 1], 'for_indices': [2, 1], 'function_call_args': [2, 0], 'function_arguments': [2, 1],
         'function_arguments_non_first': [2, 1], 'array_arguments_non_first': [2, 1], 'named_arguments': [2, 1],
         'output_expression_list': [2, 1], 'array_subscripts': [2, 1]}
PAIRS = {'array_arguments': [(2, 0), (1, 2), (1, 0)]}

EXACT = set(RULES) - {'root', 'class_definition', 'element', 'type_prefix', 'variable_type', 'array_dimension',
                      'equation_section', 'output_expression_list', 'array_arguments', 'algorithm_section'}

OPS = {'Less': 'less', 'LessEqual': 'lessEqual', 'Greater': 'greater', 'GreaterEqual': 'greaterEqual',
       'Equal': 'equal', 'NotEqual': 'different', 'Plus': 'add', 'PlusEW': 'addEW', 'Minus': 'subtract',
       'MinusEW': 'subtractEW', 'Product': 'multiply', 'ProductEW': 'multiplyEW', 'Division': 'divide',
       'DivisionEW': 'divideEW', 'Pow': 'powerOf', 'PowEW': 'powerOfEW'}


class E:
    """Expected node: class, attributes, token span (None: anywhere inside the phrase)."""

    def __init__(self, cls, span, within=None, **f):
        """span: first and last token; within: tokens the location must not leave (when span is None)."""
        self.cls, self.span, self.f, self.within = cls, span, f, within

    def __repr__(self):
        return '%s(%s)' % (self.cls, ', '.join('%s=%r' % x for x in self.f.items()))


class W:
    """Expected list with a location of its own."""

    def __init__(self, items, span):
        self.items, self.span = items, span

    def __repr__(self):
        return repr(self.items)


class B:
    """Opaque subphrase."""

    def __init__(self, slot, i=0):
        self.slot, self.i = slot, i

    def __repr__(self):
        return '#%d.%d' % (self.slot, self.i)

    def __eq__(self, o):
        return isinstance(o, B) and (self.slot, self.i) == (o.slot, o.i)

    def __hash__(self):
        return hash((self.slot, self.i))


class S:
    """The spelling / value of token `slot`."""

    def __init__(self, slot, kind='id'):
        self.slot, self.kind = slot, kind

    def __repr__(self):
        return '%s@%d' % (self.kind, self.slot)

    def __eq__(self, o):
        return isinstance(o, S) and (self.slot, self.kind) == (o.slot, o.kind)


def val(x):
    """Expected value of an item."""
    if isinstance(x, Leaf):
        if x.sym.t == 't':
            return name(x)
        n = x.sym.name
        if n in LISTS:
            return [B(x.slot, i) for i in range(LISTS[n][x.variant])]
        if n in PAIRS:
            a, b = PAIRS[n][x.variant]
            return [B(x.slot, i) for i in range(a)], [B(x.slot, a + i) for i in range(b)]
        return B(x.slot)
    r = BUILD[x.name](x)
    return r.items if isinstance(r, W) else r


def vals(xs):
    return [val(x) for x in xs]


def name(x, kind='id'):
    if x.sym.text in ('NAME', 'SAME'):
        return 'NAME'
    if x.sym.text:
        return x.sym.text
    return S(x.slot, kind)


def op(n, kind, args, span=None):
    return E('Operation', span or n.span, kind=kind, args=args)


def chain(kind):
    def f(n):
        xs = vals(n.all('x'))
        return xs[0] if len(xs) == 1 else op(n, kind, xs)
    return f


def fold(n, first, items, start):
    """Left-associative chain: items = [(operator leaf, operand item)]."""
    r = first
    for o, x in items:
        r = op(n, OPS[o.sym.name], [r, val(x)], (start, x.span[1]))
    return r


def b_class(n):
    fn = n.has('fn')
    cls = 'StandardFunction' if fn else 'Model' if n.has('model') else 'Record' if n.has('record') else 'Package'
    f = {'name': 'NAME'}
    if n.has('der'):
        return E('PartialDerFunction', None, name='NAME', derived=val(n.one('d')), vars=vals(n.all('v')))
    if fn:
        f['pure'] = not n.has('impure')
    pub = True
    ms = []
    for l, x in n.items:
        if l == 'pub':
            pub = True
        elif l == 'prot':
            pub = False
        elif l == 'm':
            ms.append(b_element(x, pub))
    f.update(members=ms, inner=vals(n.all('k')), equations=vals(n.all('e')), algorithms=vals(n.all('a')),
             external=n.has('ext'), language=name(n.one('lang'), 'str') if n.has('lang') else 'C',
             call=val(n.one('x')) if n.has('x') else None, extann=val(n.one('xa')) if n.has('xa') else None,
             annotation=val(n.one('ann')) if n.has('ann') else None)
    return E(cls, None, **f)


def b_element(n, pub=True):
    return E('Member', None, n.span, name=name(n.one('n')), type=val(n.one('t')), prefix=val(n.one('p')), public=pub,
             mod=val(n.one('m')) if n.has('m') else None)


def b_prefix(n):
    v = n.one('v').sym.name if n.has('v') else None
    io = n.one('io').sym.name if n.has('io') else None
    return E('TypePrefix', None, discrete=v == 'Discrete', parameter=v == 'Parameter', constant=v == 'Constant',
             input=io == 'Input', output=io == 'Output')


def b_type(n):
    d = vals(n.all('d'))
    if n.has('b'):
        return E('BuiltInType', None, n.span, kind=n.one('b').sym.text, dims=d)
    return E('UserDefinedType', None, n.span, glob=n.has('glob'), path=[name(x) for x in n.all('n')], dims=d)


def b_dim(n):
    if n.has('colon'):
        return E('ArrayDimension', None, size=-1, expr=None)
    if n.has('int'):
        return E('ArrayDimension', None, size=S(n.one('int').slot, 'int'), expr=None)
    return E('ArrayDimension', None, size=None, expr=val(n.one('e')))


def groups(n):
    """Bodies separated by 'sep' tokens: list of [keyword or None, condition, [statements], tokens]."""
    out = [[None, None, [], n.span]]
    for l, x in n.items:
        if l == 'sep':
            out[-1][3] = (out[-1][3][0], x.slot)        # an empty block stands at the next keyword
            out.append([x.sym.name, None, [], (x.slot, n.span[1])])
        elif l == 'c':
            out[-1][1] = val(x)
        elif l == 'e':
            out[-1][2].append(val(x))
    return out


def b_ifeq(cls):
    def f(n):
        g = groups(n)
        els = [x for x in g if x[0] == 'Else']
        mid = [x for x in g[1:] if x[0] != 'Else']
        return E(cls, n.span, cond=g[0][1], body=g[0][2], conds=[x[1] for x in mid], bodies=[x[2] for x in mid],
                 els=els[0][2] if els else [])
    return f


def b_ifst(n):
    g = groups(n)
    els = [x for x in g if x[0] == 'Else']
    mid = [x for x in g[1:] if x[0] != 'Else']

    def blk(b):
        return E('StatementsBlock', None, b[3], body=b[2])
    return E('IfStatement', n.span, cond=g[0][1], block=blk(g[0]), conds=[x[1] for x in mid],
             blocks=[blk(x) for x in mid], els=blk(els[0]) if els else None)


def b_equation(n):
    if n.has('x'):
        return val(n.one('x'))
    return E('EqualityEquation', n.span, lhs=val(n.one('l')), rhs=val(n.one('r')))


def b_statement(n):
    if n.has('x'):
        return val(n.one('x'))
    if n.has('brk'):
        return E('BreakStatement', n.span)
    if n.has('ret'):
        return E('ReturnStatement', n.span)
    if n.has('tup'):
        c, a = n.one('c'), n.one('a')
        o = val(n.one('o')) if n.has('o') else []
        return E('AssignmentStatement', n.span, dest=E('Tuple', None, (n.span[0], c.span[0] - 2), exprs=o),
                 expr=E('Call', (c.span[0], a.span[1]), callee=val(c), args=val(a)))
    if n.has('asg'):
        return E('AssignmentStatement', n.span, dest=val(n.one('c')), expr=val(n.one('e')))
    return E('CallStatement', n.span, call=E('Call', n.span, callee=val(n.one('c')), args=val(n.one('a'))))


def b_expr(n):
    if n.has('x'):
        return val(n.one('x'))
    return op(n, 'ifelse', vals(n.all('c')))


def b_not(n):
    return op(n, 'lnot', [val(n.one('x'))]) if n.has('not') else val(n.one('x'))


def b_relation(n):
    xs = n.all('x')
    return val(xs[0]) if len(xs) == 1 else op(n, OPS[n.one('op').sym.name], vals(xs))


def b_arith(n):
    xs = n.all('x')
    s = n.span[0]
    r = val(xs[0])
    if n.has('neg'):
        r = op(n, 'negate', [r], (s, xs[0].span[1]))
    return fold(n, r, list(zip(n.all('op'), xs[1:])), s)


def b_fold(n):
    xs = n.all('x')
    return fold(n, val(xs[0]), list(zip(n.all('op'), xs[1:])), n.span[0])


def b_primary(n):
    for l, k in (('int', 'int'), ('float', 'float'), ('str', 'str')):
        if n.has(l):
            return E('Constant', n.span, value=S(n.one(l).slot, k))
    if n.has('true') or n.has('false'):
        return E('Constant', n.span, value=n.has('true'))
    subs = val(n.one('s')) if n.has('s') else None
    end = n.one('s').span[0] - 1 if n.has('s') else n.span[1]
    sp = (n.span[0], end)
    if n.has('r'):
        r = val(n.one('r'))
        if n.has('a'):
            r = E('Call', sp, callee=r, args=val(n.one('a')))
    elif n.has('der'):
        r = E('Call', sp, args=val(n.one('a')),
              callee=E('ComponentReference', None, (n.span[0], n.span[0]), dummy=False, glob=False,
                       path=[E('ComponentReferenceEntry', None, (n.span[0], n.span[0]), name='der', subs=[])]))
    elif n.has('par'):
        o = val(n.one('o')) if n.has('o') else []
        if len(o) == 1:
            r = o[0]
        else:
            r = E('Tuple', sp, exprs=o)
    else:
        ex, ix = val(n.one('o'))
        r = E('ArrayForGenerator', sp, value=ex[0], indices=ix) if ix else E('ArrayConstant', sp, values=ex)
    return op(n, 'subscription', [r] + subs) if subs is not None else r


def b_outputs(n):
    """Every comma closes an output; outputs left out are dummy references, the last one is dropped."""
    out, cur = [], None
    for l, x in n.items:
        if l == 'e':
            cur = val(x)
        else:
            out.append(cur if cur is not None else E('ComponentReference', None, dummy=True, glob=False, path=[]))
            cur = None
    if cur is not None:
        out.append(cur)
    return W(out, None)


def b_fargs(n):
    if n.has('n'):
        return W(val(n.one('n')), n.span)
    e = n.one('e')
    if n.has('i'):
        return W([E('ReductionFunctionArgument', n.span, expr=val(e), indices=val(n.one('i')))], n.span)
    if (e.sym if isinstance(e, Leaf) else e).name == 'expression':
        first = E('ExpressionFunctionArgument', e.span, expr=val(e))
    else:
        first = val(e)
    return W([first] + (val(n.one('r')) if n.has('r') else []), n.span)


def b_arrayargs(n):
    xs = [val(n.one('e'))] + (val(n.one('r')) if n.has('r') else [])
    return xs, (val(n.one('i')) if n.has('i') else [])


def opt(n, l):
    return val(n.one(l)) if n.has(l) else None


BUILD = {
    'root': lambda n: E('Root', None, inner=vals(n.all('c'))),
    'class_definition': b_class,
    'external_function_call': lambda n: E('ExternalFunctionCall', n.span, dest=opt(n, 'd'), callee=name(n.one('f')),
                                          args=vals(n.all('a'))),
    'modification': lambda n: E('Modification', n.span, mods=opt(n, 'c'), expr=opt(n, 'e')),
    'class_modification': lambda n: E('ClassModification', n.span, args=opt(n, 'l') or []),
    'argument_list': lambda n: W(vals(n.all('a')), n.span),
    'argument': lambda n: E('ElementModification', (n.one('n').slot, n.span[1]), name=name(n.one('n')),
                            each=n.has('each'), final=n.has('final'), mod=opt(n, 'm')),
    'algorithm_section': lambda n: E('Algorithm', None, initial=n.has('init'), body=vals(n.all('s'))),
    'equation_section': lambda n: E('EquationSection', None, initial=n.has('init'), body=vals(n.all('e'))),
    'equation': b_equation,
    'statement': b_statement,
    'if_equation': b_ifeq('IfEquation'),
    'when_equation': b_ifeq('WhenEquation'),
    'if_statement': b_ifst,
    'when_statement': lambda n: E('WhenStatement', n.span, cond=val(n.one('c')), body=vals(n.all('e'))),
    'while_statement': lambda n: E('WhileStatement', n.span, cond=val(n.one('c')), body=vals(n.all('e'))),
    'for_equation': lambda n: E('ForEquation', n.span, indices=val(n.one('i')), body=vals(n.all('e'))),
    'for_statement': lambda n: E('ForStatement', n.span, indices=val(n.one('i')), body=vals(n.all('e'))),
    'for_indices': lambda n: W(vals(n.all('i')), n.span),
    'for_index': lambda n: E('ForIndex', n.span, name=name(n.one('n')), expr=opt(n, 'e')),
    'expression': b_expr,
    'simple_expression': chain('range'),
    'logical_expression': chain('lor'),
    'logical_term': chain('land'),
    'logical_factor': b_not,
    'relation': b_relation,
    'arithmetic_expression': b_arith,
    'term': b_fold,
    'factor': b_fold,
    'primary': b_primary,
    'component_reference': lambda n: E('ComponentReference', n.span, dummy=False, glob=n.has('glob'),
                                       path=vals(n.all('e'))),
    'component_reference_entry': lambda n: E('ComponentReferenceEntry', n.span, name=name(n.one('n')),
                                             subs=opt(n, 's') or []),
    'function_call_args': lambda n: W(opt(n, 'a') or [], n.span),
    'function_arguments': b_fargs,
    'function_arguments_non_first': b_fargs,
    'named_arguments': lambda n: W(vals(n.all('a')), n.span),
    'named_argument': lambda n: E('NamedFunctionArgument', n.span, name=name(n.one('n')), value=val(n.one('v'))),
    'function_argument': lambda n: E('ExpressionFunctionArgument', n.span, expr=val(n.one('e'))),
    'array_arguments': b_arrayargs,
    'array_arguments_non_first': lambda n: W(vals(n.all('e')), n.span),
    'output_expression_list': b_outputs,
    'array_subscripts': lambda n: W(vals(n.all('s')), n.span),
    'subscript': lambda n: E('Subscript', n.span, unbounded=n.has('colon'), expr=opt(n, 'e')),
    'annotation': lambda n: E('Annotation', n.span, props=val(n.one('c'))),
    'element': b_element,
    'type_prefix': b_prefix,
    'variable_type': b_type,
    'array_dimension': b_dim,
}

# observers of every tree class: attribute -> accessor; (attr, count, getter): indexed; callables get (dumper, node)
OBS = {
    'Root': [('inner', 'getInnerClasses')],
    '*Class': [('name', 'getName'), ('members', 'getVariables'), ('inner', 'getInnerClasses'),
               ('equations', 'getEquationSections'), ('algorithms', 'getAlgorithms'), ('external', 'isExternal'),
               ('language', 'getExternalLanguage'), ('call', '?ExternalFunctionCall'),
               ('extann', '?ExternalAnnotation'), ('annotation', '?Annotation')],
    'StandardFunction': ['*Class', ('pure', 'isPure')],
    'Model': ['*Class'], 'Record': ['*Class'], 'Package': ['*Class'],
    'PartialDerFunction': [('name', 'getName'), ('derived', 'getDerivedFunction'), ('vars', 'getIndependentVariables')],
    'Member': [('name', 'getName'), ('type', 'getType'), ('prefix', 'getTypePrefix'), ('public', 'isPublic'),
               ('mod', '?Modification')],
    'TypePrefix': [('discrete', 'isDiscrete'), ('parameter', 'isParameter'), ('constant', 'isConstant'),
                   ('input', 'isInput'), ('output', 'isOutput')],
    'BuiltInType': [('kind', 'getBuiltInTypeKind'), ('dims', 'getDimensions')],
    'UserDefinedType': [('glob', 'isGlobalLookup'), ('path', 'getPathLength', 'getElement'), ('dims', 'getDimensions')],
    'ArrayDimension': [('expr', '?Expression'), ('size', '!Expression', 'getNumericSize')],
    'EquationSection': [('initial', 'isInitial'), ('body', 'getNumOfEquations', 'getEquation')],
    'Algorithm': [('initial', 'isInitial'), ('body', 'size', 'operator[]')],
    'EqualityEquation': [('lhs', 'getLhsExpression'), ('rhs', 'getRhsExpression')],
    'IfEquation': [('cond', 'getIfCondition'), ('body', 'getNumOfIfEquations', 'getIfEquation'),
                   ('conds', 'getNumOfElseIfConditions', 'getElseIfCondition'),
                   ('bodies', 'getNumOfElseIfConditions', ('getNumOfElseIfEquations', 'getElseIfEquation')),
                   ('els', 'getNumOfElseEquations', 'getElseEquation')],
    'WhenEquation': [('cond', 'getWhenCondition'), ('body', 'getNumOfWhenEquations', 'getWhenEquation'),
                     ('conds', 'getNumOfElseWhenConditions', 'getElseWhenCondition'),
                     ('bodies', 'getNumOfElseWhenConditions', ('getNumOfElseWhenEquations', 'getElseWhenEquation')),
                     ('els', 'getNumOfElseEquations', 'getElseEquation')],
    'IfStatement': [('cond', 'getIfCondition'), ('block', 'getIfBlock'),
                    ('conds', 'getNumOfElseIfBlocks', 'getElseIfCondition'),
                    ('blocks', 'getNumOfElseIfBlocks', 'getElseIfBlock'), ('els', '?ElseBlock')],
    'StatementsBlock': [('body', 'size', 'operator[]')],
    'WhenStatement': [('cond', 'getCondition'), ('body', 'size', 'operator[]')],
    'WhileStatement': [('cond', 'getCondition'), ('body', 'size', 'operator[]')],
    'ForEquation': [('indices', 'getNumOfForIndices', 'getForIndex'), ('body', 'getNumOfEquations', 'getEquation')],
    'ForStatement': [('indices', 'getNumOfForIndices', 'getForIndex'), ('body', 'getNumOfStatements', 'getStatement')],
    'ForIndex': [('name', 'getName'), ('expr', '?Expression')],
    'BreakStatement': [], 'ReturnStatement': [],
    'AssignmentStatement': [('dest', 'getDestinations'), ('expr', 'getExpression')],
    'CallStatement': [('call', 'getCall')],
    'Call': [('callee', 'getCallee'), ('args', 'getArguments')],
    'Tuple': [('exprs', 'size', 'getExpression')],
    'Operation': [('kind', 'getOperationKind'), ('args', 'getArguments')],
    'Constant': [('value', '#variant')],
    'ComponentReference': [('dummy', 'isDummy'), ('glob', 'isGlobalLookup'), ('path', 'getPathLength', 'getElement')],
    'ComponentReferenceEntry': [('name', 'getName'), ('subs', 'getNumOfSubscripts', 'getSubscript')],
    'Subscript': [('unbounded', 'isUnbounded'), ('expr', '~isUnbounded', 'getExpression')],
    'ArrayConstant': [('values', 'size', 'operator[]')],
    'ArrayForGenerator': [('value', 'getValue'), ('indices', 'getNumIndices', 'getIndex')],
    'ExpressionFunctionArgument': [('expr', 'getExpression')],
    'NamedFunctionArgument': [('name', 'getName'), ('value', 'getValue')],
    'ReductionFunctionArgument': [('expr', 'getExpression'), ('indices', 'getNumOfForIndices', 'getForIndex')],
    'ExternalFunctionCall': [('dest', '?Destination'), ('callee', 'getCallee'), ('args', 'getArguments')],
    'Modification': [('mods', '?ClassModification'), ('expr', '?Expression')],
    'ClassModification': [('args', 'getArguments')],
    'ElementModification': [('name', 'getName'), ('each', 'hasEachProperty'), ('final', 'hasFinalProperty'),
                            ('mod', '?Modification')],
    'Annotation': [('props', 'getProperties')],
}
