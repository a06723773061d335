AI = 'abstract interpretation of the resolved C++ syntax tree'

prop('C01', 'Type tests on nodes and access functions agree with the class hierarchy',
     'For every pair of a concrete class C and a class T of the syntax-tree, access-function and dimension-access '
     'hierarchies, asking whether an object of C is a T answers yes exactly when C derives from T. Hence a checked '
     'cast never reinterprets an object as an unrelated class and dispatch on node types never takes a wrong branch.',
     ['programs'], 'every node a Modelica program can give rise to, every pair (concrete class, queried class)',
     'No test builds more than a few node types and none checks negative answers across the hierarchy (2700+ pairs).',
     [AST, 'lib/AST/BaseModelica/*.cpp', 'include/marco/Modeling/AccessFunction*.h',
      'include/marco/Modeling/DimensionAccess*.h'],
     [('kind tag stored by constructors', 'constructors of ASTNode, AccessFunction and DimensionAccess subclasses'),
      ('type tests', 'classof() of every class')],
     AI + ': every constructor and every type test on every (class, class) pair',
     'All pairs are enumerated from the current class hierarchy and each type test is evaluated on the tag that each '
     'constructor stores; trusts the clang front end and the small interpreter.')

prop('C02', 'Cloning a syntax tree yields an equal, independent, well-linked tree',
     'Cloning any syntax-tree node yields a node of the same class with equal attributes and clones of all children '
     'in the same order, each of whose parent is the new node; the original tree is left unchanged and shares no '
     'child with the clone.',
     ['programs'], 'every node class, every presence pattern of optional children and every list length',
     'No test clones a node; the guarantee ranges over every class and child configuration.',
     ['lib/AST/BaseModelica/*.cpp', AST],
     [('copy constructors and clone()', 'every class deriving from ASTNode'), ('parent links', 'ASTNode::setParent')],
     AI + ': clone and copy constructors on opaque attributes and children',
     'Attributes and children are opaque tokens, so the result holds for all values; list lengths are enumerated '
     '(0..3 quick, 0..6 thorough), children are covered by induction.')

prop('C03', 'What is stored into a syntax-tree node is what its accessors return',
     'After setting an attribute or child list of a syntax-tree node, every accessor of that attribute (value, count, '
     'indexed, const and non-const, presence test) returns what was last stored, in order; stored children have the '
     'node as parent and no other attribute of the node changes. Type prefixes answer each variability and causality '
     'query according to the qualifiers they were built with.',
     ['programs', 'histories'], 'every node class, every value stored, every sequence set / set again',
     'The tests of this build exercise no node accessor at all.',
     ['lib/AST/BaseModelica/*.cpp', AST],
     [('setters and accessors', 'every class deriving from ASTNode'),
      ('type prefix queries', 'lib/AST/BaseModelica/TypePrefix.cpp')],
     AI + ': setter/accessor pairs on opaque values',
     'Setter/accessor pairs are recognised by the public naming scheme; values are opaque tokens, list lengths '
     'enumerated.')

prop('C04', 'The JSON dump of a syntax tree loses nothing',
     'The JSON form of every syntax-tree node contains all its attributes and all its children (each exactly once, in '
     'order) under a kind name that distinguishes it from every other node class.',
     ['programs'], 'every node class and every content of its fields',
     'No test dumps a tree; the guarantee ranges over all classes and all their fields.',
     ['lib/AST/BaseModelica/*.cpp'],
     [('toJSON', 'every class deriving from ASTNode'), ('kind names', 'lib/AST/BaseModelica/ASTNode.cpp')],
     AI + ': which opaque fields reach the produced JSON value',
     'Information-flow argument on opaque tokens: each field must reach the dump or decide what is dumped; numeric '
     'formatting is trusted to LLVM.')

prop('C05', 'Derived queries on syntax trees read the declared information',
     'The derived queries of the syntax tree (start value and fixed flag of a modification, inline / derivative / '
     'inverse annotations, function signature types, record member lookup, dotted component names, array shape, rank '
     'and subscripted types) return the information the tree declares, wherever it stands among the other arguments '
     'or members, and report absence exactly when it is not declared.',
     ['programs', 'inputs'], 'every tree in which the looked-up item is absent or stands at any position',
     'None of these queries is exercised by a test of this build.',
     ['lib/AST/BaseModelica/*.cpp'],
     [('modification queries', 'lib/AST/BaseModelica/Modification.cpp, ClassModification.cpp'),
      ('annotation queries', 'lib/AST/BaseModelica/Annotation.cpp'),
      ('type and shape queries', 'lib/AST/BaseModelica/VariableType.cpp, Member.cpp')],
     AI + ': queries on trees built by the code\'s own setters',
     'Arguments lists up to length 4 with the item absent or at each position; unrelated content is opaque.')

ZD = 'abstract interpretation in a zone (difference-bound) domain'

prop('C06', 'Interval and box algebra is exact on every bound',
     'For ranges [b,e), multidimensional ranges and points: a generic point belongs to the result of an intersection, '
     'subtraction, merge, translation, slice, append or bounding operation exactly when set theory says so; the pieces '
     'of a subtraction are disjoint and non-empty; containment and overlap tests agree with membership; the size is '
     'the number of points iterated over and iteration visits every point exactly once.',
     ['inputs'], 'every integer value of the bounds (64-bit overflow excluded), ranks as stated in the note',
     'Tests use a few literal ranges; correctness depends on all the relative orders of the bounds.',
     ['lib/Modeling/Range.cpp', 'lib/Modeling/MultidimensionalRange.cpp', 'lib/Modeling/Point.cpp',
      'include/marco/Modeling/*.h'],
     [('range operations', 'lib/Modeling/Range.cpp'),
      ('box operations', 'lib/Modeling/MultidimensionalRange.cpp'),
      ('points', 'lib/Modeling/Point.cpp')],
     ZD + ': membership of a generic point in the result',
     'Bounds are unconstrained integers; ranks 1..2 (3 in the thorough tier) for binary operations, 1..4 for '
     'selections; iteration up to 9 points.')

prop('C07', 'Equality, ordering and hashing of ranges, boxes and points agree',
     'For points, ranges, multidimensional ranges and index sets: equality is reflexive, symmetric and equivalent to '
     'having the same points, != is its negation, the ordering is a strict total order compatible with equality, and '
     'equal values have equal hashes.',
     ['inputs'], 'every pair and triple of values',
     'Containers and sorting rely on these laws for all values; tests compare a few literals.',
     ['lib/Modeling/Range.cpp', 'lib/Modeling/MultidimensionalRange.cpp', 'lib/Modeling/Point.cpp',
      'lib/Modeling/IndexSet.cpp'],
     [('comparison operators', 'lib/Modeling/*.cpp'), ('hash_value', 'lib/Modeling/*.cpp')],
     ZD + ': comparison laws on generic pairs and triples',
     'Triples of rank-1 and pairs of rank-1..3 boxes; llvm::hash_combine is an opaque injective term, so only equal '
     'inputs are known to hash equally.')

prop('C08', 'Index sets behave as mathematical sets of points',
     'Adding or removing points, ranges or other sets (the set itself included), building from a list, intersecting, '
     'complementing, slicing, projecting, appending and compacting give an index set whose points are exactly those '
     'set theory prescribes; the stored ranges never overlap; contains, overlaps, ==, empty, size and iteration agree '
     'with the points; operands and copies stay unchanged. This holds for every history, whatever the shape the '
     'underlying range tree has taken.',
     ['inputs', 'histories'], 'every sequence of operations on sets with arbitrary integer bounds',
     'Tests use literal ranges and trees of one node; splitting, collapsing and relocation of tree nodes are driven by '
     'the history and the relative position of the bounds.',
     ['lib/Modeling/IndexSet.cpp', 'lib/Modeling/RTree.cpp', 'include/marco/Modeling/RTree.h'],
     [('set operations', 'lib/Modeling/IndexSet.cpp'),
      ('tree maintenance', 'include/marco/Modeling/RTree.h')],
     ZD + ': membership of a generic point after the operation, object lifetimes tracked',
     'Operands of up to 3 boxes of rank 1 or 2 of rank 2 with symbolic bounds; multi-level trees with 4-5 disjoint '
     'boxes at known positions in sampled (thorough: more) insertion orders and node capacities (1,2), (2,3), followed '
     'by one operation with a symbolic box.')

GR = ['lib/Parser/BaseModelica/Parser.cpp', 'include/marco/Parser/BaseModelica/Parser.h']
PT = 'Repetitions and options of a rule are unrolled to 3 (thorough: 4) choices; nesting is covered by induction over ' \
     'the grammar (a called rule is replaced by its specification); token kinds and payloads are unconstrained.'

prop('C09', 'The parser accepts exactly the documented language',
     'The parser accepts a class definition, section, equation, statement, expression or any other construct exactly '
     'when the documented grammar (the supported Modelica subset, including the closing name of a class being its '
     'opening name) derives it, whatever precedes and follows it and however deeply it is nested; it consumes exactly '
     'the tokens of the construct.',
     ['programs', 'inputs'], 'every token sequence',
     'No parser test is part of this build, and the language is infinite.',
     GR, [('parsing functions', 'lib/Parser/BaseModelica/Parser.cpp: parse*'),
          ('token look-ahead', 'Parser::advance, Parser::accept')],
     AI + ': parsing functions on abstract token streams against a reference grammar',
     PT + ' Redeclarations and replaceable elements are outside of the supported language.')

prop('C10', 'The syntax tree says what the source says',
     'For every accepted source, the syntax tree has exactly the declarations, sections, equations, statements and '
     'expressions of the source, in order, with their names, literals, flags (initial, final, each, public/protected, '
     'pure, variability, causality), operators with Modelica precedence and associativity, and arguments in order.',
     ['programs'], 'every accepted token sequence',
     'No parser test is part of this build; a swapped operand or a lost flag produces a different simulation.',
     GR + ['lib/AST/BaseModelica/*.cpp'],
     [('tree construction', 'lib/Parser/BaseModelica/Parser.cpp: parse*')],
     AI + ': trees built by the parsing functions compared with the denotation of the phrase',
     PT)

prop('C11', 'Rejected sources get a located error, never a crash or a hang',
     'On every token sequence, parsing terminates without using an absent node or the payload of a token of another '
     'kind, and whenever it fails an error has been reported whose location is the first token that cannot continue '
     'the source.',
     ['inputs', 'faults'], 'every malformed token sequence',
     'Malformed inputs are unbounded in number; the tests of this build parse nothing.',
     GR, [('error paths', 'lib/Parser/BaseModelica/Parser.cpp: parse*, emitUnexpectedTokenError')],
     AI + ': error paths of the parsing functions on every viable prefix and every offending token kind',
     PT)

prop('C12', 'Every syntax tree node is located where its source stands',
     'Expressions, equations, statements, arguments, modifications and their lists are located from the first to the '
     'last token of the construct they represent (a subphrase that is the whole phrase keeps its own location); the '
     'location of every other node is well formed and within the construct.',
     ['programs'], 'every accepted token sequence',
     'Diagnostics and debug locations rely on it for every construct; no test looks at a location.',
     GR, [('location bookkeeping', 'lib/Parser/BaseModelica/Parser.cpp: loc, setLocation')],
     AI + ': locations of the nodes built on abstract token positions',
     PT)

prop('C13', 'Access functions are maps from points to points',
     'An access function applied to a point, to an index set, or backwards (inverse image within parent indices, inverse '
     'function) yields exactly the points its description says; composition with `combine` applies the first function, '
     'then the second; clones, re-dimensioned copies and reconstructions from affine maps or generalized accesses are the '
     'same function; functions that compare equal map every point alike; reported traits (constant, identity, affine, '
     'invertible, number of dimensions and results) are true.',
     ['inputs'], 'every point, offset and set of indices',
     'Every matching and scheduling decision on array equations goes through these maps; tests sample a few offsets and '
     'never negative divisions, repeated dimensions, or several parent ranges.',
     ['lib/Modeling/AccessFunction*.cpp', 'lib/Modeling/DimensionAccess*.cpp'],
     [('evaluation and inverse images', 'lib/Modeling/AccessFunction*.cpp: map, inverseMap, inverse, combine'),
      ('dimension accesses', 'lib/Modeling/DimensionAccess*.cpp: map, getAffineExpr, operator==')],
     AI + ': zone domain with sums and floor divisions as terms, generic point, modelled affine expressions',
     'Function shapes are enumerated (rotations and translations, repeated dimensions, constants, products, floor '
     'divisions, modulo, ranges, iteration spaces; up to 3 dimensions); coordinates and offsets are unconstrained.')

MM = ['lib/Modeling/MCIM*.cpp', 'include/marco/Modeling/MCIM.h']
prop('C14', 'Incidence matrices hold exactly the pairs put into them',
     'A compressed incidence matrix holds exactly the (equation, variable) pairs that its history of operations denotes: '
     'applying accesses, setting and unsetting pairs, adding and subtracting matrices, filtering rows or columns, changing the '
     'equation and variable spaces, copying, assigning and clearing. Its projections, comparison, iteration and emptiness agree '
     'with the pairs held, its groups (keys under one access) likewise, and operands of non-mutating operations are unchanged.',
     ['inputs', 'histories'], 'every history of operations, in any box decomposition of the index sets',
     'The compression (groups by access plus extra points) makes an operation right or wrong depending on how earlier '
     'operations stored the pairs; tests check a handful of histories, mostly with a single identity access.',
     MM, [('matrix operations', 'lib/Modeling/MCIM.cpp: MCIM'), ('groups', 'lib/Modeling/MCIMGroup*.cpp')],
     AI + ': MCIM and MCIMGroup on opaque points, index sets and access functions replaced by their contracts',
     'Histories with up to two accesses and extra points over three points per side; points are opaque (only equality is '
     'observable), so the result holds for every choice of distinct indices.')

prop('C15', 'Local matching solutions are valid and complete',
     'The local matching solutions computed from the accesses of an equation, or from an incidence matrix, never match '
     'an equation or variable index twice, contain only pairs that some access holds, live on the given spaces, and '
     'together contain every such pair; the announced number of solutions is the number enumerated, the enumeration ends, '
     'requesting solutions lazily in any order yields the same ones, and the validity test accepts exactly the one-to-one matrices.',
     ['inputs', 'histories'], 'every set of accesses and spaces',
     'Matching of array equations picks from these solutions; tests cover one or two accesses on one box and never the '
     'constant or generic ones mixed with others.',
     ['lib/Modeling/LocalMatchingSolutions*.cpp', 'lib/Modeling/MCIM.cpp'],
     [('from accesses', 'lib/Modeling/LocalMatchingSolutionsVAF.cpp: VAFSolutions, Generator*'),
      ('from a matrix', 'lib/Modeling/MCIM.cpp: splitGroups; LocalMatchingSolutionsMCIM.cpp')],
     AI + ': solution generators on opaque points, index sets and access functions replaced by their contracts',
     'Up to two (thorough: three) accesses of each kind on spaces of up to four points of rank one or two.')

prop('C16', 'Texts are split into the tokens of the language',
     'The lexer turns any text into the tokens of Modelica by longest match: each token has the right kind (keywords only for '
     'their exact spelling), carries the characters it stands for (strings with their escapes resolved, quoted identifiers, names) '
     'and is located from its first to its last character; white space and comments separate tokens and leave none; text that '
     'is no token is reported as an error token; the end of the text is always reached and reported again if asked; the name '
     'printed for each kind of token is the one of that kind.',
     ['inputs'], 'every sequence of bytes',
     'Texts are unbounded; the lexer tests take some forty short texts and never an unterminated comment, a character after a '
     'decimal point, a non-ASCII byte or an escape at the end of a string.',
     ['lib/Parser/BaseModelica/StateMachine.cpp', 'lib/Parser/BaseModelica/Token.cpp', 'include/marco/Lexer/*.h'],
     [('one step', 'lib/Parser/BaseModelica/StateMachine.cpp: step and its handlers'),
      ('driver', 'include/marco/Lexer/Lexer.h: Lexer::scan'),
      ('spellings', 'lib/Parser/BaseModelica/Token.cpp: toString')],
     AI + ': one step of the tokeniser on a symbolic character, least fixpoint of its product with a reference tokeniser',
     'The character is any byte; the text, digits and positions gathered so far are opaque, so the inductive step covers texts of '
     'any length. The reference tokeniser is the oracle. Driver on texts of up to three characters.')

prop('C17', 'Every value is scheduled to be computed before it is used',
     'In the schedule of the components of a model, each component comes after those it depends on and all of its scalar '
     'equations are scheduled exactly once. An equation scheduled as a range iterates, in every dimension, in a direction in which '
     'each element of its own variable that it reads has been computed before; an equation for which there is none has its '
     'indices scheduled one by one, each after the ones whose results it reads. Array equations depend on each other exactly if one '
     'reads an element that the other writes, and the components returned are the strongly connected ones of that relation.',
     ['programs', 'schedules'], 'every set of equations, access functions, index sets and components',
     'The scheduler and these graphs are header templates that the tests of this build never instantiate.',
     ['include/marco/Modeling/Scheduling.h', 'include/marco/Modeling/*DependencyGraph.h'],
     [('iteration directions', 'include/marco/Modeling/Scheduling.h: getSchedulingDirections'),
      ('order of the indices', 'include/marco/Modeling/ScalarEquationsDependencyGraph.h: addEdges, postOrder'),
      ('order of the components', 'include/marco/Modeling/SCCsDependencyGraph.h: addSCCs'),
      ('dependencies of array equations', 'include/marco/Modeling/ArrayEquationsDependencyGraph.h: addEdges, getSCCs')],
     AI + ': scheduler and dependency graphs on entities known only through their traits, symbolic offsets',
     'Offsets of the accesses are symbols; ranks 1 to 3, up to three reads; digraphs, R-trees, index sets and access functions '
     'are replaced by their contracts. Equations without algebraic loops among their own indices, as documented.')

prop('C18', 'Every equation is matched with a variable it can compute, whenever possible',
     'The matching succeeds exactly if the scalar equations and the scalar variables of a model can be matched one-to-one such '
     'that each equation accesses its variable. It then returns every equation and every variable index exactly once, and each '
     'equation returned is paired with variable indices to which its accesses admit a one-to-one choice. This holds with and '
     'without the simplification of leaf nodes, for every scalarization threshold, and in whatever order the parallel steps run. '
     'The numbers of scalar variables and equations are the sums of their sizes.',
     ['programs', 'schedules'], 'every set of array variables and equations and their accesses',
     'The matching is a header template that the tests of this build never instantiate.',
     ['include/marco/Modeling/Matching.h', 'lib/Modeling/Matching.cpp'],
     [('result', 'include/marco/Modeling/Matching.h: MatchingGraphCRTP::match'),
      ('leaves', 'include/marco/Modeling/Matching.h: matchLeafNodes'),
      ('scalarization', 'include/marco/Modeling/Matching.h: getScalarGraph'),
      ('augmenting paths', 'include/marco/Modeling/Matching.h: expandFrontier, filterCandidateAugmentingPaths, applyPath')],
     AI + ': matching graph on entities known only through their traits, against the scalar bipartite matching oracle',
     'Points are opaque: a scene stands for all placements of the indices with its incidence. Up to four variables and five '
     'equations of up to four indices; accesses map an index to at most one index. Graphs, incidence matrices, local matching '
     'solutions, access functions and index sets are replaced by their contracts.')

prop('C19', 'Graphs hold exactly what was put in them, and their keys work in hash tables',
     'After any additions of vertices and edges and removals of vertices, a directed or undirected graph lists, with or without a '
     'filter, exactly the vertices and edges added and not removed, each once; the edges leaving a vertex and the vertices linked '
     'to it are exactly its own; descriptors lead to the properties given when adding, and compare equal only if they denote the '
     'same thing; the counts agree; and all storage is released exactly once. The graphs with an entry node behave so too, hide '
     'the entry among the vertices, and link it as they promise. Keys for hash tables (descriptors, points, ranges, '
     'multidimensional ranges, equation views): the reserved keys differ from each other and from all others, equality is identity, '
     'equal keys hash alike.',
     ['histories', 'inputs'], 'every history of additions and removals; every pair of keys',
     'Histories are unbounded; the tests use a few graphs and no hash table of edges with erasures.',
     ['include/marco/Modeling/Graph.h', 'include/marco/Modeling/SingleEntry*.h', 'include/marco/Modeling/{Point,Range,MultidimensionalRange}.h',
      'include/marco/Modeling/DependencyGraph.h'],
     [('graphs', 'include/marco/Modeling/Graph.h: Graph'),
      ('entry nodes', 'include/marco/Modeling/SingleEntryWeaklyConnectedDigraph.h: SingleEntryWeaklyConnectedDigraph'),
      ('keys', 'include/marco/Modeling/Graph.h: llvm::DenseMapInfo')],
     AI + ': the graph templates and llvm::DirectedGraph on histories against a list of vertices and edges, with tracked storage',
     'Up to three vertices at a time, three edges (thorough: four) and two removals, plus complete graphs; properties are opaque. '
     'Undirected graphs without self loops. LLVM and standard containers are replaced by their contracts.')
