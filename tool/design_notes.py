notes['C01'] = '''
*How.* For every concrete class the constructor is interpreted to learn the kind tag it stores; `classof` of every class
of the hierarchy is interpreted on it (all pairs of the syntax-tree, access-function and dimension-access hierarchies).
*Oracle:* the derives-from relation of the type-checked program. Exhaustive, no bound.'''
notes['C02'] = '''
*How.* clone() and copy constructors are interpreted on nodes with opaque attributes and children (every optional child
present/absent, every variant alternative). *Oracle:* structural equality with fresh children whose parent is the copy,
original unchanged. *Bounds:* lists of 0..3 children (0..6 thorough); children are covered by induction.'''
notes['C03'] = '''
*How.* Every setter followed by every accessor of the attribute (recognised by the public naming scheme), twice, on
opaque tokens. *Oracle:* what was stored. Plus the table of TypePrefix queries over all qualifier combinations.'''
notes['C04'] = '''
*How.* toJSON() on nodes with distinct tokens: each must reach the output or decide a branch. *Oracle:* the set of
attributes and children of the class (its fields). *Bounds:* lists of 0 and 2 children (0..4 thorough).'''
notes['C05'] = '''
*How.* Trees are built by the code's own setters, the looked-up item placed at every position among other items; the
queries are interpreted and compared with their meaning. *Note:* getEachProperty reads the flag of the first matching
argument; this is the documented behaviour and taken as such.'''
notes['C06'] = '''
*How.* Operations on intervals and boxes with symbolic bounds; for a generic point, membership in the result is compared
with the combination of the memberships in the operands on every part of the partition. *Bounds:* rank 1..3 (4 thorough).'''
notes['C07'] = '''
*How.* ==, !=, <, > on symbolic values; hash_value interpreted with the LLVM combiners as free functions: equal values
must feed equal terms. *Bounds:* rank 1..3.'''
notes['C08'] = '''
*How.* Index sets built by the code's own insertion out of symbolic boxes; union, difference, intersection, complement,
membership, slicing, iteration, equality are compared on a generic point; stored boxes must be disjoint and every R-tree
invariant the result relies on is exercised by shrinking the node capacity so that few boxes make deep trees.
*Bounds:* 3 boxes of rank 1, 2 of rank 2; trees up to three levels. *Note:* intersect() may return an empty set of rank 0
where the operands have rank n; an empty set has no rank for this property.'''
notes['C09'] = '''
*How.* Each parsing function is interpreted on a token stream whose tokens are opaque except for the kind sets the code
tests. The functions it calls are replaced by their contract (assume-guarantee: a callee consumes exactly one phrase of
its nonterminal, greedily, or fails at the first offending token), which is what this very check establishes for
each of them; recursion is thereby covered to any depth. The set of accepted token sequences of each function is
compared with the reference grammar (`checks/parsegrammar.py`), lists being unrolled until both sides repeat their states.
*Intended differences from the Modelica grammar, read from the code and its documentation:* trailing comma in an output list denotes an omitted last
output and the tree does not keep it; `a^b^c` is accepted, left-associative; unary plus is elided; redeclare and
replaceable are rejected (with an error).'''
notes['C10'] = '''
*How.* On the accepted streams of C09 the tree that is built is compared with the denotation attached to the grammar's
alternatives (constructor, flags, children in order).'''
notes['C11'] = '''
*How.* For each viable prefix of each phrase (and inside phrases that the implementation parses inline) every kind
of token that cannot continue it is put next, and also the end of file, forever. The run must end, in a failure, with
an error located at the offending token. Reading the payload of a token of another kind, or an absent node, is a trap.'''
notes['C12'] = '''
*How.* On the accepted streams of C09 each token has an opaque begin and end position; the locations attached to the nodes
are compared with the first and last token of the phrase.'''
notes['C13'] = '''
*How.* Access functions are built by the code's own factory out of dimension accesses and affine maps with symbolic offsets
and applied to symbolic points and boxes; `checks/affine.py` models MLIR's affine expressions (folding, simplification,
composition, compression). Sums of several variables and floor divisions become terms of the zone, related by
elimination. *Bounds:* the enumerated shapes (about 40 functions, 19 dimension accesses); one or two parent boxes.
The inverse image is specified under its documented precondition (accessed indices are within the image of the parents) and
for single-valued functions. Composing a multi-valued result used twice yields the product of its values in this
code base, an over-approximation that the property does not speak about.'''
notes['C14'] = '''
*How.* `checks/incidence.py` replaces index sets, boxes, points and access functions by their contracts (what C08 and C13
establish), on opaque points of which only equality can be observed; box decompositions and iteration orders vary
over three modes. Every history of up to two accesses (partial or total, overlapping or not, sharing the access) and
extra points is executed abstractly and followed by every unary and binary operation; the pairs held are compared with the
denotation of the history. Groups are decided separately, including the accesses without indices.
*Why not concretely:* nothing is run; the points are symbols, hence the verdict covers every placement of indices.'''
notes['C15'] = '''
*How.* Same domain. The lazy generators and the matrix-based solutions are executed on every combination of accesses and spaces;
requests go forwards and backwards, the range-based loop must end within fuel, and the sorting predicate is required to be a
strict weak ordering on the sequence sorted (std::sort is undefined otherwise).
*Bounds:* equation spaces of up to four points (rank 1 and 2), up to two or three accesses.'''
notes['C16'] = """
*How.* `checks/lexing.py` interprets one `StateMachine::step` on a symbolic character: a set of bytes that every comparison,
`switch`, table lookup or `<cctype>` call splits. Texts, digits and positions gathered so far are opaque terms (emptiness is kept),
and the same character drives a reference longest-match tokeniser (`Ref`). The states of the product are joined per location until
nothing changes; in each of them the tokens produced must be equal in kind, value and location, `step` must stay valid, and
the end of the text must yield a token after finitely many steps. An abstract counterexample is reported only when
interpreting a concrete text it suggests shows it; otherwise it is undecided. `Lexer::scan` is decided separately on scripted
buffers (each character once, the terminator repeatedly, the text not read past its end), the table of `toString` by enumeration.
*Bounds:* none on the length of texts; the values of numbers are opaque here. *Error tokens:* where they end and what the
tokeniser resumes with is not specified (the product continues from any state)."""
notes['C17'] = """
*How.* `controls/graphs.cpp` instantiates the header templates on entities without content; `checks/scheduling.py` interprets
the instantiations, the traits answering with symbolic entities: access functions of known dimension permutation and symbolic
offsets (directions), or opaque maps between opaque points (order of the indices). Digraphs (with their entry node), R-trees,
LLVM's graph visits and `parallelForEach` (every order of the callbacks) follow their contracts. For a range schedule the check
derives, from the sign constraints of the path, whether each read displacement has been computed earlier in the directions returned;
when the equation is split instead, the order of its scalar equations is compared with the reads relation.
*Bounds:* ranks 1 to 3, up to two reads (rank 1: three); up to three indices, components, equations. *Not covered:* algebraic
loops inside one equation (excluded by the documentation of the scheduler). Splitting an equation that could have been
iterated as a range is no violation."""

notes['C18'] = """
*How.* `controls/matching.cpp` instantiates the matching graph on variables and equations without content; `checks/matching.py`
interprets it, from `addVariable` to the returned solutions. Undirected graphs, incidence matrices, the decomposition of a matrix in
one-to-one parts (three different decompositions), access functions, index sets and the order of parallel callbacks follow their
contracts (the ones decided by C08, C13, C14, C15). The oracle is the scalar bipartite matching problem of the scene.
*Scenes:* one variable and equation with every pair of accesses; two of each with every assignment of accesses for six
combinations of sizes; every incidence of three scalar variables and equations; and an enumeration of larger ones with repeated
accesses. The options (simplification of leaves, scalarization, threshold) and orders rotate over the scenes; the thorough tier
takes their product. *Not covered:* accesses with several values for an index (the incidence matrix is built from inverse maps)."""

notes['C19'] = """
*How.* `controls/containers.cpp` instantiates the graphs, their entry-node variants and the `DenseMapInfo`s; `checks/containers.py`
interprets them together with the bodies of `llvm::DirectedGraph` (extracted from the installed header), on enumerated histories:
additions, removal of a vertex, further additions, another removal, destruction. After each step every listing, filtered listing,
incidence, property and count is compared with a plain list. Allocations are tracked: a use, a second release or a lost release is
a violation. Keys are taken from two graphs (and small points and ranges) and compared pairwise and with the reserved ones.
*Not covered:* self loops of undirected graphs (they are listed twice), `getDisjointSubGraphs` (it cannot be instantiated: the
graphs cannot be moved), keys of tables that are never erased from (`VariablesDependencyGraph`, `ClassDependencyGraph`)."""
