import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.facts import Program, srcs, LLVM, VERIF
Program(srcs('lib/AST/BaseModelica/*.cpp', 'lib/AST/*.cpp', 'lib/Modeling/*.cpp'))
Program(srcs('lib/Parser/BaseModelica/*.cpp', 'lib/Lexer/*.cpp', 'lib/AST/BaseModelica/*.cpp', 'lib/AST/*.cpp'))
Program(srcs('lib/Modeling/Point.cpp', 'lib/Modeling/Range.cpp', 'lib/Modeling/RTree.cpp', 'lib/Modeling/MultidimensionalRange.cpp', 'lib/Modeling/IndexSet.cpp', 'lib/Modeling/AccessFunction*.cpp', 'lib/Modeling/DimensionAccess*.cpp'))
Program(srcs('lib/Modeling/MCIM*.cpp', 'lib/Modeling/LocalMatchingSolutions*.cpp'))
Program([VERIF + '/controls/graphs.cpp'])
Program([VERIF + '/controls/matching.cpp'] + srcs('lib/Modeling/Matching.cpp'))
Program([VERIF + '/controls/containers.cpp'] + srcs('lib/Modeling/Point.cpp', 'lib/Modeling/Range.cpp', 'lib/Modeling/MultidimensionalRange.cpp'), more=[LLVM + '/include/llvm/ADT/DirectedGraph.h'])
