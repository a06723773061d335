// Instantiates the matching of the repository on variables and equations known
// only through the traits; nothing here is ever run.
#include "marco/Modeling/Matching.h"

namespace ctl {
struct Var {
  int id;
};
struct Eq;
} // namespace ctl

namespace marco::modeling::matching {
template <>
struct VariableTraits<ctl::Var *> {
  using Id = ctl::Var *;
  static Id getId(ctl::Var *const *v);
  static size_t getRank(ctl::Var *const *v);
  static IndexSet getIndices(ctl::Var *const *v);
  static llvm::raw_ostream &dump(ctl::Var *const *v, llvm::raw_ostream &os);
};
template <>
struct EquationTraits<ctl::Eq *> {
  using Id = ctl::Eq *;
  using VariableType = ctl::Var *;
  static Id getId(ctl::Eq *const *e);
  static size_t getNumOfIterationVars(ctl::Eq *const *e);
  static IndexSet getIndices(ctl::Eq *const *e);
  static std::vector<Access<ctl::Var *>> getAccesses(ctl::Eq *const *e);
  static llvm::raw_ostream &dump(ctl::Eq *const *e, llvm::raw_ostream &os);
};
} // namespace marco::modeling::matching

namespace ctl {
using namespace marco::modeling;
using Graph = MatchingGraph<Var *, Eq *>;
bool solve(mlir::MLIRContext *c, llvm::ArrayRef<Var *> vs, llvm::ArrayRef<Eq *> es,
           llvm::SmallVectorImpl<Graph::MatchingSolution> &out, bool leaves, bool scalarize, double threshold) {
  Graph g(c);
  for (Var *v : vs)
    g.addVariable(v);
  for (Eq *e : es)
    g.addEquation(e);
  marco::modeling::matching::MatchingOptions o;
  o.enableLeafNodesSimplification = leaves;
  o.enableScalarization = scalarize;
  o.scalarAccessThreshold = threshold;
  return g.match(out, o);
}
std::pair<size_t, size_t> count(mlir::MLIRContext *c, llvm::ArrayRef<Var *> vs, llvm::ArrayRef<Eq *> es) {
  Graph g(c);
  for (Var *v : vs)
    g.addVariable(v);
  for (Eq *e : es)
    g.addEquation(e);
  return {g.getNumberOfScalarVariables(), g.getNumberOfScalarEquations()};
}
} // namespace ctl

template class marco::modeling::internal::matching::result::MatchingSolution<ctl::Eq *, ctl::Var *>;
