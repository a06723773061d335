// Instantiates the scheduler and the dependency graphs of the repository on
// entities known only through the traits; nothing here is ever run.
#include "marco/Modeling/Scheduling.h"

namespace ctl {
struct Var {
  int id;
};
struct Eq;
struct Comp;
} // namespace ctl

namespace marco::modeling::dependency {
template <>
struct VariableTraits<ctl::Var *> {
  using Id = ctl::Var *;
  static Id getId(ctl::Var *const *v);
};
template <>
struct EquationTraits<ctl::Eq *> {
  using Id = ctl::Eq *;
  using VariableType = ctl::Var *;
  using AccessProperty = marco::modeling::internal::dependency::EmptyAccessProperty;
  static Id getId(ctl::Eq *const *e);
  static size_t getNumOfIterationVars(ctl::Eq *const *e);
  static IndexSet getIterationRanges(ctl::Eq *const *e);
  static std::vector<Access<VariableType, AccessProperty>> getWrites(ctl::Eq *const *e);
  static std::vector<Access<VariableType, AccessProperty>> getReads(ctl::Eq *const *e);
};
template <>
struct SCCTraits<ctl::Comp *> {
  using ElementRef = ctl::Eq *;
  static std::vector<ElementRef> getElements(ctl::Comp *const *c);
  static std::vector<ElementRef> getDependencies(ctl::Comp *const *c, ElementRef e);
};
} // namespace marco::modeling::dependency

template class marco::modeling::Scheduler<ctl::Var *, ctl::Comp *>;
template class marco::modeling::SCCsDependencyGraph<ctl::Comp *>;

namespace ctl {
using namespace marco::modeling;
using Arrays = ArrayEquationsDependencyGraph<Var *, Eq *>;
std::vector<Arrays::SCC> arrays(mlir::MLIRContext *c, llvm::ArrayRef<Eq *> es) {
  Arrays g(c);
  g.addEquations(es);
  return g.getSCCs();
}
} // namespace ctl

template class marco::modeling::scheduling::ScheduledEquation<ctl::Eq *>;
template class marco::modeling::scheduling::ScheduledSCC<
    marco::modeling::scheduling::ScheduledEquation<ctl::Eq *>>;

namespace ctl {
Arrays::SCC component(const Arrays::Base &g, std::vector<Arrays::EquationDescriptor> &es) {
  return Arrays::SCC(g, es.begin(), es.end());
}
} // namespace ctl

template class marco::modeling::internal::dependency::SCC<ctl::Arrays::Base>;
template class marco::modeling::internal::dependency::ArrayEquationTraits<ctl::Eq *>;
