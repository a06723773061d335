// Instantiates the graphs of the repository with properties known only by name,
// and their hash keys; nothing here is ever run.
#include "marco/Modeling/DependencyGraph.h"
#include "marco/Modeling/Graph.h"
#include "marco/Modeling/SingleEntryDigraph.h"
#include "marco/Modeling/SingleEntryWeaklyConnectedDigraph.h"

namespace ctl {
using namespace marco::modeling::internal;
struct P {
  int id;
};
using Names = std::vector<int>;
inline bool chosen(const P &p) { return p.id % 2 == 1; }

template <typename G>
struct Probe {
  using V = typename G::VertexDescriptor;
  using E = typename G::EdgeDescriptor;
  static void make() { G g; }
  static V add(G &g, P p) { return g.addVertex(p); }
  static E link(G &g, V a, V b, P p) { return g.addEdge(a, b, p); }
  static void drop(G &g, V v) { g.removeVertex(v); }
  static P &vertex(G &g, V v) { return g[v]; }
  static P &edge(G &g, E e) { return g[e]; }
  static const P &cvertex(const G &g, V v) { return g[v]; }
  static const P &cedge(const G &g, E e) { return g[e]; }
  static void vertices(const G &g, std::vector<V> &out) {
    for (V v : g.getVertices())
      out.push_back(v);
  }
  static void someVertices(const G &g, std::vector<V> &out) {
    auto e = g.verticesEnd(chosen);
    for (auto i = g.verticesBegin(chosen); i != e; ++i)
      out.push_back(*i);
  }
  static void edges(const G &g, std::vector<E> &out) {
    for (E e : g.getEdges())
      out.push_back(e);
  }
  static void someEdges(const G &g, std::vector<E> &out) {
    auto e = g.edgesEnd(chosen);
    for (auto i = g.edgesBegin(chosen); i != e; ++i)
      out.push_back(*i);
  }
  static void outgoing(const G &g, V v, std::vector<E> &out) {
    for (E e : g.getOutgoingEdges(v))
      out.push_back(e);
  }
  static void someOutgoing(const G &g, V v, std::vector<E> &out) {
    auto e = g.outgoingEdgesEnd(v, chosen);
    for (auto i = g.outgoingEdgesBegin(v, chosen); i != e; ++i)
      out.push_back(*i);
  }
  static void linked(const G &g, V v, std::vector<V> &out) {
    for (V w : g.getLinkedVertices(v))
      out.push_back(w);
  }
  static bool sameVertex(const G &, const V &a, const V &b) { return a == b; }
  static bool otherVertex(const G &, const V &a, const V &b) { return a != b; }
  static bool before(const G &, const V &a, const V &b) { return a < b; }
  static bool sameEdge(const G &, const E &a, const E &b) { return a == b; }
  static bool otherEdge(const G &, const E &a, const E &b) { return a != b; }
  static size_t countVertices(const G &g) { return g.verticesCount(); }
  static size_t countEdges(const G &g) { return g.edgesCount(); }
};
template struct Probe<DirectedGraph<P, P>>;
template struct Probe<UndirectedGraph<P, P>>;

template <typename G>
struct Entry {
  using V = typename G::VertexDescriptor;
  using E = typename G::EdgeDescriptor;
  static void make() { G g; }
  static V add(G &g, P p) { return g.addVertex(p); }
  static E link(G &g, V a, V b, P p) { return g.addEdge(a, b, p); }
  static P &vertex(G &g, V v) { return g[v]; }
  static P &edge(G &g, E e) { return g[e]; }
  static V entry(const G &g) { return g.getEntryNode(); }
  static void vertices(const G &g, std::vector<V> &out) {
    auto e = g.verticesEnd();
    for (auto i = g.verticesBegin(); i != e; ++i)
      out.push_back(*i);
  }
  static void edges(const G &g, std::vector<E> &out) {
    for (E e : g.getEdges())
      out.push_back(e);
  }
  static void outgoing(const G &g, V v, std::vector<E> &out) {
    auto e = g.outgoingEdgesEnd(v);
    for (auto i = g.outgoingEdgesBegin(v); i != e; ++i)
      out.push_back(*i);
  }
  static void linked(const G &g, V v, std::vector<V> &out) {
    auto e = g.linkedVerticesEnd(v);
    for (auto i = g.linkedVerticesBegin(v); i != e; ++i)
      out.push_back(*i);
  }
};
template struct Entry<marco::modeling::internal::dependency::SingleEntryWeaklyConnectedDigraph<P, P>>;
template struct Entry<marco::modeling::dependency::SingleEntryDigraph<P, P>>;

using Directed = DirectedGraph<P, P>;
using Undirected = UndirectedGraph<P, P>;
template <typename K>
struct Keys {
  using Info = llvm::DenseMapInfo<K>;
  static K empty() { return Info::getEmptyKey(); }
  static K tombstone() { return Info::getTombstoneKey(); }
  static bool equal(const K &a, const K &b) { return Info::isEqual(a, b); }
  static unsigned hash(const K &k) { return Info::getHashValue(k); }
};
template struct Keys<Directed::VertexDescriptor>;
template struct Keys<Directed::EdgeDescriptor>;
template struct Keys<Undirected::VertexDescriptor>;
template struct Keys<Undirected::EdgeDescriptor>;
template struct Keys<marco::modeling::Point>;
template struct Keys<marco::modeling::Range>;
template struct Keys<marco::modeling::MultidimensionalRange>;
template struct Keys<marco::modeling::IndexSet>;
template struct Keys<marco::modeling::internal::dependency::ReducedEquationView<Directed::VertexDescriptor>>;
} // namespace ctl
