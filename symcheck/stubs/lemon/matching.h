#pragma once
#include <lemon/list_graph.h>
namespace lemon {
template <typename GR, typename WM> struct MaxWeightedPerfectMatching {
  const GR &g;
  const WM &w;
  typedef typename WM::Value Value;
  MaxWeightedPerfectMatching(const GR &g_, const WM &w_) : g(g_), w(w_) {}
  void init() {}
  bool start() { return run(); }
  bool run() { return sc_run(&g, &w, sizeof(Value)) != 0; }
  bool matching(const typename GR::Edge &e) const { return sc_matched(&g, e.id_) != 0; }
  typename GR::Node mate(const typename GR::Node &n) const { return typename GR::Node(sc_mate(&g, n.id_)); }
  Value matchingWeight() const {
    Value t = 0;
    for (int e = g.edgeNum() - 1; e >= 0; --e)
      if (sc_matched(&g, e)) t += w[typename GR::Edge(e)];
    return t;
  }
};
}  // namespace lemon
