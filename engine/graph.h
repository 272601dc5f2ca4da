// Random network graphs: a description, its reference composition (double
// precision), and the NetGraph built from it with the nodes added in any order.
#pragma once
#include "layers.h"
#include "InputLayer.h"
#include "NetGraph.h"
#include "NetGraphNode.h"
#include <algorithm>
#include <set>

namespace cn {

struct Ref { int node, buf; };
struct GSpec {
  struct Node { LSpec l; std::vector<Ref> in; bool input = false; };
  std::vector<Node> nodes;
  size_t inputs = 0;
  Dim out(Ref r) const { return nodes[r.node].l.out[r.buf]; }
  std::vector<Ref> sinks() const {  // outputs nobody reads
    std::set<std::pair<int, int>> used; std::vector<Ref> s;
    for (auto& n : nodes) for (auto& r : n.in) used.insert({r.node, r.buf});
    for (int n = 0; n < (int)nodes.size(); n++) for (int b = 0; b < (int)nodes[n].l.out.size(); b++) if (!used.count({n, b})) s.push_back({n, b});
    return s;
  }
  size_t consumers(Ref q) const { size_t c = 0; for (auto& n : nodes) for (auto& r : n.in) c += r.node == q.node && r.buf == q.buf; return c; }
  // values of every node's outputs
  std::vector<DAs> eval(const std::vector<DA>& data, const std::vector<DAs>& par) const {
    std::vector<DAs> v(nodes.size()); size_t k = 0;
    for (size_t n = 0; n < nodes.size(); n++) {
      if (nodes[n].input) { v[n] = {data[k++]}; continue; }
      DAs in; for (auto& r : nodes[n].in) in.push_back(v[r.node][r.buf]);
      v[n] = nodes[n].l.f(in, par[n]);
    }
    return v;
  }
};
inline std::ostream& operator<<(std::ostream& o, const GSpec& s) {
  for (size_t n = 0; n < s.nodes.size(); n++) { o << (n ? "; " : "") << "n" << n << "=" << s.nodes[n].l.desc << "("; for (size_t i = 0; i < s.nodes[n].in.size(); i++) o << (i ? "," : "") << "n" << s.nodes[n].in[i].node << "." << s.nodes[n].in[i].buf; o << ")->" << s.nodes[n].l.out[0]; }
  return o;
}

// grad: only layers which can be differentiated (and no large fan-in)
inline GSpec gen_graph(G& g, size_t maxnodes, bool grad, size_t lim = 6, size_t smax = 2, size_t mmax = 3) {
  GSpec s; size_t ni = 1 + (g.chance(1, 3) ? 1 : 0); Dim d = gen_dim(g, lim, smax, mmax);
  for (size_t i = 0; i < ni; i++) { GSpec::Node n; n.input = true; n.l.kind = n.l.desc = "input"; Dim q = d; if (i && g.coin()) q.m = 1 + g.below(mmax); n.l.out = {q}; s.nodes.push_back(n); s.inputs++; }
  size_t count = 1 + g.below(maxnodes);
  for (size_t k = 0; k < count; k++) {
    // candidate source: prefer recent outputs, reuse makes fan-out
    std::vector<Ref> refs; for (int n = 0; n < (int)s.nodes.size(); n++) for (int b = 0; b < (int)s.nodes[n].l.out.size(); b++) refs.push_back({n, b});
    Ref a = g.chance(1, 2) ? refs.back() : refs[g.below(refs.size())]; Dim da = s.out(a);
    GSpec::Node n; std::vector<Ref> mates;
    for (auto& r : refs) { Dim q = s.out(r); if (q.s == da.s && q.w == da.w && q.h == da.h) mates.push_back(r); }
    switch (g.weighted({4, 2, 2, 2, 1, 1, 1, 2, 1, 3, 3, 1, 1, 1})) {
      case 0: n.l = spec_conv(g, da, true); break; case 1: n.l = spec_tanh(g, da); break; case 2: n.l = spec_sigm(g, da); break; case 3: n.l = spec_relu(g, da); break;
      case 4: n.l = spec_maxpool(g, da); break; case 5: n.l = spec_amaxpool(g, da); break; case 6: n.l = spec_lrn(g, da); break;
      case 7: n.l = spec_resize(g, da); break; case 8: if (da.w * da.h <= 64) n.l = spec_upscale(g, da); else n.l = spec_tanh(g, da); break;
      case 9: { Ref b = mates[g.below(mates.size())]; n.l = spec_concat(da, s.out(b).m); if (n.l.out[0].m > 12) n.l = spec_relu(g, da); else n.in = {a, b}; break; }
      case 10: { std::vector<Ref> same; for (auto& r : mates) if (s.out(r) == da) same.push_back(r); Ref b = same[g.below(same.size())]; n.l = spec_sum(da); n.in = {a, b}; break; }
      case 11: n.l = spec_prior(g, da); break; case 12: n.l = spec_fanout(g, da); break;
      default: if (grad) n.l = spec_tanh(g, da); else n.l = spec_hmax(g, da);
    }
    if (n.in.empty()) n.in = {a};
    s.nodes.push_back(n);
  }
  return s;
}

struct GNet {
  Conv::NetGraph graph; std::vector<Conv::NetGraphNode*> nodes; std::vector<std::unique_ptr<Tensor>> data;
  std::vector<size_t> order;
  // wrap: the layer to use in place of a node's own (probes)
  void build(G& g, const GSpec& s, bool shuffle, std::function<Conv::Layer*(size_t, Conv::Layer*)> wrap = nullptr, bool real_inputs = false) {
    for (size_t n = 0; n < s.nodes.size(); n++) {
      Conv::Layer* l;
      if (s.nodes[n].input) { Dim q = s.nodes[n].l.out[0]; data.emplace_back(new Tensor(q.s, q.w, q.h, q.m)); data.back()->Clear(); l = new Conv::InputLayer(*data.back()); }
      else l = s.nodes[n].l.make();
      if (wrap) l = wrap(n, l);
      nodes.push_back(new Conv::NetGraphNode(l)); nodes[n]->is_input = s.nodes[n].input && real_inputs;
      for (auto& r : s.nodes[n].in) nodes[n]->input_connections.push_back(Conv::NetGraphConnection(nodes[r.node], r.buf, true));
    }
    for (size_t n = 0; n < s.nodes.size(); n++) order.push_back(n);
    if (shuffle) for (size_t n = order.size(); n > 1; n--) std::swap(order[n - 1], order[g.below(n)]);
    for (size_t n : order) graph.AddNode(nodes[n]);
    graph.Initialize();
  }
  CombinedTensor* out(Ref r) { return nodes[r.node]->output_buffers[r.buf].combined_tensor; }
  // where the errors of an output arrive before they are summed is up to the graph; this is the sum
  ~GNet() {
    std::set<CombinedTensor*> t; std::vector<Conv::NetGraphNode*> all = graph.GetNodes();
    for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor);
    for (auto* n : all) { delete n->layer; delete n; }
    for (auto* c : t) delete c;
  }
  GNet() {} GNet(const GNet&) = delete;
};

}  // namespace cn
