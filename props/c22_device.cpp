// C22: with OpenCL, the library computes what it computes without.
#include "cn.h"
#include "c22_device.h"
#include "../clmock/clmock.h"
using namespace c22;
static std::string g_start;  // why the OpenCL builds do not start
void pbt::setup_process() {
  init_cpu(); long e = clmock::errors;
  for (int k = 0; k < 2; k++) try { k ? init_clb() : init_ocl(); } catch (std::exception& x) { g_start = std::string(x.what()) + " (" + clmock::last_error + ")"; }
  if (g_start.empty() && clmock::errors != e) g_start = clmock::last_error;
}
void pbt::setup_case() {}
// kernels that use a feature the simulated device lacks cannot be judged
#define STARTED g.assume(g_start.find("(signature)") == std::string::npos && g_start.find("(load)") == std::string::npos); REQUIRE(g_start.empty(), "the library does not start on a conforming device: " << g_start)

static void compare(G& g, Scenario s) {
  STARTED;
  Out c; drive_cpu(g, s, 0, 0, c); g.note() << c.note; if (!c.refused.empty()) g.label("refused"); g.assume(c.refused.empty()); if (c.nontrivial) g.nontrivial(); for (auto& l : c.labels) g.label(l);
  std::vector<std::vector<double>> sens; bool probed = false;
  auto probe = [&] {  // how much every result moves when the inputs move by a few roundings
    probed = true; sens.resize(c.v.size()); for (size_t k = 0; k < c.v.size(); k++) sens[k].assign(c.v[k].second.size(), 0);
    for (int j = 1; j <= 12; j++) { Out q; G h(g.tape); try { drive_cpu(h, s, 3e-6, (uint64_t)j, q); } catch (pbt::Discard&) { continue; } if (!q.refused.empty() || q.v.size() != c.v.size()) throw pbt::Discard();
      for (size_t k = 0; k < c.v.size(); k++) { if (q.v[k].second.size() != c.v[k].second.size()) throw pbt::Discard(); for (size_t e = 0; e < sens[k].size(); e++) { double d = std::fabs((double)q.v[k].second[e] - c.v[k].second[e]); sens[k][e] = std::max(sens[k][e], d == d ? d : INFINITY); } } } };
  for (int b = 0; b < 2; b++) {
    const char* name = b ? "OpenCL and clBLAS" : "OpenCL"; Out d; G h(g.tape); (b ? drive_clb : drive_ocl)(h, s, 0, 0, d);
    REQUIRE(d.refused.empty(), "with " << name << ": " << d.refused << " " << clmock::last_error); REQUIRE(d.v.size() == c.v.size(), "with " << name << ": different results");
    for (size_t k = 0; k < c.v.size(); k++) {
      auto &x = c.v[k].second, &y = d.v[k].second; REQUIRE(x.size() == y.size() && c.v[k].first == d.v[k].first, "with " << name << ": " << d.v[k].first << " has another size");
      double mag = 0; for (float f : x) mag = std::max(mag, (double)std::fabs(f));
      for (size_t e = 0; e < x.size(); e++) {
        if (memcmp(&x[e], &y[e], 4) == 0) continue; double df = std::fabs((double)x[e] - y[e]), tol = 1e-6 * std::fabs(x[e]) + 6e-8 * c.scale[k] * std::max(mag, 1.0) * (c.scale[k] > 0); if (df <= tol) continue;
        if (!probed) probe(); if (df <= tol + 20 * sens[k][e]) { g.label("ill-conditioned"); continue; }
        FAILMSG("with " << name << ", element " << e << " of " << d.v[k].first << " is " << y[e] << ", without it " << x[e]);
      }
    }
  }
}

FACET(math, 20000, 300000, "more than one term, sample or region") { compare(g, MATH); }
FACET(tensors, 20000, 300000, "four or more steps, some of which move a tensor to the device") { compare(g, TENSORS); }
FACET(layers, 15000, 250000, "inputs of more than one element") { compare(g, LAYERS); }
FACET(graphs, 6000, 100000, "more than two layers") { compare(g, GRAPHS); }
FACET(training, 3000, 50000, "more than one iteration") { compare(g, TRAINING); }
FACET(kernels, 15000, 300000, "more than one work item") {
  STARTED; Out o; bool blas = g.coin(); (blas ? drive_clb : drive_ocl)(g, KERNELS, 0, 0, o); g.note() << o.note; REQUIRE(o.refused.empty(), o.refused); if (o.nontrivial) g.nontrivial(); for (auto& l : o.labels) g.label(l);
}
