// Random network descriptions (the ConfigurableFactory language) with an
// independent interpreter: the operations are generated as data, rendered to
// text with irrelevant variation, and evaluated in double precision.
#pragma once
#include "layers.h"
#include "InputLayer.h"
#include "NetGraph.h"
#include "NetGraphNode.h"
#include "ConfigurableFactory.h"
#include <algorithm>
#include <set>
#include <sstream>

namespace cn {

struct NOp {
  enum K { CONV, MAXPOOL, AMAXPOOL, DOWN, LRN, RELU, TANH, SIGM, HMAX, PUSH, POP, CONCAT, SUM, PRIOR, UPSCALE, OUTPUT, FLATTEN } k;
  size_t kw = 1, kh = 1, sw = 1, sh = 1, pw = 0, ph = 0, om = 1, gr = 1; float llr = 1, drop = 0, weight = 1; int stack = 0; int size = 1; float alpha = 1, beta = 1; bool across = true, is_output = false;
  bool classes = false, nosize = false, nostride = false;  // rendering
};
struct NDesc {
  std::vector<NOp> ops; size_t rfx = 0, rfy = 0, fx = 1, fy = 1, classes = 1, channels = 1; bool manual = false, patch_ok = true, exact = true;
  std::string text;
  size_t count(NOp::K k) const { size_t n = 0; for (auto& o : ops) n += o.k == k; return n; }
};

struct NGen { size_t maxops = 7, maxrf = 10, maxfactor = 6; bool plain = false, pads = true, hmax = true, dropout = false, prior = true, upscale = true, multi = true; size_t minclasses = 1; };

inline std::string numtxt(double v) { std::ostringstream o; o << v; return o.str(); }

inline NDesc gen_netdesc(G& g, const NGen& c) {
  NDesc n; n.classes = c.minclasses + g.below(5 - c.minclasses); n.channels = 1 + g.below(4); size_t m = n.channels; bool prior = false, upscaled = false, prefix = true;
  auto conv = [&](size_t om, bool one, bool same) {
    NOp o; o.k = NOp::CONV; o.om = om; if (!one && !same) { o.kw = 1 + g.small(0, 4); o.kh = 1 + g.small(0, 4); if (g.chance(1, 4)) o.kw = 1; if (g.chance(1, 4)) o.kh = 1; if (g.chance(1, 3)) { o.sw = 1 + g.below(3); o.sh = 1 + g.below(3); } if (c.pads && g.chance(1, 4)) { o.pw = g.below((o.kw - 1) / 2 + 1); o.ph = g.below((o.kh - 1) / 2 + 1); } }
    if (same) { o.pw = g.below(2); o.ph = g.below(2); o.kw = 2 * o.pw + 1; o.kh = 2 * o.ph + 1; }
    if (g.chance(1, 4)) for (size_t q = 4; q > 1; q--) if (m % q == 0 && om % q == 0) { o.gr = q; break; }
    if (g.chance(1, 4)) o.llr = g.pick<float>({0.f, 0.5f, 2.f, 10.f, 0.25f}); if (c.dropout && g.chance(1, 3)) o.drop = g.pick<float>({0.5f, 0.25f, 0.75f});
    if (o.kw == 1 && o.kh == 1) o.nosize = g.chance(1, 3);
    return o;
  };
  auto fits = [&](const NOp& o) {  // keeps receptive field and factor within bounds
    long rx = (long)n.rfx, ry = (long)n.rfy; size_t fx = n.fx, fy = n.fy;
    if (o.k == NOp::CONV || o.k == NOp::AMAXPOOL) { rx += (long)fx * ((long)o.kw - 1 - 2 * (long)o.pw); ry += (long)fy * ((long)o.kh - 1 - 2 * (long)o.ph); fx *= o.sw; fy *= o.sh; }
    if (o.k == NOp::MAXPOOL || o.k == NOp::DOWN) { fx *= o.kw; fy *= o.kh; }
    if (rx < 0 || ry < 0 || rx > (long)c.maxrf || ry > (long)c.maxrf || fx > c.maxfactor || fy > c.maxfactor) return false;
    n.rfx = rx; n.rfy = ry; n.fx = fx; n.fy = fy; return true;
  };
  auto add = [&](const NOp& o) { if (!fits(o)) return; n.ops.push_back(o); if (o.k == NOp::CONV) { m = o.om; if (o.pw || o.ph) n.exact = false; } };
  auto elementwise = [&]() { NOp o; o.k = g.pick<NOp::K>({NOp::RELU, NOp::TANH, NOp::SIGM, NOp::RELU, NOp::TANH}); return o; };
  auto st = [&](NOp::K k, int s) { NOp o; o.k = k; o.stack = s; n.ops.push_back(o); };
  size_t count = g.below(c.maxops + 1);
  for (size_t k = 0; k < count; k++) {
    size_t w = g.weighted({6, 3, 2, 1, 2, 4, 1, 2, 2, 1, 1});
    if (c.plain && (w == 4 || w == 6)) w = 5;
    NOp o;
    switch (w) {
      case 0: add(conv(1 + g.below(4), g.chance(1, 4), false)); break;
      case 1: o.k = NOp::MAXPOOL; o.kw = 1 + g.below(3); o.kh = 1 + g.below(3); if (o.kw == 1 && o.kh == 1) o.nosize = g.coin(); add(o); break;
      case 2: o.k = NOp::AMAXPOOL; o.kw = 1 + g.below(3); o.kh = 1 + g.below(3); o.sw = 1 + g.below(3); o.sh = 1 + g.below(3); if (g.chance(1, 4)) { o.sw = o.kw; o.sh = o.kh; o.nostride = true; } add(o); break;
      case 3: o.k = NOp::DOWN; o.kw = 1 + g.below(3); o.kh = 1 + g.below(3); if (prefix) add(o); break;
      case 4: o.k = NOp::LRN; o.size = 1 + (int)g.below(4); o.alpha = g.pick<float>({1.f, 0.5f, 0.0001f, 2.f}); o.beta = g.pick<float>({1.f, 0.75f, 0.5f}); o.across = g.coin(); add(o); if (!o.across) n.exact = false; break;
      case 5: add(elementwise()); break;
      case 6: if (c.hmax) { o.k = NOp::HMAX; add(o); } break;
      case 7: {  // a branch around size-preserving layers: x, f(x) -> sum or concatenation
        int s = (int)g.below(2), t = 1 - s; bool sum = g.coin(), both = g.coin(); size_t m0 = m, mb = sum ? m0 : 1 + g.below(3);
        auto branch = [&](size_t om) { if (om != m || g.coin()) { NOp q = conv(om, c.plain || !c.pads || g.coin(), true); if (c.plain || !c.pads) { q.pw = q.ph = 0; q.kw = q.kh = 1; } add(q); } if (g.coin()) add(elementwise()); };
        if (!both) { st(NOp::PUSH, s); branch(mb); st(NOp::PUSH, s); st(sum ? NOp::SUM : NOp::CONCAT, s); st(NOp::PUSH, t); st(NOp::POP, s); st(NOp::POP, s); st(NOp::POP, t); m = sum ? m0 : m0 + mb; }
        else { size_t ma = sum ? mb : 1 + g.below(3); st(NOp::PUSH, s); branch(ma); st(NOp::PUSH, t); st(NOp::POP, s); m = m0; branch(mb); st(NOp::PUSH, t); st(sum ? NOp::SUM : NOp::CONCAT, t); st(NOp::PUSH, s); st(NOp::POP, t); st(NOp::POP, t); st(NOp::POP, s); m = sum ? mb : ma + mb; }
        break; }
      case 8: { int s = (int)g.below(2); st(NOp::PUSH, s); if (g.coin()) { st(NOp::PUSH, 1 - s); st(NOp::POP, 1 - s); } st(NOp::POP, s); break; }
      case 9: o.k = NOp::FLATTEN; n.ops.push_back(o); break;
      default: add(conv(1 + g.below(4), true, false));
    }
    if (w == 0 || (w >= 4 && w != 9)) prefix = prefix && w == 9;
  }
  if (c.upscale && !c.plain && (n.fx != 1 || n.fy != 1) && g.chance(1, 6)) { NOp o; o.k = NOp::UPSCALE; o.kw = n.fx; o.kh = n.fy; n.ops.push_back(o); upscaled = true; n.patch_ok = false; }
  if (c.prior && !c.plain && g.chance(1, 5) && !upscaled) { NOp o; o.k = NOp::PRIOR; n.ops.push_back(o); m += 2; prior = true; n.exact = false; }
  bool second = c.multi && g.chance(1, 4);
  if (second) st(NOp::PUSH, 0);
  for (int q = 0; q < (second ? 2 : 1); q++) {
    if (q) { st(NOp::POP, 0); for (size_t k = n.ops.size(); k-- > 0;) if (n.ops[k].k == NOp::PUSH) { break; } }
    NOp f; f.k = NOp::CONV; f.om = n.classes; f.classes = g.chance(3, 4); f.nosize = g.coin(); if (g.chance(1, 4)) f.llr = 0.5f; size_t keep = m; n.ops.push_back(f);
    NOp o; o.k = NOp::OUTPUT; if (g.chance(1, 3)) o.weight = g.pick<float>({0.5f, 2.f, 0.25f, 3.f}); n.ops.push_back(o); m = keep;
  }
  (void)prior;
  return n;
}

// networks of the size people train: wide layers, large windows, colour images
inline NDesc gen_realistic(G& g, bool pads, size_t& macs) {
  NDesc n; n.channels = g.pick<size_t>({3, 3, 1, 4}); n.classes = 1 + g.below(10); n.rfx = n.rfy = 0; size_t m = n.channels; std::vector<NOp> convs; auto wide = [&]() { return g.pick<size_t>({6, 12, 16, 24, 32, 48, 64, 96}); };
  size_t blocks = 1 + g.below(3);
  for (size_t b = 0; b < blocks; b++) {
    NOp o; o.k = NOp::CONV; o.om = wide(); o.kw = o.kh = g.pick<size_t>({3, 5, 7, 5}); if (g.chance(1, 6)) o.kw = 11; if (g.chance(1, 6)) o.kh = 9; if (pads && g.chance(1, 4)) o.pw = o.ph = (std::min(o.kw, o.kh) - 1) / 2; if (b == 0 && g.chance(1, 5)) o.sw = o.sh = 2; if (g.chance(1, 4)) for (size_t q : {8, 4, 2}) if (m % q == 0 && o.om % q == 0) { o.gr = q; break; }
    n.rfx += n.fx * (o.kw - 1 - 2 * o.pw); n.rfy += n.fy * (o.kh - 1 - 2 * o.ph); n.fx *= o.sw; n.fy *= o.sh; n.ops.push_back(o); m = o.om; if (o.pw || o.ph) n.exact = false;
    NOp a; a.k = g.pick<NOp::K>({NOp::RELU, NOp::TANH, NOp::SIGM}); if (g.coin()) n.ops.push_back(a);
    if (b + 1 < blocks && n.fx * n.fy < 16 && g.coin()) { NOp p; if (g.coin()) { p.k = NOp::MAXPOOL; p.kw = p.kh = 2; n.fx *= 2; n.fy *= 2; } else { p.k = NOp::AMAXPOOL; p.kw = p.kh = g.coin() ? 2 : 3; p.sw = p.sh = 2; n.rfx += n.fx * (p.kw - 1); n.rfy += n.fy * (p.kh - 1); n.fx *= 2; n.fy *= 2; } n.ops.push_back(p); }
    if (g.chance(1, 4)) { NOp l; l.k = NOp::LRN; l.size = g.coin() ? 3 : 5; l.alpha = 0.0001f; l.beta = 0.75f; n.ops.push_back(l); }
  }
  if (g.chance(3, 4)) { NOp f; f.k = NOp::CONV; f.om = g.pick<size_t>({64, 128, 192, 256}); n.ops.push_back(f); NOp a; a.k = NOp::RELU; n.ops.push_back(a); }
  if (g.chance(1, 5)) { NOp p; p.k = NOp::PRIOR; n.ops.push_back(p); n.exact = false; }
  NOp f; f.k = NOp::CONV; f.om = n.classes; f.classes = true; n.ops.push_back(f); NOp o; o.k = NOp::OUTPUT; n.ops.push_back(o);
  size_t c = n.channels; macs = 0; for (auto& q : n.ops) if (q.k == NOp::CONV) { macs += q.om * q.kw * q.kh * c / q.gr; c = q.om; }
  return n;
}

// text of one operation
inline std::string render(G& g, const NOp& o) {
  std::vector<std::string> kv; std::string head; auto sz = [](size_t a, size_t b) { return std::to_string(a) + "x" + std::to_string(b); };
  switch (o.k) {
    case NOp::CONV: {
      bool fc = o.kw == 1 && o.kh == 1 && o.sw == 1 && o.sh == 1 && !o.pw && !o.ph && g.coin(); std::string om = o.classes ? "(o)" : std::to_string(o.om);
      if (fc) { head = "?fullyconnected"; kv.push_back("neurons=" + om); } else { head = "?convolutional"; kv.push_back("kernels=" + om); if (!(o.nosize && o.kw == 1 && o.kh == 1)) kv.push_back("size=" + sz(o.kw, o.kh)); if (o.sw != 1 || o.sh != 1 || g.chance(1, 4)) kv.push_back("stride=" + sz(o.sw, o.sh)); if (o.pw || o.ph || g.chance(1, 6)) kv.push_back("pad=" + sz(o.pw, o.ph)); }
      if (o.gr != 1 || g.chance(1, 6)) kv.push_back("group=" + std::to_string(o.gr)); if (o.llr != 1 || g.chance(1, 6)) kv.push_back("llr=" + numtxt(o.llr)); if (o.drop != 0) kv.push_back("dropout=" + numtxt(o.drop)); break; }
    case NOp::MAXPOOL: head = "?maxpooling"; if (!o.nosize) kv.push_back("size=" + sz(o.kw, o.kh)); break;
    case NOp::AMAXPOOL: head = "?amaxpooling"; kv.push_back("size=" + sz(o.kw, o.kh)); if (!o.nostride) kv.push_back("stride=" + sz(o.sw, o.sh)); break;
    case NOp::DOWN: head = "?downsampling"; kv.push_back("size=" + sz(o.kw, o.kh)); break;
    case NOp::LRN: head = "?lrn"; kv.push_back(std::string("method=") + (o.across ? "across" : "within")); kv.push_back("size=" + std::to_string(o.size)); kv.push_back("alpha=" + numtxt(o.alpha)); kv.push_back("beta=" + numtxt(o.beta)); break;
    case NOp::RELU: return "?relu"; case NOp::TANH: return "?tanh"; case NOp::SIGM: return "?sigm"; case NOp::FLATTEN: return "?flatten"; case NOp::PRIOR: return "?spatialprior";
    case NOp::HMAX: head = "?hmax"; kv.push_back("mu=1"); kv.push_back("weight=0"); break;
    case NOp::PUSH: return o.stack ? "pushb" : "pusha"; case NOp::POP: return o.stack ? "popb" : "popa";
    case NOp::CONCAT: case NOp::SUM: head = o.k == NOp::SUM ? "?sum" : "?concat"; if (o.stack || g.coin()) kv.push_back(o.stack ? "stack=b" : "stack=a"); break;
    case NOp::UPSCALE: head = "?upscale"; kv.push_back("factor=" + sz(o.kw, o.kh)); if (o.is_output) kv.push_back("is_output=1"); break;
    case NOp::OUTPUT: head = "?output"; if (o.weight != 1) kv.push_back("weight=" + numtxt(o.weight)); break;
  }
  for (size_t k = kv.size(); k > 1; k--) std::swap(kv[k - 1], kv[g.below(k)]);
  for (auto& q : kv) head += " " + q; return head;
}
inline void render_all(G& g, NDesc& n, std::vector<std::string> extra = {}, bool noise = true) {
  std::vector<std::string> lines; for (auto& o : n.ops) lines.push_back(render(g, o));
  auto put = [&](const std::string& s) { lines.insert(lines.begin() + g.below(lines.size() + 1), s); };
  for (auto& e : extra) put(e);
  if (noise) { size_t k = g.below(4); for (size_t q = 0; q < k; q++) put(g.pick<std::string>({"", "# a comment", "#?convolutional size=9x9 kernels=77 stride=5x5", "# method=patch", "#?maxpooling size=7x7", "#lr=99", "#popa", "#manual rfx=9 rfy=9 factorx=3 factory=3", "#?output", "# fullyconnected", "#pusha"})); }
  if (n.manual) lines.insert(lines.begin(), "manual rfx=" + std::to_string(n.rfx) + " rfy=" + std::to_string(n.rfy) + " factorx=" + std::to_string(n.fx) + " factory=" + std::to_string(n.fy));
  n.text.clear(); for (size_t k = 0; k < lines.size(); k++) n.text += lines[k] + (k + 1 < lines.size() || g.coin() ? "\n" : "");
}

inline DA ref_border(const DA& x, size_t bx, size_t by) { DA o(Dim{x.s, x.w + bx, x.h + by, x.m}); for (size_t s = 0; s < x.s; s++) for (size_t m = 0; m < x.m; m++) for (size_t y = 0; y < x.h; y++) for (size_t q = 0; q < x.w; q++) o.at(q + bx / 2, y + by / 2, m, s) = x.at(q, y, m, s); return o; }
inline DA ref_up(const DA& x, size_t rw, size_t rh) { DA o(Dim{x.s, x.w * rw, x.h * rh, x.m}); for (size_t s = 0; s < o.s; s++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < o.h; y++) for (size_t q = 0; q < o.w; q++) o.at(q, y, m, s) = x.at(q / rw, y / rh, m, s); return o; }
inline DA ref_cat(const DA& a, const DA& b) { DA o(Dim{a.s, a.w, a.h, a.m + b.m}); for (size_t s = 0; s < a.s; s++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < a.h; y++) for (size_t x = 0; x < a.w; x++) o.at(x, y, m, s) = m < a.m ? a.at(x, y, m, s) : b.at(x, y, m - a.m, s); return o; }

// outputs of the described network; par: parameters of its layers in file order;
// scale: largest magnitude of any intermediate value
inline DAs ref_net(const NDesc& n, bool fcn, const DA& data, const DA& helper, const DAs& par, double& scale, bool testing = true) {
  DA cur = data; std::vector<DA> st[2]; DAs outs; size_t p = 0; bool up = n.fx == 1 && n.fy == 1; scale = 1;
  if (fcn && (n.rfx || n.rfy)) cur = ref_border(cur, n.rfx, n.rfy);
  for (auto& o : n.ops) {
    switch (o.k) {
      case NOp::CONV: { REQUIRE(p + 1 < par.size() + 0 && par[p].s == o.om && par[p].w == o.kw && par[p].h == o.kh && par[p].m == cur.m / o.gr && par[p + 1].n() == o.om, "parameters of convolution " << p << " are " << (p < par.size() ? par[p] : DA())); DAs q{par[p], par[p + 1]}; p += 2; cur = ref_conv(o.kw, o.kh, o.sw, o.sh, o.pw, o.ph, o.gr, o.om)({cur}, q)[0]; if (testing) for (auto& v : cur.d) v *= 1 - (double)o.drop; break; }
      case NOp::MAXPOOL: cur = ref_pool(Dim{0, cur.w / o.kw, cur.h / o.kh, 0}, o.kw, o.kh, o.kw, o.kh)({cur}, {})[0]; break;
      case NOp::AMAXPOOL: cur = ref_pool(Dim{0, (cur.w - o.kw) / o.sw + 1, (cur.h - o.kh) / o.sh + 1, 0}, o.kw, o.kh, o.sw, o.sh)({cur}, {})[0]; break;
      case NOp::DOWN: { DA q(Dim{cur.s, cur.w / o.kw, cur.h / o.kh, cur.m}); for (size_t s = 0; s < q.s; s++) for (size_t m = 0; m < q.m; m++) for (size_t y = 0; y < q.h; y++) for (size_t x = 0; x < q.w; x++) { double v = 0; for (size_t a = 0; a < o.kh; a++) for (size_t b = 0; b < o.kw; b++) v += cur.at(x * o.kw + b, y * o.kh + a, m, s); q.at(x, y, m, s) = v / (o.kw * o.kh); } cur = q; break; }
      case NOp::LRN: cur = ref_lrn(o.size, o.alpha, o.beta, o.across)({cur}, {})[0]; break;
      case NOp::RELU: for (auto& v : cur.d) v = v > 0 ? v : 0; break;
      case NOp::TANH: for (auto& v : cur.d) v = std::tanh(v); break;
      case NOp::SIGM: for (auto& v : cur.d) v = 1 / (1 + std::exp(-v)); break;
      case NOp::HMAX: REQUIRE(p < par.size() && par[p].n() == 2, "parameters of the hmax layer"); for (auto& v : cur.d) v = 1 / (1 + std::exp(-(par[p].d[0] * v + par[p].d[1]))); p++; break;
      case NOp::PUSH: st[o.stack].push_back(cur); break;
      case NOp::POP: cur = st[o.stack].back(); st[o.stack].pop_back(); break;
      case NOp::CONCAT: case NOp::SUM: { auto& s = st[o.stack]; if (o.k == NOp::CONCAT) cur = ref_cat(s[1], s[0]); else { cur = s[0]; for (size_t e = 0; e < cur.d.size(); e++) cur.d[e] += s[1].d[e]; } break; }
      case NOp::PRIOR: if (fcn && !up) { cur = ref_up(cur, n.fx, n.fy); up = true; } cur = ref_cat(cur, helper); break;
      case NOp::UPSCALE: cur = ref_up(cur, o.kw, o.kh); up = true; break;
      case NOp::OUTPUT: for (auto& v : cur.d) v = n.classes == 1 ? std::tanh(v) : 1 / (1 + std::exp(-v)); if (fcn && !up) cur = ref_up(cur, n.fx, n.fy); outs.push_back(cur); break;
      case NOp::FLATTEN: break;
    }
    for (double v : cur.d) scale = std::max(scale, std::fabs(v));
  }
  return outs;
}

// a graph built by the factory on an input node with data, label, helper and weight
struct FNet {
  std::istringstream file; std::unique_ptr<Conv::ConfigurableFactory> factory; Conv::NetGraph graph; Tensor data, label, helper, weight; Conv::NetGraphNode* input = nullptr; bool complete = false;
  void build(const NDesc& n, unsigned seed, bool training, size_t s, size_t w, size_t h, bool loss) {
    file.str(n.text); factory.reset(new Conv::ConfigurableFactory(file, seed, training)); attach(n.channels, n.classes, s, w, h, loss, w, h);
  }
  void attach(size_t channels, size_t classes, size_t s, size_t w, size_t h, bool loss, size_t lw, size_t lh) {
    data.Resize(s, w, h, channels); label.Resize(s, lw, lh, classes); helper.Resize(s, lw, lh, 2); weight.Resize(s, lw, lh, 1); data.Clear(); label.Clear(); helper.Clear(); weight.Clear(1);
    input = new Conv::NetGraphNode(new Conv::InputLayer(data, label, helper, weight)); input->is_input = true; graph.AddNode(input);
    complete = factory->AddLayers(graph, Conv::NetGraphConnection(input, 0), classes, loss);
    graph.Initialize();
  }
  CTV params() { CTV p; graph.GetParameters(p); return p; }
  DAs randomize(uint64_t seed) {  // keeps activations at about 1
    DAs r; for (auto* t : params()) { double fan = t->data.elements() / (double)t->data.samples(); fill_generic(t->data, seed++, t->data.samples() == 1 && t->data.height() == 1 && t->data.maps() == 1 ? 0.5 : 1.7 / std::sqrt(fan)); r.emplace_back(t->data); } return r;
  }
  ~FNet() {
    std::vector<Conv::NetGraphNode*> all = graph.GetNodes(); std::set<CombinedTensor*> t; for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor);
    for (auto* n : all) { delete n->layer; delete n; } for (auto* c : t) delete c;
  }
  FNet() {} FNet(const FNet&) = delete;
};

}  // namespace cn
