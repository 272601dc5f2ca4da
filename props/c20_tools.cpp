// C20: the command line tools transform files as documented.
#include "netdesc.h"
#include "imageset.h"
#include "labels.h"
#include "stats.h"
#include "tools.h"
#include "DatasetInputLayer.h"
#include "GradientTester.h"
#include "BinaryStatLayer.h"
#include "ConfusionMatrixLayer.h"
#include "Trainer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// the tensors of a compressed stream
static std::vector<Arr> parse_compressed(const std::string& f, const std::string& what) {
  std::istringstream in(f); uint64_t magic = 0; in.read((char*)&magic, 8); REQUIRE(magic == CN24_CTS_MAGIC, what << ": not a compressed stream"); std::vector<Arr> v;
  while (in.peek() != EOF) { Conv::CompressedTensor c; c.Deserialize(in); REQUIRE(in.good(), what << ": incomplete tensor"); Tensor t; c.Decompress(t); v.emplace_back(t); }
  return v;
}
static void same_arr(const Arr& a, const Arr& b, const std::string& what) { REQUIRE(a.s == b.s && a.w == b.w && a.h == b.h && a.m == b.m, what << ": shape " << a.s << "s@" << a.w << "x" << a.h << "x" << a.m << ", expected " << b.s << "s@" << b.w << "x" << b.h << "x" << b.m); for (size_t e = 0; e < a.d.size(); e++) REQUIRE(same_bits(&a.d[e], &b.d[e], 1) || (a.d[e] == 0 && b.d[e] == 0), what << ": element " << e << " is " << a.d[e] << ", expected " << b.d[e]); }
static Tensor* tensor_of(const Arr& a) { Tensor* t = new Tensor(a.s, a.w, a.h, a.m); if (a.d.size()) memcpy(t->data_ptr(), a.d.data(), a.d.size() * 4); return t; }

// pictures and labels named in lists -> a stream of tensors
FACET(import, 400, 5000, "a pair is skipped or a label image has pixels in no class colour") {
  size_t n = 1 + g.below(5); DConf c = gen_conf(g, n, "", "", false); std::vector<unsigned> pal = c.colors; ListSet s; gen_lists(g, s, pal, 4, "t"); bool direct = g.chance(1, 3), compressed = g.coin(); Dir d("d"); write_file(d / "set", c.text); if (s.valid().size() && (s.valid().size() < s.pairs.size() || n > 1)) g.nontrivial();
  g.note() << (compressed ? "compressed " : "") << (direct ? "direct " : "") << n << " classes " << hex(pal); for (auto& p : s.pairs) g.note() << " " << p.image.w << "x" << p.image.h << "x" << p.image.c << "/" << p.label.c << (p.mismatch ? "!" : "");
  const char* tool = compressed ? "makeCompressedTensorStream" : "makeTensorStream"; std::string sl1 = g.coin() ? "/" : "", sl2 = g.coin() ? "/" : ""; Ran r = run_tool(tool, {d / "set", s.ilist, s.images + sl1, s.llist, s.labels + sl2, d / "out", direct ? "true" : g.pick<std::string>({"false", "no", "True"})}, d.path); require_ok(r, tool);
  std::vector<Arr> got = compressed ? parse_compressed(read_file(d / "out"), "output") : parse_stream(read_file(d / "out"), "output"); auto v = s.valid(); REQUIRE(got.size() == 2 * v.size(), got.size() << " tensors for " << v.size() << " pairs: " << r.tail());
  for (size_t k = 0; k < v.size(); k++) {
    std::unique_ptr<Tensor> a(tensor_of(got[2 * k])), b(tensor_of(got[2 * k + 1])); require_near(*a, image_of(v[k]->image), false, "image " + std::to_string(k)); Arr want;
    if (direct) { want = Arr(1, v[k]->label.w, v[k]->label.h, 3); for (size_t y = 0; y < want.h; y++) for (size_t x = 0; x < want.w; x++) for (int q = 0; q < 3; q++) want.at(x, y, q, 0) = (float)(((rgb(v[k]->label, x, y) >> (16 - 8 * q)) & 255) / 255.0); } else want = label_of(v[k]->label, pal);
    require_near(*b, want, !direct && n > 1, "label " + std::to_string(k));
  }
}
static std::vector<Arr> gen_stream(G& g, size_t maxn) { std::vector<Arr> v; size_t n = g.below(maxn + 1); for (size_t k = 0; k < n; k++) { Arr a(1 + g.below(3), 1 + g.below(9), 1 + g.below(9), 1 + g.below(3)); pbt::Rng r(g.below(1 << 20)); unsigned kind = (unsigned)g.below(3); float last = 0; for (auto& x : a.d) { if (kind == 0) x = any_float(r); else if (kind == 1) x = last = r.below(6) ? last : (float)r.below(3); else x = 0; } v.push_back(a); } return v; }
static std::string raw(const std::vector<Arr>& v, size_t n) { std::ostringstream o; for (size_t k = 0; k < n; k++) raw_tensor(o, v[k]); return o.str(); }

FACET(compress, 400, 5000, "several tensors") {
  auto v = gen_stream(g, 5); Dir d("d"); std::string in = raw(v, v.size()); write_file(d / "in", in); if (v.size() > 1) g.nontrivial(); g.note() << v.size() << " tensors"; for (auto& a : v) g.note() << " " << a.s << "s@" << a.w << "x" << a.h << "x" << a.m; Ran r = run_tool("compressTensorStream", {d / "in", d / "out"}, d.path); require_ok(r, "compressTensorStream");
  auto got = parse_compressed(read_file(d / "out"), "output"); REQUIRE(got.size() == v.size(), got.size() << " tensors, expected " << v.size()); for (size_t k = 0; k < v.size(); k++) same_arr(got[k], v[k], "tensor " + std::to_string(k)); REQUIRE(read_file(d / "in") == in, "the input was changed");
}
FACET(truncate, 400, 5000, "the stream is shortened") {
  auto v = gen_stream(g, 6); Dir d("d"); std::string in = raw(v, v.size()); write_file(d / "in", in); size_t n = g.below(v.size() + 3); if (n < v.size()) g.nontrivial(); g.note() << v.size() << " tensors to " << n; Ran r = run_tool("tensorStreamTool", {d / "in", std::to_string(n)}, d.path); require_ok(r, "tensorStreamTool");
  std::string out = read_file(d / "in"), want = raw(v, std::min(n, v.size())); REQUIRE(out == want, "the file has " << out.size() << " bytes, expected " << want.size() << ": " << r.tail());
}
// a session of tensorTool
FACET(edit, 300, 4000, "several changes are written") {
  auto v = gen_stream(g, 3); if (v.empty()) v.push_back(Arr(1, 2, 3, 1, 5)); bool small = g.coin(); if (small) { pbt::Rng q(g.below(1 << 20)); for (auto& t : v) for (auto& x : t.d) x = q.below(8) ? (float)(2 * q.unit() - 1) : (float)((int)q.below(3) - 1); }
  size_t id = g.below(v.size()); Dir d("d"); std::string in = raw(v, v.size()); write_file(d / "in", in); Arr a = v[id]; std::string script, want = in, bin; size_t ops = g.below(12), done = 0; bool quit = false, exported = false; std::vector<float> vals;
  for (size_t k = 0; k < ops && !quit; k++) switch (g.weighted({3, 3, 3, 1, 1, 1, 1, 1})) {
    case 6: {  // eight bits per value, three maps interleaved as red, green, blue
      if (!small) break; script += "bin\n"; exported = true; vals.clear(); size_t n = a.w * a.h; if (a.m != 3) vals = a.d; else for (size_t s = 0; s < a.s; s++) for (size_t e = 0; e < n; e++) for (size_t m = 0; m < 3; m++) vals.push_back(a.d[(s * 3 + m) * n + e]); break; }
    case 7: {  // one patch per pixel, mirrored at the borders
      size_t pw = 1 + g.below(std::min<size_t>(a.w, 5)), ph = 1 + g.below(std::min<size_t>(a.h, 5)), smp = g.below(a.s); if (a.w * a.h * pw * ph * a.m > 20000) break; script += "extractpatches\n"; if (a.s != 1) script += std::to_string(smp) + "\n"; script += std::to_string(pw) + "\n" + std::to_string(ph) + "\n";
      Arr b(a.w * a.h, pw, ph, a.m); auto at = [](long p, long n) { if (p < 0) p = -p; return (size_t)(p >= n ? 2 * n - 1 - p : p); };
      for (size_t y = 0; y < a.h; y++) for (size_t x = 0; x < a.w; x++) for (size_t m = 0; m < a.m; m++) for (size_t j = 0; j < ph; j++) for (size_t i = 0; i < pw; i++) b.at(i, j, m, y * a.w + x) = a.at(at((long)(x + i) - (long)(pw / 2), (long)a.w), at((long)(y + j) - (long)(ph / 2), (long)a.h), m, smp);
      a = b; done++; break; }
    case 0: { script += "transpose\n"; Arr b(a.s, a.h, a.w, a.m); for (size_t s = 0; s < a.s; s++) for (size_t m = 0; m < a.m; m++) for (size_t y = 0; y < a.h; y++) for (size_t x = 0; x < a.w; x++) b.at(y, x, m, s) = a.at(x, y, m, s); a = b; done++; break; }
    case 1: { size_t f[4] = {1, 1, 1, 1}, e = a.d.size(); for (size_t p = 2; e > 1; p++) while (e % p == 0) { f[g.below(4)] *= p; e /= p; } if (g.chance(1, 4)) { script += "reshape " + std::to_string(f[1] + 1) + " " + std::to_string(f[2]) + " " + std::to_string(f[3]) + " " + std::to_string(f[0]) + "\n"; break; } script += "reshape " + std::to_string(f[1]) + " " + std::to_string(f[2]) + "\n" + std::to_string(f[3]) + " " + std::to_string(f[0]) + "\n"; a.s = f[0]; a.w = f[1]; a.h = f[2]; a.m = f[3]; done++; break; }
    case 2: script += "write\n"; want = raw({a}, 1); if (done > 1) g.nontrivial(); break;
    case 3: script += g.pick<std::string>({"size\n", "help\n", "nonsense\n", "\n"}); break;
    case 4: script += "size "; break;
    default: if (g.chance(1, 4)) { script += g.pick<std::string>({"q\n", "quit\n"}); quit = true; } else script += "help\n"; }
  if (!quit && g.coin()) script += "q\n"; g.note() << id << " of " << v.size() << ": " << oneline(script); std::vector<std::string> args = {d / "in"}; if (id || g.coin()) args.push_back(std::to_string(id)); Ran r = run_tool("tensorTool", args, d.path, script); require_ok(r, "tensorTool"); REQUIRE(read_file(d / "in") == want, "the file differs from what was written");
  if (exported) { std::string o = read_file(d / "binoutput.data"); REQUIRE(o.size() == vals.size(), "the 8-bit file has " << o.size() << " bytes for " << vals.size() << " values"); for (size_t e = 0; e < vals.size(); e++) { double x = 127 + 127 * (double)vals[e]; int b = (unsigned char)o[e]; REQUIRE(b == (int)std::floor(x + 1e-3) || b == (int)std::floor(x - 1e-3), "8-bit value " << e << " is " << b << " for " << vals[e]); } g.label("8-bit file"); } else REQUIRE(!file_exists(d / "binoutput.data"), "an 8-bit file was written unasked");
}
// an image of any size is classified
FACET(classify, 500, 8000, "the size is no multiple of eight and the network has several layers") {
  NGen c; c.maxops = 5; c.maxfactor = 8; c.dropout = true; c.hmax = false; c.multi = false; NDesc n = gen_netdesc(g, c); g.assume(n.channels != 2); render_all(g, n); DConf set = gen_conf(g, n.classes, "nowhere.Tensor", "nowhere.Tensor", false); size_t w = 1 + g.below(20), h = 1 + g.below(20); if (g.chance(1, 4)) w = 8 * (1 + g.below(3)); if (g.chance(1, 4)) h = 8 * (1 + g.below(3));
  g.note() << w << "x" << h << "x" << n.channels << " " << n.classes << " classes: " << oneline(n.text); size_t pw = (w + 7) / 8 * 8, ph = (h + 7) / 8 * 8; while (pw % n.fx) pw += 8; while (ph % n.fy) ph += 8; if ((w % 8 || h % 8) && n.count(NOp::CONV) > 1) g.nontrivial();
  FNet f; f.build(n, 1, false, 1, pw, ph, false); uint64_t seed = g.below(1000); DAs par = f.randomize(seed); Dir d("d"); { std::ofstream o(d / "par", std::ios::binary); f.graph.SerializeParameters(o); } write_file(d / "net", n.text); write_file(d / "set", set.text);
  Img im; im.w = w; im.h = h; im.c = n.channels; im.color = im.c == 1 ? PNG_COLOR_TYPE_GRAY : im.c == 3 ? PNG_COLOR_TYPE_RGB : PNG_COLOR_TYPE_RGB_ALPHA; pbt::Rng r(seed); for (size_t e = 0; e < w * h * im.c; e++) im.v.push_back((unsigned)r.below(256)); Bytes b = encode_png(im, PngOpt()); write_file(d / "in.png", std::string((const char*)b.data(), b.size()));
  Ran q = run_tool("classifyImage", {d / "set", d / "net", d / "par", d / "in.png", d / "out.png"}, d.path); require_ok(q, "classifyImage");
  f.data.Clear(); f.helper.Clear(); Arr x = image_of(im); for (size_t m = 0; m < im.c; m++) for (size_t yy = 0; yy < h; yy++) for (size_t xx = 0; xx < w; xx++) *f.data.data_ptr(xx, yy, m, 0) = x.at(xx, yy, m, 0); for (size_t yy = 0; yy < h; yy++) for (size_t xx = 0; xx < w; xx++) { *f.helper.data_ptr(xx, yy, 0, 0) = w > 1 ? (float)xx / (float)(w - 1) : 0; *f.helper.data_ptr(xx, yy, 1, 0) = h > 1 ? (float)yy / (float)(h - 1) : 0; }
  double scale; DA want = ref_net(n, true, DA(f.data), DA(f.helper), par, scale)[0]; REQUIRE(want.w == pw && want.h == ph, "reference: " << want); Tensor out(d / "out.png"); require_shape(out, 1, w, h, 3, "the output image"); double eps = 2e-4 * (1 + scale);
  for (size_t yy = 0; yy < h; yy++) for (size_t xx = 0; xx < w; xx++) {
    double px[3]; for (int k = 0; k < 3; k++) px[k] = *out.data_ptr_const(xx, yy, k, 0) * 255.0; auto chan = [](unsigned col, int k) { return (double)((col >> (16 - 8 * k)) & 255); }; bool ok = false;
    if (n.classes == 1) { ok = true; for (int k = 0; k < 3; k++) { double v = chan(set.colors[0], k) * (want.at(xx, yy, 0, 0) + 1) / 2; ok &= std::fabs(px[k] - v) <= 1.01 + 255 * eps; } }
    else { double best = want.at(xx, yy, 0, 0); for (size_t k = 1; k < n.classes; k++) best = std::max(best, want.at(xx, yy, k, 0)); for (size_t k = 0; k < n.classes; k++) if (want.at(xx, yy, k, 0) >= best - 2 * eps) { bool e = true; for (int m = 0; m < 3; m++) e &= std::fabs(px[m] - chan(set.colors[k], m)) < 0.5; ok |= e; } }
    REQUIRE(ok, "pixel (" << xx << "," << yy << ") is " << px[0] << "," << px[1] << "," << px[2]);
  }
}

// ---- training scripts --------------------------------------------------------------
// the training tool's work, done with the library
struct Bench {
  std::istringstream netfile, setfile; std::unique_ptr<Conv::ConfigurableFactory> factory, tfactory; Conv::Dataset *set = nullptr, *tset = nullptr; Conv::NetGraph graph, tgraph; std::unique_ptr<Conv::Trainer> trainer, ttrainer; bool hybrid = false; KeepSink keep; std::vector<Report> rows[8];
  Conv::NetGraph& testing() { return hybrid ? tgraph : graph; } Conv::Trainer& tester() { return hybrid ? *ttrainer : *trainer; }
  static void stats(Conv::NetGraph& n, Conv::NetGraphNode* in, Conv::Dataset* d) { auto outs = n.GetOutputNodes(); for (auto* o : outs) { Conv::Layer* l; if (d->GetClasses() == 1) l = new Conv::BinaryStatLayer(13, -1, 1); else { auto names = d->GetClassNames(); l = new Conv::ConfusionMatrixLayer(names, d->GetClasses()); } auto* q = new Conv::NetGraphNode(l); q->input_connections.push_back(Conv::NetGraphConnection(o, 0, false)); q->input_connections.push_back(Conv::NetGraphConnection(in, 1)); q->input_connections.push_back(Conv::NetGraphConnection(in, 3)); n.AddNode(q); } }
  static Conv::NetGraphNode* input(Conv::NetGraph& n, Conv::Dataset& d, unsigned batch, float p) { auto* q = new Conv::NetGraphNode(new Conv::DatasetInputLayer(d, batch, p, 983923)); q->is_input = true; n.AddNode(q); return q; }
  void shadow() { if (!hybrid) return; CTV a, b; graph.GetParameters(a); tgraph.GetParameters(b); REQUIRE(a.size() == b.size(), "parameters of the two networks"); for (size_t k = 0; k < a.size(); k++) { b[k]->data.Shadow(a[k]->data); b[k]->delta.Shadow(a[k]->delta); } }
  void build(const std::string& net, const std::string& conf) {
    fresh_aggregator().RegisterSink(&keep); netfile.str(net); setfile.str(conf); factory.reset(new Conv::ConfigurableFactory(netfile, 8347734, true)); factory->InitOptimalSettings(); hybrid = factory->method() == Conv::PATCH; auto st = factory->optimal_settings();
    if (hybrid) set = Conv::TensorStreamPatchDataset::CreateFromConfiguration(setfile, false, Conv::LOAD_TRAINING_ONLY, factory->patchsizex(), factory->patchsizey()); else set = Conv::TensorStreamDataset::CreateFromConfiguration(setfile, false, Conv::LOAD_BOTH);
    unsigned cls = set->GetClasses(); auto* in = input(graph, *set, st.pbatchsize, hybrid ? 1.0f : 0.5f); REQUIRE(factory->AddLayers(graph, Conv::NetGraphConnection(in), cls, true), "incomplete"); stats(graph, in, set); graph.Initialize(); graph.InitializeWeights(); trainer.reset(new Conv::Trainer(graph, st));
    if (hybrid) { auto* ts = Conv::TensorStreamDataset::CreateFromConfiguration(setfile, false, Conv::LOAD_TESTING_ONLY); tset = ts; auto* tin = input(tgraph, *ts, 1, 1.0f); tfactory.reset(new Conv::ConfigurableFactory(netfile, 8347734)); REQUIRE(tfactory->AddLayers(tgraph, Conv::NetGraphConnection(tin), cls, true), "incomplete"); stats(tgraph, tin, ts); tgraph.Initialize(); shadow(); auto t = tfactory->optimal_settings(); t.pbatchsize = t.sbatchsize = 1; ttrainer.reset(new Conv::Trainer(tgraph, t)); }
    Conv::System::stat_aggregator->Initialize();
  }
  std::string params() { std::ostringstream o; graph.SerializeParameters(o); return o.str(); }
};
struct Exp { std::string name; std::vector<Report> rows; };
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> v(1); for (char c : l) if (c == ',') v.emplace_back(); else v.back() += c; return v; }
static void check_log(const std::string& file, const Exp& e, const std::vector<Conv::StatDescriptor*>& desc) {
  std::istringstream in(read_file(file)); std::vector<std::string> lines; for (std::string l; std::getline(in, l);) lines.push_back(l); REQUIRE(lines.size() == e.rows.size() + 1, "the log of " << e.name << " has " << lines.size() << " lines, expected " << e.rows.size() + 1); auto head = split(lines[0]); REQUIRE(head.size() == 4 + desc.size(), "the log of " << e.name << " has " << head.size() << " columns");
  for (size_t k = 0; k < e.rows.size(); k++) { auto f = split(lines[k + 1]); auto& r = e.rows[k]; REQUIRE(f.size() == head.size(), "row " << k << " of " << e.name << ": " << lines[k + 1]); REQUIRE(f[0] == (r.hc.is_training ? "1" : "0") && f[1] == std::to_string(r.hc.epoch) && f[2] == std::to_string(r.hc.iterations), "row " << k << " of " << e.name << ": " << lines[k + 1] << ", expected " << r.hc.is_training << "," << r.hc.epoch << "," << r.hc.iterations);
    for (size_t i = 0; i < desc.size(); i++) { bool timed = desc[i]->description == "Pixel Throughput" || desc[i]->description == "Frame Rate"; if (r.stats[i].is_null) { REQUIRE(f[4 + i].empty(), "row " << k << " of " << e.name << ": " << head[4 + i] << " is " << f[4 + i]); continue; } char* q = nullptr; double v = strtod(f[4 + i].c_str(), &q); REQUIRE(!f[4 + i].empty() && *q == 0, "row " << k << " of " << e.name << ": " << head[4 + i] << " is '" << f[4 + i] << "'"); if (!timed) REQUIRE(std::fabs(v - r.stats[i].value) <= 1e-14 * std::fabs(r.stats[i].value) || (std::isnan(v) && std::isnan(r.stats[i].value)) || v == r.stats[i].value, "row " << k << " of " << e.name << ": " << head[4 + i] << " is " << f[4 + i] << ", expected " << r.stats[i].value); } }
}
FACET_ISOLATED(script, 400, 6000, "parameters were trained, saved, changed and loaded") {
  bool hybrid = g.chance(1, 3); NGen c; c.maxops = 3; c.maxfactor = 4; c.maxrf = 4; c.hmax = g.chance(1, 3); if (hybrid) { c.pads = false; c.upscale = false; c.plain = g.coin(); } NDesc n = gen_netdesc(g, c); g.assume(!n.count(NOp::DOWN) && n.fx != 3 && n.fy != 3); unsigned maps = (unsigned)n.channels;
  std::vector<std::string> extra = {"pbatchsize=" + std::to_string(1 + g.below(2)), "sbatchsize=" + std::to_string(1 + g.below(2)), "lr=" + g.pick<std::string>({"0.01", "0.1", "0.5"})}; if (hybrid) extra.push_back("method=patch"); extra.push_back("iterations=" + std::to_string(hybrid ? 1 + g.below(4) : g.below(4))); if (g.coin()) extra.push_back("momentum=0.9"); if (g.coin()) extra.push_back("gamma=0.1"); if (g.coin()) extra.push_back("exponent=0.5"); if (g.chance(1, 4)) extra.push_back("optimization=quickprop"); if (g.chance(1, 3)) extra.push_back("l2=0.01"); render_all(g, n, extra);
  Dir d("d"); mkdir((d / "csv").c_str(), 0700); DConf conf = gen_conf(g, n.classes, d / "tr.Tensor", d / "te.Tensor", hybrid); write_file(d / "net", n.text); write_file(d / "set", conf.text);
  for (int t = 0; t < 2; t++) { std::vector<Pair> v; size_t k = 1 + g.below(2); for (size_t q = 0; q < k; q++) { Pair p; size_t w = n.fx * (1 + g.below(2)), h = n.fy * (1 + g.below(2)); if (hybrid) { w = std::max(w, n.rfx + n.fx); h = std::max(h, n.rfy + n.fy); w = (w + n.fx - 1) / n.fx * n.fx; h = (h + n.fy - 1) / n.fy * n.fy; } p.data = Arr(1, w, h, maps); p.label = Arr(1, w, h, n.classes); pbt::Rng r(g.below(1 << 20)); for (auto& x : p.data.d) x = (float)((int)r.below(33) - 16) / 16; for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { size_t cl = r.below(n.classes); for (size_t m = 0; m < n.classes; m++) p.label.at(x, y, m, 0) = n.classes == 1 ? (r.below(2) ? 1.f : -1.f) : (float)(m == cl); } v.push_back(p); } std::ofstream o(d / (t ? "te.Tensor" : "tr.Tensor"), std::ios::binary); write_stream(o, v, (t || !hybrid) && g.chance(1, 4)); }
  g.note() << (hybrid ? "hybrid " : "") << oneline(n.text) << " || "; FdGuard fds; Bench b; b.build(n.text, conf.text); std::vector<Exp> exps(1); exps[0].name = "unnamed"; size_t cur = 0; std::map<std::string, std::string> files; std::string script; size_t ops = 3 + g.below(9); bool quit = false, trained = false, changed = false, used = false; auto& agg = *Conv::System::stat_aggregator; size_t saves = 0;
  auto line = [&](std::string cmd, std::vector<std::string> par) { for (size_t k = par.size(); k > 1; k--) std::swap(par[k - 1], par[g.below(k)]); for (auto& p : par) cmd += " " + p; if (g.chance(1, 8)) cmd += " "; script += cmd + "\n"; };
  auto take = [&]() { for (; !b.keep.reports.empty(); b.keep.reports.clear()) for (auto& r : b.keep.reports) exps[cur].rows.push_back(r); };
  for (size_t q = 0; q < ops && !quit; q++) {
    switch (g.weighted({trained && (!saves || changed) ? 3u : 10u, 1, trained && !saves ? 12u : 2u, saves && changed ? 12u : 1u, 2, 1, 1, 1, 1, 1})) {
      case 0: { unsigned e = (unsigned)g.below(3); bool nosnap = g.chance(1, 3); std::vector<std::string> par; if (e != 1 || g.coin()) par.push_back("epochs=" + std::to_string(e)); if (nosnap) par.push_back("no_snapshots=1"); else if (g.chance(1, 4)) par.push_back("no_snapshots=0"); line("train", par); agg.StartRecording(); b.trainer->Train(e, !nosnap); b.tester().SetEpoch(b.trainer->epoch()); agg.StopRecording(); if (nosnap) agg.Generate(); agg.Reset(); trained |= e > 0; changed |= e > 0; break; }
      case 1: { line("test", {}); agg.StartRecording(); b.tester().SetEpoch(b.trainer->epoch()); b.tester().Test(); agg.StopRecording(); agg.Generate(); agg.Reset(); break; }
      case 2: { std::string f = g.pick<std::string>({"a.Tensor", "a.Tensor", "b.Tensor"}); if (g.chance(1, 10)) { line("save", {}); break; } if (g.chance(1, 10)) { line("save", {"file=nodir/" + f}); break; } line("save", {"file=" + (g.coin() ? f : d / f)}); files[f] = b.params(); saves++; changed = false; break; }
      case 3: { std::string f = g.pick<std::string>({"a.Tensor", "a.Tensor", "b.Tensor"}); if (g.chance(1, 10)) { line("load", {}); break; } unsigned last = g.chance(1, 3) ? 1 + (unsigned)g.below(b.graph.GetNodes().size()) : 0; std::vector<std::string> par = {"file=" + f}; if (last || g.chance(1, 4)) par.push_back("last_layer=" + std::to_string(last)); line("load", par); if (files.count(f)) { std::istringstream in(files[f]); b.graph.DeserializeParameters(in, last); b.shadow(); used |= changed; if (!last) REQUIRE(b.params() == files[f], "loading does not restore"); } break; }
      case 4: line("reset", {}); b.graph.InitializeWeights(); b.trainer->Reset(); b.shadow(); changed = true; break;
      case 5: { unsigned e = (unsigned)g.below(30); script += g.coin() ? "set epoch=" + std::to_string(e) + "\n" : "set epoch epoch=" + std::to_string(e) + "\n"; b.trainer->SetEpoch(e); b.tester().SetEpoch(e); b.trainer->Reset(); break; }
      case 6: { if (g.chance(1, 5)) { line("set experiment", {}); break; } take(); std::string e = g.pick<std::string>({"one", "two", "unnamed"}); line("set experiment", {"name=" + e}); agg.SetCurrentExperiment(e); cur = exps.size(); for (size_t k = 0; k < exps.size(); k++) if (exps[k].name == e) cur = k; if (cur == exps.size()) exps.push_back(Exp{e, {}}); exps[cur].rows.clear(); break; }
      case 7: { bool en = g.coin(); line("tstat", {"enable=" + std::to_string(en)}); b.trainer->SetStatsDuringTraining(en); b.tester().SetStatsDuringTraining(en); break; }
      case 8: script += g.pick<std::string>({"help", "", "nonsense", "# train epochs=9", " train", "tset", "graph file=g.dot", "graph file=g.dot test", "wstat node=x", "dstat node=x"}) + "\n"; break;
      default: if (g.chance(1, 3)) { script += g.pick<std::string>({"q\n", "quit\n"}); quit = true; } }
    take();
  }
  if (quit) script += "save file=late.Tensor\ntrain\n"; else { script += "save file=final.Tensor\n"; files["final.Tensor"] = b.params(); if (g.coin()) script.pop_back(); else if (g.coin()) script += "q\nsave file=late.Tensor\n"; }
  if (trained && used) g.nontrivial(); g.note() << oneline(script); bool piped = g.chance(1, 4); std::vector<std::string> args = {d / "set", d / "net"}; if (g.chance(1, 4)) args.insert(args.begin(), "-v"); if (!piped) { write_file(d / "script", script); args.push_back(d / "script"); }
  Ran r = run_tool("trainNetwork", args, d.path, piped ? script : ""); require_ok(r, "trainNetwork"); for (const char* f : {"a.Tensor", "b.Tensor", "final.Tensor", "late.Tensor"}) { bool is = file_exists(d / f); REQUIRE(is == (files.count(f) > 0), f << (is ? " was written" : " was not written") << ": " << r.tail()); if (is) REQUIRE(read_file(d / f) == files[f], f << " holds other parameters: " << r.tail()); }
  for (auto& e : exps) check_log(d / ("csv/" + e.name + ".csv"), e, b.keep.desc);
}

// ---- the training program's gradient check -------------------------------------------
struct Coutcap { std::ostringstream o; std::streambuf* old; Coutcap() { old = std::cout.rdbuf(o.rdbuf()); } ~Coutcap() { std::cout.rdbuf(old); } };
static std::vector<std::string> verdicts(const std::string& out) { std::vector<std::string> v; std::istringstream in(out); for (std::string l; std::getline(in, l);) { size_t p = l.find("RESULT --- "); if (p == std::string::npos) continue; l = l.substr(p + 11); size_t e = l.find('\033'); v.push_back(l.substr(0, e)); } return v; }
FACET_ISOLATED(gradient_check, 60, 1500, "a network with parameters, checked on a batch of several samples") {
  bool hybrid = g.chance(1, 2); NGen c; c.maxops = 3; c.maxfactor = 4; c.maxrf = 4; c.hmax = g.chance(1, 4); if (hybrid) { c.pads = false; c.upscale = false; c.plain = g.coin(); } NDesc n = gen_netdesc(g, c); g.assume(!n.count(NOp::DOWN) && n.fx != 3 && n.fy != 3); size_t batch = 1 + g.below(3);
  std::vector<std::string> extra = {"pbatchsize=" + std::to_string(batch), "sbatchsize=1", "iterations=1"}; if (hybrid) extra.push_back("method=patch"); render_all(g, n, extra); Dir d("d"); mkdir((d / "csv").c_str(), 0700); DConf conf = gen_conf(g, n.classes, d / "tr", d / "te", hybrid); write_file(d / "net", n.text); write_file(d / "set", conf.text);
  size_t count = 1 + g.below(3); pbt::Rng r(g.below(1 << 20)); for (int t = 0; t < 2; t++) { std::vector<Pair> v; for (size_t k = 0; k < (t ? count : 1); k++) { Pair p; size_t w = (n.rfx + 2 * n.fx) / n.fx * n.fx, h = (n.rfy + 2 * n.fy) / n.fy * n.fy; p.data = Arr(1, w, h, n.channels); for (auto& x : p.data.d) x = (float)((int)r.below(33) - 16) / 16; p.label = Arr(1, w, h, n.classes, 0); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { size_t k2 = r.below(n.classes); for (size_t m = 0; m < n.classes; m++) p.label.at(x, y, m, 0) = n.classes == 1 ? (r.below(2) ? 1.f : -1.f) : (float)(m == k2); } v.push_back(p); } std::ofstream o(d / (t ? "te" : "tr"), std::ios::binary); write_stream(o, v, false); }
  g.note() << (hybrid ? "patches " : "") << count << " images, batches of " << batch << ": " << oneline(n.text); Ran q = run_tool("trainNetwork", {d / "set", d / "net", "gradient_check"}, d.path);
  FdGuard fds; std::istringstream netfile(n.text), setfile(conf.text); Conv::ConfigurableFactory f(netfile, 8347734, true); f.InitOptimalSettings(); Conv::Dataset* set; if (hybrid) set = Conv::TensorStreamPatchDataset::CreateFromConfiguration(setfile, false, Conv::LOAD_BOTH, f.patchsizex(), f.patchsizey()); else set = Conv::TensorStreamDataset::CreateFromConfiguration(setfile, false, Conv::LOAD_BOTH);
  unsigned b = (unsigned)batch, lw = hybrid ? 1 : set->GetWidth(), lh = hybrid ? 1 : set->GetHeight(); Tensor data(b, set->GetWidth(), set->GetHeight(), set->GetInputMaps()), label(b, lw, lh, set->GetLabelMaps()), helper(b, lw, lh, 2), weight(b, lw, lh, 1); bool ok = true; for (unsigned k = 0; k < b; k++) ok &= set->GetTestingSample(data, label, helper, weight, k, k);
  if (!ok) { require_refused(q, "trainNetwork"); REQUIRE(verdicts(q.out).empty(), "a gradient check without enough samples reports: " << q.tail()); g.label("too few samples"); return; }
  require_ok(q, "trainNetwork"); Conv::NetGraph graph; auto* in = new Conv::NetGraphNode(new Conv::InputLayer(data, label, helper, weight)); in->is_input = true; graph.AddNode(in); REQUIRE(f.AddLayers(graph, Conv::NetGraphConnection(in), n.classes, true), "incomplete"); Bench::stats(graph, in, set); graph.Initialize(); graph.InitializeWeights();
  Coutcap cap; Conv::GradientTester::TestGradient(graph); auto want = verdicts(cap.o.str()), got = verdicts(q.out); REQUIRE(want.size() == 3 && got.size() == 3, got.size() << " verdicts: " << q.tail()); for (int k = 0; k < 3; k++) REQUIRE(got[k] == want[k], "the program reports '" << got[k] << "', the library '" << want[k] << "'");
  CTV p; graph.GetParameters(p); size_t all = 0; for (auto* t : p) all += t->data.elements(); int a, z; REQUIRE(sscanf(got[0].c_str(), "%d of %d", &a, &z) == 2 && (size_t)z <= all, got[0] << ", there are " << all << " weights"); if (batch > 1 && all) g.nontrivial();
}
