// C28: files cut short, and disks that fill up, are reported.
#include "imageset.h"
#include "netdesc.h"
#include "labels.h"
#include "tools.h"
#include "ConvolutionLayer.h"
#include "InputLayer.h"
#include "NetGraph.h"
#include <csignal>
#include <sys/resource.h>
using namespace cn;
void pbt::setup_process() { signal(SIGXFSZ, SIG_IGN); Conv::System::Init(0); }
void pbt::setup_case() {}

static Arr gen_small(G& g, unsigned big = 12) { Arr a(1 + g.below(3), 1 + g.below(g.chance(1, big) ? 90 : 9), 1 + g.below(g.chance(1, big) ? 40 : 9), 1 + g.below(3)); pbt::Rng r(g.below(1 << 20)); unsigned kind = (unsigned)g.below(3); float last = 0; for (auto& x : a.d) { if (kind == 0) x = any_float(r); else if (kind == 1) x = last = r.below(6) ? last : (float)r.below(3); else x = 0; } return a; }
static void same(const Arr& a, const Arr& b, const std::string& what) { REQUIRE(a.s == b.s && a.w == b.w && a.h == b.h && a.m == b.m, what << ": shape " << a.s << "s@" << a.w << "x" << a.h << "x" << a.m); for (size_t e = 0; e < a.d.size(); e++) REQUIRE(same_bits(&a.d[e], &b.d[e], 1) || (a.d[e] == 0 && b.d[e] == 0), what << ": element " << e << " is " << a.d[e] << ", expected " << b.d[e]); }
static std::string packed(const Arr& a) { Tensor t(a.s, a.w, a.h, a.m); memcpy(t.data_ptr(), a.d.data(), a.d.size() * 4); Conv::CompressedTensor c; c.Compress(t); std::ostringstream o; c.Serialize(o); return o.str(); }
static std::string plain(const Arr& a) { std::ostringstream o; raw_tensor(o, a); return o.str(); }
// a file made of pieces, and a length it is cut to
struct Cut {
  std::vector<size_t> ends; size_t size = 0, at = 0, complete = 0; bool clean = true;  // pieces that are complete, nothing else follows
  void choose(G& g, bool whole_too = true) {
    switch (g.below(whole_too ? 8 : 7)) { case 0: at = ends[g.below(ends.size())]; break; case 1: { size_t e = ends[g.below(ends.size())]; at = e - std::min<size_t>(e, 1 + g.below(4)); break; } case 2: { size_t e = ends[g.below(ends.size())]; at = std::min(size, e + 1 + g.below(40)); break; } case 7: at = size; break; default: at = g.below(size + 1); }
    if (!whole_too && at == size) at = g.below(size);
    complete = 0; clean = false; for (size_t k = 0; k < ends.size(); k++) { if (ends[k] <= at) complete = k; if (ends[k] == at) clean = true; } if (at == 0) clean = true;
  }
};
template <class F> static bool reported(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

// a tensor file of its own
FACET(named, 3000, 40000, "the file ends within the elements") {
  Arr a = gen_small(g); std::string all = plain(a), p = tmpfile(".Tensor"); size_t at = g.chance(1, 4) ? g.below(33) : g.chance(1, 4) ? all.size() - 1 - g.below(std::min<size_t>(8, all.size())) : g.chance(1, 6) ? all.size() : g.below(all.size()); if (at >= 32 && at < all.size()) g.nontrivial(); write_file(p, all.substr(0, at)); g.note() << all.size() << " bytes cut to " << at; std::unique_ptr<Tensor> t; if (g.coin()) { Arr b = gen_small(g); t.reset(new Tensor(b.s, b.w, b.h, b.m)); t->Clear(3); }
  bool r = reported([&] { if (t) t->LoadFromFile(p); else t.reset(new Tensor(p)); }); unlink(p.c_str()); REQUIRE(r == (at < all.size()), (r ? "a complete file was refused" : "an incomplete file was loaded")); if (!r) same(Arr(*t), a, "tensor");
}
// a stream of several, mapped into memory
FACET(stream, 4000, 50000, "the file ends within the second tensor or later") {
  bool comp = g.coin(); size_t n = g.below(6); std::vector<Arr> v; std::string all; Cut c; if (comp) { uint64_t m = CN24_CTS_MAGIC; all.assign((char*)&m, 8); } c.ends.push_back(all.size()); for (size_t k = 0; k < n; k++) { v.push_back(gen_small(g)); all += comp ? packed(v[k]) : plain(v[k]); c.ends.push_back(all.size()); } c.size = all.size(); c.choose(g); if (!c.clean && c.complete > 0) g.nontrivial();
  std::string p = tmpfile("s"); write_file(p, all.substr(0, c.at)); bool direct = g.coin(); FdGuard fd; std::unique_ptr<Conv::TensorStream> s; g.note() << (comp ? "compressed, " : "") << n << " tensors, " << all.size() << " bytes cut to " << c.at << (c.clean ? " (boundary)" : "");
  bool r = reported([&] { if (!direct) s.reset(Conv::TensorStream::FromFile(p)); else { if (comp) s.reset(new Conv::CompressedTensorStream()); else s.reset(new Conv::FloatTensorStream()); s->LoadFile(p); } });
  unlink(p.c_str()); if (!comp || c.at) REQUIRE(r == !c.clean, (r ? "a stream without an incomplete tensor was refused" : "an incomplete tensor was not reported")); if (r) return;
  REQUIRE(s->GetTensorCount() == (c.at ? c.complete : 0), s->GetTensorCount() << " tensors"); for (size_t k = 0; k < s->GetTensorCount(); k++) { Arr want(1, v[k].w, v[k].h, v[k].m); size_t smp = g.below(v[k].s); memcpy(want.d.data(), v[k].d.data() + smp * want.d.size(), want.d.size() * 4); Tensor t(1, want.w, want.h, want.m); REQUIRE(s->CopySample((unsigned)k, smp, t, 0), "sample refused"); same(Arr(t), want, "tensor " + std::to_string(k)); }
}
// data sets whose training or testing file is cut short
FACET_ISOLATED(data_set, 1500, 20000, "the file that is cut is one of two") {
  bool patch = g.coin(); size_t classes = 1 + g.below(3), maps = 1 + g.below(3), n[2]; std::string file[2], p[2] = {tmpfile("r"), tmpfile("e")}; Cut c[2]; pbt::Rng r(g.below(1 << 20)); int which = (int)g.below(2); for (int t = 0; t < 2; t++) n[t] = (t == which ? 1 : 0) + g.below(3);
  for (int t = 0; t < 2; t++) { bool comp = !patch && g.coin(); if (comp) { uint64_t m = CN24_CTS_MAGIC; file[t].assign((char*)&m, 8); } c[t].ends.push_back(file[t].size()); for (size_t k = 0; k < n[t]; k++) { Arr d(1, 3 + g.below(9), 3 + g.below(9), maps), l(1, d.w, d.h, classes); for (auto& x : d.d) x = (float)r.below(512) / 512; for (auto& x : l.d) x = (float)r.below(2); for (Arr* a : {&d, &l}) { file[t] += comp ? packed(*a) : plain(*a); c[t].ends.push_back(file[t].size()); } } c[t].size = c[t].at = file[t].size(); }
  c[which].choose(g, g.chance(1, 4)); if (!c[which].clean && n[!which]) g.nontrivial(); size_t pairs[2]; bool given[2]; for (int t = 0; t < 2; t++) { c[t].complete = 0; for (size_t k = 0; k < c[t].ends.size(); k++) if (c[t].ends[k] <= c[t].at) c[t].complete = k; pairs[t] = c[t].complete / 2; given[t] = n[t] > 0; write_file(p[t], file[t].substr(0, c[t].at)); }
  DConf conf = gen_conf(g, classes, given[0] ? p[0] : "", given[1] ? p[1] : "", patch); Conv::DatasetLoadSelection sel = g.pick<Conv::DatasetLoadSelection>({Conv::LOAD_BOTH, Conv::LOAD_BOTH, Conv::LOAD_TRAINING_ONLY, Conv::LOAD_TESTING_ONLY}); bool used[2] = {given[0] && sel != Conv::LOAD_TESTING_ONLY, given[1] && sel != Conv::LOAD_TRAINING_ONLY};
  g.note() << (patch ? "patches " : "images ") << n[0] << "+" << n[1] << (which ? " testing" : " training") << " file of " << file[which].size() << " bytes cut to " << c[which].at << (c[which].clean ? " (boundary)" : "") << " selection " << sel << (conf.nommap ? " not mapped" : "");
  bool expect = used[which] && (!c[which].clean || c[which].complete % 2), empty = true; for (int t = 0; t < 2; t++) if (used[t] && c[t].at) empty = false; std::istringstream in(conf.text); Conv::Dataset* d = nullptr; bool rep = reported([&] { if (patch) d = Conv::TensorStreamPatchDataset::CreateFromConfiguration(in, false, sel, 2, 2); else d = Conv::TensorStreamDataset::CreateFromConfiguration(in, false, sel); });
  for (auto& q : p) unlink(q.c_str()); if (!expect && empty) return; REQUIRE(rep == expect, (rep ? "a data set without an incomplete tensor was refused" : "an incomplete tensor was not reported")); if (rep) return;
  if (!patch) { for (int t = 0; t < 2; t++) { size_t got = t ? d->GetTestingSamples() : d->GetTrainingSamples(); REQUIRE(got == (used[t] ? pairs[t] : 0), got << (t ? " testing" : " training") << " samples"); } }
}
// a model: what is there is loaded, what is missing keeps its values, and that is reported
FACET(model, 2000, 30000, "several layers with parameters, and the file ends within one of them") {
  Conv::NetGraph gr; size_t layers = 1 + g.below(4), w = 6 + g.below(5); Tensor data(1, w, w, 2); data.Clear(); auto* in = new Conv::NetGraphNode(new Conv::InputLayer(data)); in->is_input = true; gr.AddNode(in); Conv::NetGraphNode* last = in;
  for (size_t k = 0; k < layers; k++) { size_t m = 1 + g.below(3); auto* c = new Conv::NetGraphNode(new Conv::ConvolutionLayer(1 + g.below(2), 1 + g.below(2), (unsigned)m, 1, 1, 0, 0, 1, 7 + k, 0), Conv::NetGraphConnection(last, 0, true)); if (k + 1 == layers) c->is_output = true; gr.AddNode(c); last = c; } gr.Initialize(); gr.InitializeWeights();
  std::vector<Conv::CombinedTensor*> ps; gr.GetParameters(ps); std::vector<std::vector<float>> now, stored; std::string all; Cut c; c.ends.push_back(0); pbt::Rng r(g.below(1 << 20));
  for (auto* q : ps) { std::vector<float> a, b; for (size_t e = 0; e < q->data.elements(); e++) { q->data[e] = (float)r.below(4096) / 64; a.push_back(q->data[e]); b.push_back((float)r.below(4096) / 64 - 100); } Arr s(q->data.samples(), q->data.width(), q->data.height(), q->data.maps()); s.d = b; all += plain(s); c.ends.push_back(all.size()); now.push_back(a); stored.push_back(b); }
  c.size = all.size(); c.choose(g); g.note() << ps.size() << " parameters, " << all.size() << " bytes cut to " << c.at; if (!c.clean && c.complete > 0) g.nontrivial(); std::istringstream file(all.substr(0, c.at)); std::ostringstream err; auto* old = std::cerr.rdbuf(err.rdbuf()); bool threw = reported([&] { gr.DeserializeParameters(file); }); std::cerr.rdbuf(old);
  if (!c.clean) REQUIRE(threw || !err.str().empty(), "an incomplete model was loaded without remark"); else REQUIRE(!threw, "a model without an incomplete parameter set was refused");
  for (size_t k = 0; k < ps.size(); k++) for (size_t e = 0; e < now[k].size(); e++) { float want = k < c.complete ? stored[k][e] : now[k][e]; REQUIRE(threw || ps[k]->data[e] == want, "parameter set " << k << " element " << e << " is " << ps[k]->data[e] << ", expected " << want); }
}
// a disk that is full after some bytes
struct Full { struct rlimit old; explicit Full(size_t n) { getrlimit(RLIMIT_FSIZE, &old); struct rlimit r = old; r.rlim_cur = n; REQUIRE(setrlimit(RLIMIT_FSIZE, &r) == 0, "harness: setrlimit"); } ~Full() { setrlimit(RLIMIT_FSIZE, &old); } };
FACET(disk_full, 3000, 40000, "some bytes could be written") {
  std::string ext = g.pick<std::string>({"Tensor", "Tensor", "png", "jpg"}); bool image = ext != "Tensor"; Arr a = image ? Arr(1, 1 + g.below(40), 1 + g.below(40), 3) : gen_small(g); if (image) { pbt::Rng r(g.below(1 << 20)); for (auto& x : a.d) x = (float)r.below(256) / 255; } Tensor t(a.s, a.w, a.h, a.m); memcpy(t.data_ptr(), a.d.data(), a.d.size() * 4); std::string p = tmpfile("." + ext);
  t.WriteToFile(p); std::string all = read_file(p); unlink(p.c_str()); size_t n = g.chance(1, 5) ? all.size() - 1 - g.below(std::min<size_t>(4, all.size())) : g.chance(1, 5) ? all.size() + g.below(3) : g.chance(1, 6) ? g.below(std::min<size_t>(all.size(), 40)) : g.below(all.size()); if (n && n < all.size()) g.nontrivial(); g.note() << ext << " " << all.size() << " bytes, room for " << n; bool r; { Full full(n); r = reported([&] { t.WriteToFile(p); }); }
  std::string got = file_exists(p) ? read_file(p) : ""; unlink(p.c_str()); REQUIRE(r == (n < all.size()), (r ? "writing a file that fits was reported to fail" : "a file that could not be written was not reported")); if (!r) REQUIRE(got == all, "the file differs");
}
// the tools
static void ended(const Ran& r, bool bad, const std::string& tool) { if (bad) require_refused(r, tool); else require_ok(r, tool); REQUIRE((r.code != 0) == bad, tool << " ends with " << r.code << (bad ? ", the failure is not reported: " : ": ") << r.tail()); }
FACET(tools, 300, 4000, "a stream of several tensors is cut within one of them") {
  size_t n = 1 + g.below(4); std::string all; Cut c; c.ends.push_back(0); std::vector<Arr> v; for (size_t k = 0; k < n; k++) { v.push_back(gen_small(g)); all += plain(v[k]); c.ends.push_back(all.size()); } c.size = all.size(); Dir d("d"); c.choose(g); std::string cut = all.substr(0, c.at); write_file(d / "in", cut); if (!c.clean && c.complete > 0) g.nontrivial();
  if (g.coin()) { g.note() << "compress, " << c.at << " of " << all.size() << " bytes"; ended(run_tool("compressTensorStream", {d / "in", d / "out"}, d.path), !c.clean, "compressTensorStream"); return; }
  size_t keep = g.below(n + 1); g.note() << "truncate to " << keep << ", " << c.at << " of " << all.size() << " bytes"; ended(run_tool("tensorStreamTool", {d / "in", std::to_string(keep)}, d.path), !c.clean, "tensorStreamTool"); std::string after = read_file(d / "in"); REQUIRE(after == (c.clean ? all.substr(0, c.ends[std::min(keep, c.complete)]) : cut), "the file " << (c.clean ? "does not hold the tensors asked for" : "was changed although it is incomplete"));
}
FACET(tools_full, 300, 4000, "some bytes could be written") {
  Dir d("d"); std::vector<std::string> args; std::string tool, out = d / "out", in; size_t n = 1 + g.below(4), keep = 0; std::vector<Arr> v; ListSet s; NDesc net; bool train = false, edit = false; std::string input;
  switch (g.below(6)) {
    case 5: v.push_back(gen_small(g, 3)); in = plain(v[0]); write_file(d / "in", in); tool = "tensorTool"; args = {out = d / "in"}; input = "write\nq\n"; edit = true; break;
    case 0: case 1: { bool trunc = g.coin(); if (trunc) n++; for (size_t k = 0; k < n; k++) { v.push_back(gen_small(g, 3)); in += plain(v[k]); } write_file(d / "in", in); if (trunc) { keep = 1 + g.below(n - 1); tool = "tensorStreamTool"; args = {d / "in", std::to_string(keep)}; out = d / "in"; } else { tool = "compressTensorStream"; args = {d / "in", out}; } break; }
    case 2: case 3: { DConf c = gen_conf(g, 1 + g.below(4), "", "", false); gen_lists(g, s, c.colors, 3, "t"); g.assume(!s.valid().empty()); write_file(d / "set", c.text); tool = g.coin() ? "makeTensorStream" : "makeCompressedTensorStream"; args = {d / "set", s.ilist, s.images + "/", s.llist, s.labels + "/", out, "false"}; break; }
    default: { NGen q; q.maxops = 3; q.maxfactor = 4; q.maxrf = 4; net = gen_netdesc(g, q); g.assume(!net.count(NOp::DOWN) && net.fx != 3 && net.fy != 3); render_all(g, net, {"sbatchsize=1", "pbatchsize=1"}); DConf c = gen_conf(g, net.classes, d / "tr", "", false); write_file(d / "net", net.text); write_file(d / "set", c.text); Arr a(1, 64, 64, net.channels), l(1, 64, 64, net.classes); write_file(d / "tr", plain(a) + plain(l)); write_file(d / "script", "save file=" + out + "\nq\n"); tool = "trainNetwork"; args = {"-v", d / "set", d / "net", d / "script"}; train = true; } }
  Ran r0 = run_tool(tool, args, d.path, input); ended(r0, false, tool); std::string all = read_file(out); if (out != d / "in") unlink(out.c_str()); else write_file(out, in); g.assume(!all.empty()); size_t room = g.chance(1, 4) ? all.size() + g.below(3) : g.chance(1, 4) ? all.size() - 1 - g.below(std::min<size_t>(4, all.size())) : g.below(all.size()); bool bad = room < all.size(); if (bad && room) g.nontrivial(); g.note() << tool << ", " << all.size() << " bytes, room for " << room; g.label(tool);
  Ran r = run_tool(tool, args, d.path, input, 60, (long)room); if (edit) { ended(r, false, tool); REQUIRE((r.out.find("Did not work") != std::string::npos) == bad, "tensorTool " << (bad ? "does not report a tensor it could not write: " : "reports a tensor it has written: ") << r.tail()); } else if (train) { ended(r, false, tool); bool told = r.out.find("\033[1;31mERR") != std::string::npos, done = r.out.find("Written parameters") != std::string::npos; REQUIRE(done == !bad, "trainNetwork says that parameters " << (done ? "were" : "were not") << " written: " << r.tail()); REQUIRE(!bad || told, "trainNetwork does not report parameters it could not write: " << r.tail()); } else ended(r, bad, tool); if (!bad) REQUIRE(read_file(out) == all, "the file differs");
}
