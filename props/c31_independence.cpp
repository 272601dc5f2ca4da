// C31: what a network, a trainer, a data set, a stream or a tensor does depends on nothing but
// itself: not on others of its kind in the same process, nor on what happened before.
// Oracle: the same operations with nothing else around.
#include "imageset.h"
#include "netdesc.h"
#include "dataset.h"
#include "mocknet.h"
#include "Dataset.h"
#include "DatasetInputLayer.h"
#include "CompressedTensor.h"
#include "TensorStream.h"
#include "Trainer.h"
#include "tools.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

struct Quiet { std::streambuf *e, *o; std::ostringstream err, out; Quiet() { e = std::cerr.rdbuf(err.rdbuf()); o = std::cout.rdbuf(out.rdbuf()); } ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };
static uint64_t mix(uint64_t h, uint64_t v) { return (h ^ v) * 1099511628211ull + (h >> 29); }
static uint64_t hash(const std::string& s) { uint64_t h = 14695981039346656037ull; for (unsigned char c : s) h = mix(h, c); return h; }
static uint64_t hash(const Tensor& t) { uint64_t h = mix(mix(mix(mix(7, t.samples()), t.width()), t.height()), t.maps()); for (size_t e = 0; e < t.elements(); e++) { float f = t.data_ptr_const()[e]; uint32_t b; memcpy(&b, &f, 4); h = mix(h, f != f ? 0x7fc00000u : b); } return h; }
static void fill(Tensor& t, uint64_t seed) { pbt::Rng r(seed); for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = (float)((int)r.below(201) - 100) / 64; }

struct Op { unsigned what; uint64_t a, b; };
struct Actor { virtual ~Actor() {} virtual std::string run(const Op&) = 0; };
struct Kind { virtual ~Kind() {} virtual std::unique_ptr<Actor> make() const = 0; std::string name; std::vector<Op> ops; };

// a network by itself
struct NetKind : Kind {
  NDesc n; unsigned seed; bool training; size_t s, w, h; NetKind(G& g) {
    NGen c; c.maxops = 5; n = gen_netdesc(g, c); render_all(g, n); seed = 1 + (unsigned)g.below(50); training = g.coin(); s = 1 + g.below(2); w = n.fx * (1 + g.below(2)); h = n.fy * (1 + g.below(2)); if (training) { w = std::max<size_t>(w, n.rfx); h = std::max<size_t>(h, n.rfy); w = std::max(n.fx, w / n.fx * n.fx); h = std::max(n.fy, h / n.fy * n.fy); } name = "network #" + std::to_string(seed) + " " + std::to_string(w) + "x" + std::to_string(h) + " " + oneline(n.text); }
  struct A : Actor {
    FNet f; std::string saved; bool ok = false, went = false; A(const NetKind& k) { try { f.build(k.n, k.seed, k.training, k.s, k.w, k.h, true); ok = f.complete; if (ok) { f.graph.InitializeWeights(); f.graph.SetIsTesting(false); } } catch (const std::exception&) { ok = false; } }
    std::string run(const Op& o) override {
      if (!ok) return "refused"; std::ostringstream r; try { switch (o.what % 10) {
        case 0: fill(f.data, o.a); fill(f.label, o.b); r << "input"; break;
        case 1: case 2: f.graph.FeedForward(); went = true; r << "forward"; for (auto* x : f.graph.GetNodes()) for (auto& b : x->output_buffers) r << " " << hash(b.combined_tensor->data); r << " " << f.graph.AggregateLoss(); break;
        case 3: f.graph.FeedForward(); went = true; f.graph.BackPropagate(); r << "back"; for (auto* x : f.params()) r << " " << hash(x->delta); break;
        case 8: case 9: if (!went) break; f.graph.BackPropagate(); r << "back only"; for (auto* x : f.params()) r << " " << hash(x->delta); for (auto* x : f.graph.GetNodes()) for (auto& b : x->output_buffers) r << " " << hash(b.combined_tensor->delta); break;
        case 4: f.graph.InitializeWeights(); r << "init"; for (auto* x : f.params()) r << " " << hash(x->data); break;
        case 5: { std::ostringstream q; f.graph.SerializeParameters(q); saved = q.str(); r << "save " << hash(saved); } break;
        case 6: { if (saved.empty()) break; std::istringstream q(saved); f.graph.DeserializeParameters(q); r << "load"; for (auto* x : f.params()) r << " " << hash(x->data); } break;
        default: { auto p = f.params(); if (!p.empty()) fill(p[o.a % p.size()]->data, o.b); r << "weights"; std::ostringstream q; f.graph.PrintGraph(q); r << q.str().size(); } break;
      } } catch (const std::exception&) { r << " refused"; } return r.str(); }
  };
  std::unique_ptr<Actor> make() const override { return std::unique_ptr<Actor>(new A(*this)); }
};
// a network with its trainer
struct TrainKind : Kind {
  NDesc n; MemDataset d; unsigned seed, batch; float prob; TrainerSettings s; TrainKind(G& g) {
    NGen c; c.maxops = 4; c.maxrf = 4; c.maxfactor = 2; n = gen_netdesc(g, c); bool pooled = false; for (auto& o : n.ops) { g.assume(o.k != NOp::DOWN || !pooled); if (o.k == NOp::MAXPOOL || o.k == NOp::AMAXPOOL) pooled = true; } render_all(g, n); d.w = (unsigned)(n.fx * (1 + g.below(3))); d.h = (unsigned)(n.fy * (1 + g.below(3))); d.in = (unsigned)n.channels; d.cls = (unsigned)n.classes; d.ntrain = 1 + (unsigned)g.below(5); d.ntest = 1 + (unsigned)g.below(3); d.seed = g.below(1 << 20); seed = 1 + (unsigned)g.below(50); batch = 1 + (unsigned)g.below(3); prob = g.pick<float>({1.f, 0.5f}); s = gen_settings(g, g.coin()); s.iterations = 1 + (unsigned)g.below(3); s.learning_rate = 0.02f; name = "training #" + std::to_string(seed) + " " + oneline(n.text); }
  struct A : Actor {
    MemDataset d; std::istringstream file; std::unique_ptr<Conv::ConfigurableFactory> factory; Conv::NetGraph graph; std::unique_ptr<Conv::Trainer> t;
    A(const TrainKind& k) : d(k.d), file(k.n.text) { d.log = true; factory.reset(new Conv::ConfigurableFactory(file, k.seed, true)); auto* node = new Conv::NetGraphNode(new Conv::DatasetInputLayer(d, k.batch, k.prob, k.seed + 5)); node->is_input = true; graph.AddNode(node); factory->AddLayers(graph, Conv::NetGraphConnection(node, 0), d.cls, true); graph.Initialize(); graph.InitializeWeights(); graph.SetIsTesting(false); try { t.reset(new Conv::Trainer(graph, k.s)); } catch (const std::exception&) {} }
    ~A() { t.reset(); std::vector<Conv::NetGraphNode*> all = graph.GetNodes(); std::set<CombinedTensor*> q; for (auto* n : all) for (auto& b : n->output_buffers) q.insert(b.combined_tensor); for (auto* n : all) { delete n->layer; delete n; } for (auto* c : q) delete c; }
    std::string run(const Op& o) override {
      if (!t) return "refused"; std::ostringstream r; try { switch (o.what % 5) { case 0: case 1: case 2: t->Train(1 + o.a % 2, false); r << "train"; break; case 3: t->Test(); r << "test"; break; default: t->Reset(); r << "reset"; } } catch (const std::exception&) { r << " refused"; }
      CTV p; graph.GetParameters(p); for (auto* x : p) r << " " << hash(x->data); for (auto& q : d.asked) r << (q.first ? " T" : " t") << q.second; return r.str(); }
  };
  std::unique_ptr<Actor> make() const override { return std::unique_ptr<Actor>(new A(*this)); }
};
// data sets and streams
struct DataKind : Kind {
  std::string conf, tr; bool patch, comp; size_t maps, classes; std::vector<unsigned> colors; DataKind(G& g, const std::string& base) {
    patch = g.coin(); comp = !patch && g.coin(); maps = 1 + g.below(3); classes = 1 + g.below(3); tr = base + "tr"; std::string te = base + "te"; for (auto& p : {tr, te}) { std::vector<Pair> v; size_t n = 1 + g.below(3); for (size_t k = 0; k < n; k++) { Pair q; size_t w = 2 + g.below(8), h = 2 + g.below(8); q.data = Arr(1, w, h, maps); q.label = Arr(1, w, h, classes); pbt::Rng r(g.below(1 << 20)); for (auto& x : q.data.d) x = (float)r.below(256) / 255; for (auto& x : q.label.d) x = (float)r.below(3) / 2; v.push_back(q); } std::ofstream o(p, std::ios::binary); write_stream(o, v, comp); }
    conf = gen_conf(g, classes, tr, te, patch).text; name = patch ? "patches" : "images"; }
  struct A : Actor {
    const DataKind& k; std::unique_ptr<Conv::TensorStreamDataset> d; std::unique_ptr<Conv::TensorStreamPatchDataset> p; std::unique_ptr<Conv::TensorStream> s;
    A(const DataKind& k) : k(k) { std::istringstream f(k.conf); if (k.patch) p.reset(Conv::TensorStreamPatchDataset::CreateFromConfiguration(f, false, Conv::LOAD_BOTH, 2, 2)); else d.reset(Conv::TensorStreamDataset::CreateFromConfiguration(f, false)); s.reset(Conv::TensorStream::FromFile(k.tr, {})); }
    template <class D> std::string sample(D& q, const Op& o, bool pt) { Tensor data(2, q.GetWidth(), q.GetHeight(), q.GetInputMaps()), label(2, pt ? 1 : q.GetWidth(), pt ? 1 : q.GetHeight(), q.GetLabelMaps()), helper(2, label.width(), label.height(), 2), weight(2, label.width(), label.height(), 1); for (auto* x : {&data, &label, &helper, &weight}) x->Clear(0.5); bool te = o.b & 1; unsigned n = te ? q.GetTestingSamples() : q.GetTrainingSamples(); unsigned at = n ? (unsigned)(o.a % (n + 1)) : 0; bool ok = te ? q.GetTestingSample(data, label, helper, weight, 1, at) : q.GetTrainingSample(data, label, helper, weight, 1, at); std::ostringstream r; r << n << " " << at << " " << ok; if (ok) r << " " << hash(data) << " " << hash(label) << " " << hash(helper) << " " << hash(weight); r << " " << q.GetClasses(); for (auto c : q.GetClassColors()) r << " " << c; for (auto c : q.GetClassWeights()) r << " " << c; for (auto& c : q.GetClassNames()) r << " " << c; return r.str(); }
    std::string run(const Op& o) override { try {
      if (o.what % 4 == 0) { std::ostringstream r; r << s->GetTensorCount(); Tensor x(2, 10, 10, std::max(k.maps, k.classes)); x.Clear(0.5); unsigned at = (unsigned)(o.a % (s->GetTensorCount() + 1)); r << " " << s->GetWidth(at) << "x" << s->GetHeight(at) << "x" << s->GetMaps(at); bool ok = s->CopySample(at, 0, x, 1); r << ok << " " << hash(x); return r.str(); }
      return k.patch ? sample(*p, o, true) : sample(*d, o, false); } catch (const std::exception&) { return "refused"; } }
  };
  std::unique_ptr<Actor> make() const override { return std::unique_ptr<Actor>(new A(*this)); }
};
// tensors
struct TensorKind : Kind {
  uint64_t seed; TensorKind(G& g) { seed = g.below(1000); name = "tensors"; }
  struct A : Actor {
    Tensor t[2]; Conv::CompressedTensor c; A(const TensorKind& k) { t[0].Resize(1 + k.seed % 2, 1 + k.seed % 5, 1 + k.seed % 3, 2); t[1].Resize(1, 2, 3, 4); fill(t[0], k.seed); t[1].Clear(); }
    std::string run(const Op& o) override { Tensor &x = t[o.a & 1], &y = t[1 - (o.a & 1)]; std::ostringstream r; switch (o.what % 6) {
      case 0: fill(x, o.b); break; case 1: c.Compress(x); break; case 2: if (c.elements()) c.Decompress(y); break; case 3: { std::stringstream q; x.Serialize(q); r << hash(q.str()) << " "; y.Deserialize(q); } break; case 4: x.Resize(1 + o.b % 2, 1 + o.b % 4, 1 + o.b % 3, 1 + o.b % 3); x.Clear((float)o.b); break; default: y.Resize(x); y.Clear(); for (size_t k = 0; k < x.samples(); k++) Tensor::CopySample(x, k, y, x.samples() - 1 - k); }
      r << hash(t[0]) << " " << hash(t[1]) << " " << c.elements(); return r.str(); }
  };
  std::unique_ptr<Actor> make() const override { return std::unique_ptr<Actor>(new A(*this)); }
};

static void check(G& g, std::vector<std::unique_ptr<Kind>>& k) {
  for (auto& x : k) { size_t n = 1 + g.below(6); for (size_t q = 0; q < n; q++) x->ops.push_back(Op{(unsigned)g.below(240), g.below(1000), g.below(1000)}); }
  // when each begins, acts and ends
  std::vector<size_t> at(k.size(), 0), order; size_t left = 0; for (auto& x : k) left += x->ops.size() + 2; while (left--) { size_t w = g.below(k.size()); while (at[w] == k[w]->ops.size() + 2) w = (w + 1) % k.size(); at[w]++; order.push_back(w); }
  for (auto& x : k) g.note() << "[" << x->name << "; " << x->ops.size() << " operations] "; g.note() << "order"; for (size_t w : order) g.note() << " " << w;
  Quiet quiet; FdGuard fd; std::vector<std::vector<std::string>> alone(k.size()), among(k.size());
  for (size_t w = 0; w < k.size(); w++) { auto a = k[w]->make(); for (auto& o : k[w]->ops) alone[w].push_back(a->run(o)); }
  std::vector<std::unique_ptr<Actor>> live(k.size()); std::fill(at.begin(), at.end(), 0); bool mixed = false;
  for (size_t w : order) { size_t step = at[w]++; if (step == 0) live[w] = k[w]->make(); else if (step <= k[w]->ops.size()) { among[w].push_back(live[w]->run(k[w]->ops[step - 1])); for (size_t v = 0; v < k.size(); v++) mixed |= v != w && at[v] > 1 && at[v] < k[v]->ops.size() + 1; } else live[w].reset(); }
  for (size_t w = 0; w < k.size(); w++) for (size_t q = 0; q < k[w]->ops.size(); q++) REQUIRE(alone[w][q] == among[w][q], k[w]->name << ": operation " << q << " gives " << among[w][q] << " among others, by itself " << alone[w][q]);
  bool no = false; for (auto& a : alone) for (auto& r : a) no |= r.find("refused") != std::string::npos; g.label(no ? "something refused" : "all performed"); if (mixed) g.nontrivial();
}
FACET(networks, 4000, 60000, "one network was used between two uses of another") { std::vector<std::unique_ptr<Kind>> k; size_t n = 2 + g.below(2); for (size_t q = 0; q < n; q++) k.emplace_back(new NetKind(g)); check(g, k); }
FACET(training, 1500, 20000, "one trainer was used between two uses of another") { std::vector<std::unique_ptr<Kind>> k; for (size_t q = 0; q < 2; q++) k.emplace_back(new TrainKind(g)); check(g, k); }
FACET(data_sets, 1500, 20000, "one data set was used between two uses of another") { Dir dir("d"); std::vector<std::unique_ptr<Kind>> k; size_t n = 2 + g.below(2); for (size_t q = 0; q < n; q++) k.emplace_back(new DataKind(g, dir / std::to_string(q))); check(g, k); }
FACET(all, 2000, 30000, "one was used between two uses of another") { Dir dir("d"); std::vector<std::unique_ptr<Kind>> k; size_t n = 2 + g.below(3); for (size_t q = 0; q < n; q++) switch (g.below(4)) { case 0: k.emplace_back(new NetKind(g)); break; case 1: k.emplace_back(new TrainKind(g)); break; case 2: k.emplace_back(new DataKind(g, dir / std::to_string(q))); break; default: k.emplace_back(new TensorKind(g)); } check(g, k); }
