// C13: image datasets deliver what the files contain.
#include "imageset.h"
using namespace cn;
using Conv::TensorStreamDataset;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static size_t gen_side(G& g) { switch (g.below(6)) { case 0: return 1; case 1: return 1 + g.below(4); case 2: return 60 + g.below(8); case 3: return 124 + g.below(8); default: return 1 + g.below(32); } }
static ImageSet gen_set(G& g, size_t maxn, bool onehot = false) {
  ImageSet s; s.maps = 1 + g.below(3); s.classes = 1 + g.below(4); uint64_t seed = g.below(1 << 20); pbt::Rng r(seed); size_t wide = 0;
  for (int t = 0; t < 2; t++) { size_t n = g.below(maxn + 1); for (size_t k = 0; k < n; k++) { size_t w = gen_side(g), h = gen_side(g); if (g.chance(1, 6)) w = h = 64; else if (g.chance(1, 25)) { w = 200 + g.below(500); h = 3 + g.below(7); if (g.coin()) std::swap(w, h); } if (w * h > 3000 && wide++) { w = 1 + w % 20; h = 1 + h % 20; } if (w * h > 6000) h = 3; Pair p; p.data = Arr(1, w, h, s.maps); p.label = Arr(1, w, h, s.classes); for (auto& v : p.data.d) v = (float)((int)r.below(1025) - 512) / 256; for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { size_t c = r.below(s.classes); for (size_t m = 0; m < s.classes; m++) p.label.at(x, y, m, 0) = label_value(s.classes, c, m, r, onehot); } s.set[t].push_back(p); } }
  return s;
}
static std::ostream& operator<<(std::ostream& o, const ImageSet& s) { o << s.maps << " maps " << s.classes << " classes"; for (int t = 0; t < 2; t++) { o << (t ? " testing" : " training"); for (auto& p : s.set[t]) o << " " << p.data.w << "x" << p.data.h; } return o; }
static size_t up64(size_t v) { return (v + 63) / 64 * 64; }
static void dims(const ImageSet& s, size_t& W, size_t& H, const bool* loaded) { W = H = 0; for (int t = 0; t < 2; t++) if (loaded[t]) for (auto& p : s.set[t]) { W = std::max(W, p.data.w); H = std::max(H, p.data.h); } W = up64(W); H = up64(H); }

struct Batch {
  Tensor d, l, h, w; Arr ad, al, ah, aw;
  Batch(size_t n, size_t W, size_t H, size_t maps, size_t classes) : d(n, W, H, maps), l(n, W, H, classes), h(n, W, H, 2), w(n, W, H, 1) { for (Tensor* t : {&d, &l, &h, &w}) for (size_t e = 0; e < t->elements(); e++) { uint32_t b = 0x7fc00000u + (uint32_t)(e % 977); memcpy(t->data_ptr() + e, &b, 4); } ad = Arr(d); al = Arr(l); ah = Arr(h); aw = Arr(w); }
  void expect(const Pair& p, size_t s, const std::vector<float>& cw, Conv::dataset_localized_error_function ef) {
    size_t W = d.width(), H = d.height();
    for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) {
      bool in = x < p.data.w && y < p.data.h;
      for (size_t m = 0; m < ad.m; m++) ad.at(x, y, m, s) = in ? p.data.at(x, y, m, 0) : 0; for (size_t m = 0; m < al.m; m++) al.at(x, y, m, s) = in ? p.label.at(x, y, m, 0) : 0;
      ah.at(x, y, 0, s) = in && p.data.w > 1 ? (float)x / (float)(p.data.w - 1) : 0; ah.at(x, y, 1, s) = in && p.data.h > 1 ? (float)y / (float)(p.data.h - 1) : 0;
      aw.at(x, y, 0, s) = in ? ef((unsigned)x, (unsigned)y, (unsigned)p.data.w, (unsigned)p.data.h) * cw[label_class(p.label, x, y)] : 0;
    }
  }
  void check(const std::string& what) {
    const char* names[] = {"data", "label", "coordinate", "weight"}; Tensor* t[] = {&d, &l, &h, &w}; Arr* a[] = {&ad, &al, &ah, &aw};
    for (int k = 0; k < 4; k++) { require_shape(*t[k], a[k]->s, a[k]->w, a[k]->h, a[k]->m, names[k]); for (size_t e = 0; e < a[k]->d.size(); e++) { float got = (*t[k])[e], want = a[k]->d[e]; bool ok = memcmp(&got, &want, 4) == 0 || got == want || (k >= 2 && std::fabs(got - want) <= 1e-6f * std::fabs(want)); if (!ok) { size_t W = t[k]->width(), H = t[k]->height(); FAILMSG(what << ": " << names[k] << " at (" << e % W << "," << e / W % H << ") map " << e / (W * H) % t[k]->maps() << " of slot " << e / (W * H * t[k]->maps()) << " is " << got << ", expected " << want); } } }
  }
};
static void requests(G& g, Conv::Dataset& d, const ImageSet& s, const bool* loaded, const std::vector<float>& cw, Conv::dataset_localized_error_function ef) {
  size_t W, H; dims(s, W, H, loaded); size_t n[2]; for (int t = 0; t < 2; t++) n[t] = loaded[t] ? s.set[t].size() : 0;
  REQUIRE(d.GetWidth() == W && d.GetHeight() == H, "the dataset reports " << d.GetWidth() << "x" << d.GetHeight() << ", expected " << W << "x" << H);
  REQUIRE(d.GetTrainingSamples() == n[0] && d.GetTestingSamples() == n[1], "the dataset reports " << d.GetTrainingSamples() << " training and " << d.GetTestingSamples() << " testing samples"); REQUIRE(d.SupportsTesting() == (n[1] > 0), "SupportsTesting"); REQUIRE(d.GetMethod() == Conv::FCN, "method");
  if (n[0] + n[1] == 0) return; REQUIRE(d.GetInputMaps() == s.maps && d.GetLabelMaps() == s.classes, "the dataset reports " << d.GetInputMaps() << " input and " << d.GetLabelMaps() << " label maps");
  size_t batch = 1 + g.below(W * H > 9000 ? 1 : 2); Batch b(batch, W, H, s.maps, s.classes); size_t k = 1 + g.below(4);
  for (size_t q = 0; q < k; q++) {
    bool test = g.coin(); unsigned i = (unsigned)g.below(n[test] + 1), slot = (unsigned)g.below(batch); if (i < n[test]) b.expect(s.set[test][i], slot, cw, ef); std::ostringstream what; what << (test ? "testing" : "training") << " sample " << i << " into slot " << slot; g.note() << "; " << what.str();
    bool ok = test ? d.GetTestingSample(b.d, b.l, b.h, b.w, slot, i) : d.GetTrainingSample(b.d, b.l, b.h, b.w, slot, i); REQUIRE(ok == (i < n[test]), what.str() << " returned " << ok); b.check(what.str());
  }
}
static bool varied(const ImageSet& s) { for (int t = 0; t < 2; t++) for (auto& p : s.set[t]) { auto& q = s.set[s.set[0].empty()][0].data; if (p.data.w != q.w || p.data.h != q.h) return true; } return false; }

FACET(samples, 6000, 90000, "images of different sizes") {
  ImageSet s = gen_set(g, g.chance(1, 24) ? 12 : 3); FdGuard fd; std::unique_ptr<Conv::TensorStream> st[2]; bool comp[2], loaded[2] = {true, true}; std::vector<std::string> names; std::vector<unsigned> colors; std::vector<float> cw; for (size_t c = 0; c < s.classes; c++) { names.push_back("c" + std::to_string(c)); colors.push_back(0x123456 * (unsigned)c); cw.push_back((float)g.below(17) / 4); }
  bool odd = g.chance(1, 30); int which = (int)g.below(2);
  for (int t = 0; t < 2; t++) { comp[t] = g.coin(); std::string p = tmpfile(t ? "e" : "r"); { std::ofstream o(p, std::ios::binary); if (odd && t == which) { if (comp[t]) { write_stream(o, {}, true); Arr a(1, 2, 2, 1); Tensor q(1, 2, 2, 1); q.Clear(); Conv::CompressedTensor c; c.Compress(q); c.Serialize(o); } else raw_tensor(o, Arr(1, 2, 2, 1)); } write_stream(o, s.set[t], comp[t] && !(odd && t == which)); if (comp[t] && odd && t == which && !s.set[t].empty()) g.assume(false); }
    if (s.set[t].empty() && !comp[t] && !(odd && t == which)) st[t].reset(new Conv::FloatTensorStream()); else { st[t].reset(Conv::TensorStream::FromFile(p)); } unlink(p.c_str()); }
  g.note() << s << (comp[0] ? " ctraining" : "") << (comp[1] ? " ctesting" : "") << (odd ? " odd" : ""); if (varied(s)) g.nontrivial();
  Conv::dataset_localized_error_function ef = g.coin() ? odd_error : Conv::DefaultLocalizedErrorFunction; bool refused = false; std::unique_ptr<TensorStreamDataset> d;
  try { d.reset(new TensorStreamDataset(st[0].get(), st[1].get(), (unsigned)s.classes, names, colors, std::vector<datum>(cw.begin(), cw.end()), ef)); } catch (const std::runtime_error&) { refused = true; }
  REQUIRE(refused == odd, (odd ? "an odd number of tensors was accepted" : "refused")); if (odd) { g.label("odd"); return; }
  if (g.chance(1, 20)) { names.push_back("x"); bool r = false; try { TensorStreamDataset q(st[0].get(), st[1].get(), (unsigned)s.classes, names, colors, std::vector<datum>(cw.begin(), cw.end()), ef); } catch (const std::runtime_error&) { r = true; } REQUIRE(r, "class information of the wrong length was accepted"); }
  requests(g, *d, s, loaded, cw, ef);
}
FACET_ISOLATED(configuration, 2500, 40000, "at least two classes and images of different sizes") {
  ImageSet s = gen_set(g, 2); std::string p[2] = {tmpfile("r"), tmpfile("e")}; bool given[2], loaded[2];
  for (int t = 0; t < 2; t++) { given[t] = !s.set[t].empty() && g.chance(5, 6); std::ofstream o(p[t], std::ios::binary); write_stream(o, s.set[t], g.coin()); }
  DConf c = gen_conf(g, s.classes, given[0] ? p[0] : "", given[1] ? p[1] : "", false, true); bool dont = g.chance(1, 8); Conv::DatasetLoadSelection sel = g.pick<Conv::DatasetLoadSelection>({Conv::LOAD_BOTH, Conv::LOAD_BOTH, Conv::LOAD_TRAINING_ONLY, Conv::LOAD_TESTING_ONLY}); loaded[0] = given[0] && !dont && sel != Conv::LOAD_TESTING_ONLY; loaded[1] = given[1] && !dont && sel != Conv::LOAD_TRAINING_ONLY;
  std::string shown = c.text; for (int t = 0; t < 2; t++) { size_t at = shown.find(p[t]); if (at != std::string::npos) shown.replace(at, p[t].size(), t ? "E" : "R"); } g.note() << s << " " << oneline(shown) << " selection " << sel << (dont ? " not loaded" : ""); if (s.classes > 1 && varied(s)) g.nontrivial();
  std::istringstream in(c.text); if (g.coin()) { std::string x; in >> x >> x; } TensorStreamDataset* d = TensorStreamDataset::CreateFromConfiguration(in, dont, sel); check_conf(*d, c); requests(g, *d, s, loaded, c.weights, c.kitti ? kitti_error : Conv::DefaultLocalizedErrorFunction);
  for (auto& q : p) unlink(q.c_str());
}
FACET_ISOLATED(missing_file, 150, 1000, "a named file does not exist") {
  std::string p = tmpfile("nothing"); unlink(p.c_str()); bool test = g.coin(); DConf c = gen_conf(g, 1 + g.below(3), test ? "" : p, test ? p : "", false); std::istringstream in(c.text); g.note() << (test ? "testing" : "training"); g.nontrivial(); bool refused = false;
  try { TensorStreamDataset::CreateFromConfiguration(in); } catch (const std::runtime_error&) { refused = true; } REQUIRE(refused, "a missing file was not reported");
}
