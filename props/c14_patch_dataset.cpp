// C14: patch extraction covers each image exactly.
#include "imageset.h"
#include "Segmentation.h"
#include <set>
using namespace cn;
using Conv::TensorStreamPatchDataset;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// every pixel of every image tells which one it is
static float mark(size_t img, size_t x, size_t y, size_t m) { return (float)((((img * 64 + y) * 64 + x) * 4) + m); }
static ImageSet gen_set(G& g, size_t maxn, size_t px, size_t py, size_t lim = 15) {
  ImageSet s; s.maps = 1 + g.below(3); s.classes = 1 + g.below(4); pbt::Rng r(g.below(1 << 20)); size_t img = 0;
  for (int t = 0; t < 2; t++) { size_t n = g.below(maxn + 1); for (size_t k = 0; k < n; k++, img++) { size_t w = g.chance(1, 5) ? 1 + g.below(px) : px + g.below(lim - px), h = g.chance(1, 5) ? 1 + g.below(py) : py + g.below(lim - py); if (g.chance(1, 6)) w = px; if (g.chance(1, 6)) h = py; Pair p; p.data = Arr(1, w, h, s.maps); p.label = Arr(1, w, h, s.classes); for (size_t m = 0; m < s.maps; m++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) p.data.at(x, y, m, 0) = mark(img, x, y, m);
      for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { size_t c = r.below(s.classes); for (size_t m = 0; m < s.classes; m++) p.label.at(x, y, m, 0) = label_value(s.classes, c, m, r, false); } s.set[t].push_back(p); } }
  return s;
}
static std::ostream& operator<<(std::ostream& o, const ImageSet& s) { o << s.maps << " maps " << s.classes << " classes"; for (int t = 0; t < 2; t++) { o << (t ? " testing" : " training"); for (auto& p : s.set[t]) o << " " << p.data.w << "x" << p.data.h; } return o; }
static size_t positions(const Pair& p, size_t px, size_t py) { return p.data.w < px || p.data.h < py ? 0 : (p.data.w - px + 1) * (p.data.h - py + 1); }

static void enumerate(G& g, Conv::Dataset& d, const ImageSet& s, const bool* loaded, size_t px, size_t py, const std::vector<float>& cw, Conv::dataset_localized_error_function ef) {
  size_t n[2] = {0, 0}, images = 0; for (int t = 0; t < 2; t++) if (loaded[t]) for (auto& p : s.set[t]) { n[t] += positions(p, px, py); images++; }
  REQUIRE(d.GetTrainingSamples() == n[0] && d.GetTestingSamples() == n[1], "the dataset reports " << d.GetTrainingSamples() << " training and " << d.GetTestingSamples() << " testing samples, expected " << n[0] << " and " << n[1]); REQUIRE(d.GetMethod() == Conv::PATCH, "method");
  REQUIRE(d.GetWidth() == px && d.GetHeight() == py, "the dataset reports patches of " << d.GetWidth() << "x" << d.GetHeight()); if (!images) return; REQUIRE(d.GetInputMaps() == s.maps && d.GetLabelMaps() == s.classes, "maps");
  size_t batch = 1 + g.below(3); Tensor da(batch, px, py, s.maps), la(batch, 1, 1, s.classes), ha(batch, 1, 1, 2), wa(batch, 1, 1, 1);
  for (int t = 0; t < 2; t++) {
    std::set<std::vector<size_t>> seen; size_t base = t ? s.set[0].size() : 0;
    for (size_t i = 0; i <= n[t]; i++) {
      size_t slot = g.below(batch); for (Tensor* q : {&da, &la, &ha, &wa}) q->Clear(-777);
      bool ok = t ? d.GetTestingSample(da, la, ha, wa, (unsigned)slot, (unsigned)i) : d.GetTrainingSample(da, la, ha, wa, (unsigned)slot, (unsigned)i); std::ostringstream what; what << (t ? "testing" : "training") << " sample " << i;
      REQUIRE(ok == (i < n[t]), what.str() << " of " << n[t] << " returned " << ok); if (!ok) { for (Tensor* q : {&da, &la, &ha, &wa}) for (size_t e = 0; e < q->elements(); e++) REQUIRE((*q)[e] == -777, what.str() << " was refused but wrote"); continue; }
      long code = (long)*da.data_ptr(0, 0, 0, slot); REQUIRE(code >= 0 && code % 4 == 0 && *da.data_ptr(0, 0, 0, slot) == (float)code, what.str() << " starts with " << *da.data_ptr(0, 0, 0, slot)); size_t x = code / 4 % 64, y = code / 256 % 64, img = code / 16384;
      REQUIRE(img >= base && img - base < s.set[t].size(), what.str() << " belongs to image " << img << " of the other set"); const Pair& p = s.set[t][img - base]; REQUIRE(x + px <= p.data.w && y + py <= p.data.h, what.str() << " leaves image " << img); REQUIRE(seen.insert({img, x, y}).second, "the patch at (" << x << "," << y << ") of image " << img << " was delivered twice");
      for (size_t m = 0; m < s.maps; m++) for (size_t b = 0; b < py; b++) for (size_t a = 0; a < px; a++) REQUIRE(*da.data_ptr(a, b, m, slot) == mark(img, x + a, y + b, m), what.str() << ": patch at (" << x << "," << y << ") of image " << img << " is wrong at (" << a << "," << b << ") map " << m);
      size_t cx = x + px / 2, cy = y + py / 2; for (size_t m = 0; m < s.classes; m++) REQUIRE(*la.data_ptr(0, 0, m, slot) == p.label.at(cx, cy, m, 0), what.str() << ": label map " << m << " of the patch at (" << x << "," << y << ") of image " << img << " is not that of its centre");
      float hx = p.data.w > 1 ? (float)x / (float)(p.data.w - 1) : 0, hy = p.data.h > 1 ? (float)y / (float)(p.data.h - 1) : 0; require_close(*ha.data_ptr(0, 0, 0, slot), hx, 1e-6, what.str() + ": first coordinate"); require_close(*ha.data_ptr(0, 0, 1, slot), hy, 1e-6, what.str() + ": second coordinate");
      float w = ef((unsigned)cx, (unsigned)cy, (unsigned)p.data.w, (unsigned)p.data.h) * cw[label_class(p.label, cx, cy)]; require_close(*wa.data_ptr(0, 0, 0, slot), w, 1e-6 * std::fabs(w), what.str() + ": weight");
      for (size_t q = 0; q < batch; q++) if (q != slot) { REQUIRE(*wa.data_ptr(0, 0, 0, q) == -777 && *la.data_ptr(0, 0, s.classes - 1, q) == -777 && *ha.data_ptr(0, 0, 1, q) == -777, what.str() << " wrote into another slot"); for (size_t e = 0; e < px * py * s.maps; e++) REQUIRE(da.data_ptr(0, 0, 0, q)[e] == -777, what.str() << " wrote into another slot"); }
    }
  }
}
static bool rich(const ImageSet& s) { return s.set[0].size() > 0 && s.set[1].size() > 0; }

FACET(enumeration, 5000, 75000, "training and testing images") {
  bool big = g.chance(1, 24); size_t px = 1 + g.small(0, big ? 19 : 5), py = 1 + g.small(0, big ? 19 : 5); ImageSet s = gen_set(g, g.chance(1, 24) ? 9 : 3, px, py, big ? 40 : 15); std::vector<std::string> names; std::vector<unsigned> colors; std::vector<float> cw; for (size_t c = 0; c < s.classes; c++) { names.push_back("c"); colors.push_back((unsigned)c); cw.push_back((float)(1 + g.below(16)) / 4); }
  g.note() << "patches " << px << "x" << py << " " << s; if (rich(s)) g.nontrivial(); std::stringstream st[2]; for (int t = 0; t < 2; t++) write_stream(st[t], s.set[t], false); bool odd = g.chance(1, 30); if (odd) raw_tensor(st[g.below(2)], Arr(1, 2, 2, 1)); Conv::dataset_localized_error_function ef = g.coin() ? odd_error : Conv::DefaultLocalizedErrorFunction; bool refused = false; std::unique_ptr<TensorStreamPatchDataset> d;
  try { d.reset(new TensorStreamPatchDataset(st[0], st[1], (unsigned)s.classes, names, colors, std::vector<datum>(cw.begin(), cw.end()), (unsigned)px, (unsigned)py, ef)); } catch (const std::runtime_error&) { refused = true; }
  REQUIRE(refused == odd, (odd ? "an odd number of tensors was accepted" : "refused")); if (odd) return; bool loaded[2] = {true, true}; enumerate(g, *d, s, loaded, px, py, cw, ef);
}
FACET_ISOLATED(configuration, 2000, 30000, "training and testing images") {
  size_t px = 1 + g.small(0, 5), py = 1 + g.small(0, 5); ImageSet s = gen_set(g, 2, px, py); std::string p[2] = {tmpfile("r"), tmpfile("e")}; bool given[2], loaded[2]; for (int t = 0; t < 2; t++) { given[t] = !s.set[t].empty() && g.chance(5, 6); std::ofstream o(p[t], std::ios::binary); write_stream(o, s.set[t], false); }
  DConf c = gen_conf(g, s.classes, given[0] ? p[0] : "", given[1] ? p[1] : "", true, true); bool dont = g.chance(1, 8); Conv::DatasetLoadSelection sel = g.pick<Conv::DatasetLoadSelection>({Conv::LOAD_BOTH, Conv::LOAD_BOTH, Conv::LOAD_TRAINING_ONLY, Conv::LOAD_TESTING_ONLY}); loaded[0] = given[0] && !dont && sel != Conv::LOAD_TESTING_ONLY; loaded[1] = given[1] && !dont && sel != Conv::LOAD_TRAINING_ONLY;
  std::string shown = c.text; for (int t = 0; t < 2; t++) { size_t at = shown.find(p[t]); if (at != std::string::npos) shown.replace(at, p[t].size(), t ? "E" : "R"); } g.note() << "patches " << px << "x" << py << " " << s << " " << oneline(shown) << " selection " << sel << (dont ? " not loaded" : ""); if (rich(s)) g.nontrivial(); if (c.nommap) g.label("nommap");
  std::istringstream in(c.text); TensorStreamPatchDataset* d = TensorStreamPatchDataset::CreateFromConfiguration(in, dont, sel, (unsigned)px, (unsigned)py); check_conf(*d, c); enumerate(g, *d, s, loaded, px, py, c.weights, c.kitti ? kitti_error : Conv::DefaultLocalizedErrorFunction); for (auto& q : p) unlink(q.c_str());
}
// windows around every pixel; beyond the border the image is mirrored
FACET(windows, 8000, 120000, "patches with more than one pixel in both directions") {
  size_t w = 1 + g.below(9), h = 1 + g.below(9), m = 1 + g.below(3), n = 1 + g.below(2), px = 1 + g.below(std::min<size_t>(2 * w - 1, 7)), py = 1 + g.below(std::min<size_t>(2 * h - 1, 7)), smp = g.below(n); bool mean = g.chance(1, 3); Tensor src(n, w, h, m); uint64_t sd = g.below(1 << 20); pbt::Rng r(sd); for (size_t e = 0; e < src.elements(); e++) src[e] = (float)((int)r.below(513) - 256) / 32; Arr before(src);
  g.note() << shape(src) << " sample " << smp << " patches " << px << "x" << py << (mean ? " mean subtracted" : ""); if (px > 1 && py > 1) g.nontrivial(); Tensor t, hp; Conv::Segmentation::ExtractPatches((int)px, (int)py, t, hp, src, (int)smp, mean); require_same(src, before, "source"); require_shape(t, w * h, px, py, m, "patches"); REQUIRE(hp.elements() == 2 * w * h, "coordinates: " << shape(hp));
  auto mirror = [](long v, long n) { if (v < 0) v = -v; if (v >= n) v = 2 * n - 1 - v; return v; };
  for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
    double sum = 0; std::vector<double> want; bool ok = true;
    for (size_t c = 0; c < m; c++) for (size_t b = 0; b < py; b++) for (size_t a = 0; a < px; a++) { long ix = mirror((long)x + (long)a - (long)(px / 2), (long)w), iy = mirror((long)y + (long)b - (long)(py / 2), (long)h); if (ix < 0 || iy < 0) { ok = false; break; } double v = before.at(ix, iy, c, smp); sum += v; want.push_back(v); }
    if (!ok) continue; double mu = mean ? sum / (px * py * m) : 0; size_t k = 0; for (size_t c = 0; c < m; c++) for (size_t b = 0; b < py; b++) for (size_t a = 0; a < px; a++, k++) { float got = *t.data_ptr(a, b, c, y * w + x); REQUIRE(std::fabs(got - (want[k] - mu)) <= (mean ? 1e-4 : 0), "the window around (" << x << "," << y << ") is " << got << " at (" << a << "," << b << ") map " << c << ", expected " << want[k] - mu); }
  }
}
