// Generated image/label pairs, the stream files holding them, and dataset
// configuration files.
#pragma once
#include "cn.h"
#include "Dataset.h"
#include "TensorStream.h"
#include "FloatTensorStream.h"
#include "CompressedTensorStream.h"
#include "CompressedTensor.h"
#include "KITTIData.h"
#include <fcntl.h>

namespace cn {

struct Pair { Arr data, label; };
struct ImageSet { size_t maps = 1, classes = 1; std::vector<Pair> set[2]; };  // training, testing

inline float label_value(size_t classes, size_t cls, size_t m, pbt::Rng& r, bool onehot) { if (classes == 1) return (float)((int)r.below(65) - 32) / 32; return onehot ? (m == cls ? 1.f : 0.f) : (m == cls ? 1.f : (float)((int)r.below(32) - 20) / 32); }
inline size_t label_class(const Arr& l, size_t x, size_t y) { size_t b = 0; for (size_t m = 1; m < l.m; m++) if (l.at(x, y, m, 0) > l.at(x, y, b, 0)) b = m; return b; }
inline void raw_tensor(std::ostream& o, const Arr& a) { uint64_t h[4] = {a.s, a.w, a.h, a.m}; o.write((const char*)h, 32); o.write((const char*)a.d.data(), a.d.size() * 4); }
inline void write_stream(std::ostream& o, const std::vector<Pair>& v, bool compressed) {
  if (!compressed) { for (auto& p : v) { raw_tensor(o, p.data); raw_tensor(o, p.label); } return; }
  uint64_t magic = CN24_CTS_MAGIC; o.write((const char*)&magic, 8);
  for (auto& p : v) for (const Arr* a : {&p.data, &p.label}) { Tensor t(a->s, a->w, a->h, a->m); memcpy(t.data_ptr(), a->d.data(), a->d.size() * 4); Conv::CompressedTensor c; c.Compress(t); c.Serialize(o); }
}
inline float odd_error(unsigned x, unsigned y, unsigned w, unsigned h) { return (float)((x * 3 + y * 5 + w * 7 + h * 11) % 13) / 4; }

// descriptors opened by the case and not closed by the code under test
struct FdGuard { int base; FdGuard() { base = dup(0); if (base >= 0) close(base); else base = 3; } ~FdGuard() { for (int f = base; f < base + 64; f++) if (fcntl(f, F_GETFD) >= 0) close(f); } };

// a configuration file and what it says
struct DConf { std::string text; std::vector<std::string> names; std::vector<unsigned> colors; std::vector<float> weights; bool kitti = false, nommap = false; };
inline DConf gen_conf(G& g, size_t classes, const std::string& train, const std::string& test, bool patch, bool alpha = false) {
  DConf c; std::vector<std::string> parts; std::ostringstream o;
  for (size_t k = 0; k < classes; k++) c.names.push_back(g.pick<std::string>({"road", "building", "a b c", "colors", "weights", "training=x.Tensor", "testing=", "x", "classes=9", "#comment", "car 7"}) + (g.coin() ? std::to_string(k) : ""));
  std::string head = "classes=" + std::to_string(classes) + "\n"; for (auto& n : c.names) head += n + "\n";
  { std::string s = "colors\n"; for (size_t k = 0; k < classes; k++) { unsigned v = (unsigned)g.below(1 << 24); if (alpha && g.chance(1, 4)) v |= (unsigned)g.below(256) << 24; c.colors.push_back(v); char b[32]; snprintf(b, sizeof b, g.coin() ? "0x%06X" : g.coin() ? "%x" : "0x%x", v); s += std::string(b) + "\n"; } parts.push_back(s); }
  if (g.coin()) { std::string s = "weights\n"; for (size_t k = 0; k < classes; k++) { float v = (float)g.below(65) / 16; c.weights.push_back(v); std::ostringstream w; w << v; s += w.str() + "\n"; } parts.push_back(s); } else c.weights.assign(classes, 1);
  if (train.size()) parts.push_back("training=" + train + "\n"); if (test.size()) parts.push_back("testing=" + test + "\n");
  if (g.chance(1, 3)) { c.kitti = g.chance(2, 3); parts.push_back(std::string("localized_error=") + (c.kitti ? "kitti" : "default") + "\n"); }
  if (patch && g.coin()) { c.nommap = true; parts.push_back("nommap\n"); }
  size_t noise = g.below(3); for (size_t k = 0; k < noise; k++) parts.push_back(g.pick<std::string>({"\n", "# remark\n", "# training=elsewhere\n", "other=3\n"}));
  for (size_t k = parts.size(); k > 1; k--) std::swap(parts[k - 1], parts[g.below(k)]);
  c.text = head; for (auto& p : parts) c.text += p; if (g.coin()) c.text.pop_back();
  return c;
}
template <class D> void check_conf(D& d, const DConf& c) {
  size_t n = c.names.size(); REQUIRE(d.GetClasses() == n, d.GetClasses() << " classes, expected " << n); REQUIRE(d.GetClassNames() == c.names, "class names differ from those listed"); REQUIRE(d.GetClassColors() == c.colors, "class colours differ from those listed");
  auto w = d.GetClassWeights(); REQUIRE(std::vector<float>(w.begin(), w.end()) == c.weights, "class weights differ from those listed"); REQUIRE(d.GetTask() == Conv::SEMANTIC_SEGMENTATION, "task");
}
inline std::string oneline(std::string s) { for (auto& c : s) if (c == '\n') c = '|'; return s; }

// the weighting of the KITTI road benchmark: the bird's eye view of the road ahead, seen in an image of 1226x370, counts more
inline float kitti_error(unsigned x, unsigned y, unsigned w, unsigned h) {
  auto sx = [&](float v) { return (int)(v * (float)w / 1226.0); }; auto sy = [&](float v) { return (int)(v * (float)h / 370.0); };
  int off = sx((float)std::abs(sx(613) - (int)x)), yy = (int)y; bool road = off <= 3 * (yy - sy(140)) && yy > sy(190);
  float q = yy <= sy(170) ? 7.f : (float)std::fmax(1.0, std::fmin(7.0, sy(200) / ((float)yy - sy(170)))); return (float)(0.51 * (0.25f + (road ? (float)(std::pow((double)q, 2.0) - 0.25) : 0.f)));
}
}  // namespace cn
