// C02: compressed tensors are lossless.
#include "cn.h"
#include <fcntl.h>
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static bool same_value(float a, float b) {
  if (a == b) return true;            // zeros of either sign are the same value
  return memcmp(&a, &b, 4) == 0;      // NaN: same bits
}
// content made of runs; run lengths concentrate on the encoder's limits
static float symbol(pbt::Rng& r, unsigned style) {
  uint32_t b;
  switch (style) {
    case 0: return (float)(int)r.below(3);
    case 1: b = 0; for (int i = 0; i < 4; i++) b |= (uint32_t)(r.below(2) ? 'X' : (r.below(2) ? 'Y' : (unsigned)r.below(256))) << (8 * i); break;  // control bytes
    case 2: return any_float(r);
    default: b = (r.below(4) == 0) ? 0x58585858u : (r.below(3) == 0 ? 0x59585958u : (uint32_t)r.next()); break;
  }
  float f; memcpy(&f, &b, 4); return f;
}
static size_t run_length(pbt::Rng& r, unsigned big) {
  switch (r.below(big ? 8 : 5)) {
    case 0: return 1; case 1: return 2; case 2: return 3; case 3: return 1 + r.below(6); case 4: return 1 + r.below(20);
    case 5: return 250 + r.below(12); case 6: { static const size_t k[] = {252, 253, 254, 255, 256, 257, 505, 506, 507, 508, 509, 510, 511, 512, 513}; return k[r.below(15)]; }
    default: return 1 + r.below(1200);
  }
}
static Arr gen_content(G& g, bool one_sample = false, bool* longrun = nullptr) {
  size_t s = one_sample ? 1 : 1 + g.small(0, 2), m = 1 + g.small(0, 3), w = 1 + g.small(0, 40), h = 1 + g.small(0, 40);
  if (g.chance(1, 5)) { w = 1 + g.below(12); h = 1; m = 1; s = 1; }
  else if (g.chance(1, 30)) switch (one_sample ? 1 + g.below(2) : g.below(3)) { case 0: s = 1 + g.below(60); break; case 1: m = 1 + g.below(200); w = 1 + g.below(20); break; default: w = 1 + g.below(500); h = 1 + g.below(300); m = 1; s = 1; }
  Arr a(s, w, h, m); unsigned style = (unsigned)g.below(4); unsigned big = (unsigned)g.below(2); uint64_t sd = g.below(1 << 24);
  pbt::Rng r(sd * 8 + style * 2 + big); size_t e = 0; bool lr = false;
  if (g.chance(1, 6)) { for (auto& f : a.d) f = symbol(r, style); e = a.d.size(); }
  while (e < a.d.size()) { float f = symbol(r, style); size_t n = run_length(r, big); if (n > 250) lr = true; while (n-- && e < a.d.size()) a.d[e++] = f; }
  if (longrun) *longrun = lr;
  g.label(lr ? "has run > 250" : "short runs only");
  g.label("style" + std::to_string(style));
  g.note() << " " << s << "s@" << w << "x" << h << "x" << m << " style" << style << (big ? "L" : "") << "#" << sd;
  return a;
}
static void to_tensor(const Arr& a, Tensor& t) { t.Resize(a.s, a.w, a.h, a.m); memcpy(t.data_ptr(), a.d.data(), a.d.size() * 4); }
static void require_equal(const Tensor& t, const Arr& a, const std::string& what) {
  require_shape(t, a.s, a.w, a.h, a.m, what);
  for (size_t e = 0; e < a.d.size(); e++) REQUIRE(same_value(t.data_ptr_const()[e], a.d[e]), what << ": element " << e << " of " << a.d.size() << " is " << t.data_ptr_const()[e] << ", expected " << a.d[e]);
}

FACET(compress_decompress, 8000, 200000, "content holds a run of at least three equal values or a control byte") {
  Arr a = gen_content(g); g.nontrivial();
  Tensor t; to_tensor(a, t);
  Conv::CompressedTensor c;
  if (g.chance(1, 4)) { Tensor other(1, 5, 3, 2); other.Clear(1); c.Compress(other); g.note() << " reused"; }
  c.Compress(t);
  require_equal(t, a, "source after compression");
  REQUIRE(c.samples() == a.s && c.width() == a.w && c.height() == a.h && c.maps() == a.m && c.elements() == a.d.size(), "shape of the compressed tensor");
  REQUIRE(c.compressed_length() <= 8 * a.d.size() + 2, "compressed length " << c.compressed_length() << " for " << a.d.size() << " elements");
  // serialise, restore
  std::stringstream ss; c.Serialize(ss); size_t len = ss.str().size(); ss << "tail";
  REQUIRE(len == 40 + c.compressed_length(), "serialised size " << len);
  Conv::CompressedTensor c2; c2.Deserialize(ss);
  REQUIRE((size_t)ss.tellg() == len, "position after reading is " << ss.tellg() << " of " << len);
  REQUIRE(c2.samples() == a.s && c2.width() == a.w && c2.height() == a.h && c2.maps() == a.m, "shape after restoring");
  for (int k = 0; k < 2; k++) {
    Conv::CompressedTensor& cc = k ? c2 : c;
    switch (g.below(3)) {
      case 0: { Tensor d; cc.Decompress(d); require_equal(d, a, "decompressed"); break; }
      case 1: { Tensor d(2, 3, 1, 1); d.Clear(9); cc.Decompress(d); require_equal(d, a, "decompressed over used tensor"); break; }
      default: { Tensor d; float* buf = new float[a.d.size()]; cc.Decompress(d, buf); require_equal(d, a, "decompressed to buffer"); break; }
    }
  }
}

FACET(runs_exhaustive, 3000, 60000, "every case: two to four runs with lengths around the encoder's limits") {
  // sequences of runs, every boundary combination is reachable
  static const size_t lens[] = {1, 2, 3, 4, 5, 252, 253, 254, 255, 505, 506, 507, 759, 760};
  static const float syms[] = {0.0f, 1.0f, -1.0f, 0.5f};
  size_t n = 1 + g.below(4); std::vector<float> d;
  for (size_t i = 0; i < n; i++) { size_t l = lens[g.below(14)]; float f = syms[g.below(4)]; d.insert(d.end(), l, f); g.note() << " " << l << "x" << f; }
  if (n > 1) g.nontrivial();
  Tensor t(1, d.size()); memcpy(t.data_ptr(), d.data(), d.size() * 4);
  Conv::CompressedTensor c; c.Compress(t); Tensor r; c.Decompress(r);
  REQUIRE(r.elements() == d.size(), "element count " << r.elements());
  REQUIRE(memcmp(r.data_ptr(), d.data(), d.size() * 4) == 0, "content differs");
}

FACET(streams_agree, 2500, 40000, "at least two tensors of different sizes in the streams") {
  size_t n = 1 + g.small(0, 4); std::vector<Arr> as;
  std::string fp = tmpfile(".f.Tensor"), cp = tmpfile(".c.Tensor");
  bool one = !g.chance(1, 4);
  { std::ofstream f(fp, std::ios::binary), c(cp, std::ios::binary); uint64_t magic = CN24_CTS_MAGIC; c.write((char*)&magic, 8);
    for (size_t i = 0; i < n; i++) { as.push_back(gen_content(g, one)); Tensor t; to_tensor(as[i], t); t.Serialize(f); Conv::CompressedTensor ct; ct.Compress(t); ct.Serialize(c); } }
  if (n > 1) g.nontrivial();
  std::unique_ptr<Conv::TensorStream> fs(Conv::TensorStream::FromFile(fp)), cs(Conv::TensorStream::FromFile(cp));
  REQUIRE(fs->GetTensorCount() == n && cs->GetTensorCount() == n, "tensor counts " << fs->GetTensorCount() << " and " << cs->GetTensorCount() << ", expected " << n);
  for (size_t k = 0; k < n + 3; k++) {
    size_t i = g.below(n + 1);
    REQUIRE(fs->GetSamples(i) == cs->GetSamples(i) && fs->GetWidth(i) == cs->GetWidth(i) && fs->GetHeight(i) == cs->GetHeight(i) && fs->GetMaps(i) == cs->GetMaps(i), "dimensions of tensor " << i);
    if (i == n) { Tensor a(1, 2, 2, 1); REQUIRE(!cs->CopySample(i, 0, a, 0) && !fs->CopySample(i, 0, a, 0), "index past the end accepted"); continue; }
    const Arr& a = as[i];
    size_t smp = g.below(a.s + (g.chance(1, 8) ? 1 : 0)), ts = 1 + g.below(3), tsmp = g.below(ts + (g.chance(1, 8) ? 1 : 0));
    int ew = 0, eh = 0; if (g.chance(1, 3)) { ew = (int)g.range(0, 4) - 1; eh = (int)g.range(0, 4) - 1; }
    size_t tw = a.w + ew, th = a.h + eh, tm = g.chance(1, 10) ? a.m + 1 : a.m; if (tw == 0) tw = 1; if (th == 0) th = 1;
    g.note() << " copy(" << i << "," << smp << "->" << ts << "s@" << tw << "x" << th << "x" << tm << "," << tsmp << ")";
    Tensor tf(ts, tw, th, tm), tc(ts, tw, th, tm); tf.Clear(-2.25f); tc.Clear(-2.25f);
    bool rf = fs->CopySample(i, smp, tf, tsmp), rc = cs->CopySample(i, smp, tc, tsmp);
    REQUIRE(rf == rc, "float stream " << (rf ? "accepted" : "refused") << ", compressed stream " << (rc ? "accepted" : "refused"));
    bool fits = tw >= a.w && th >= a.h && tm == a.m && smp < a.s && tsmp < ts;
    REQUIRE(rf == fits, "copy " << (rf ? "accepted" : "refused"));
    g.label(fits ? (tw == a.w && th == a.h ? "exact copy" : "padded copy") : "refused copy");
    for (size_t e = 0; e < tf.elements(); e++) REQUIRE(same_value(tf.data_ptr()[e], tc.data_ptr()[e]), "element " << e << ": " << tf.data_ptr()[e] << " in float stream, " << tc.data_ptr()[e] << " in compressed stream");
    Arr want(ts, tw, th, tm, -2.25f);
    if (fits) for (size_t m = 0; m < a.m; m++) for (size_t y = 0; y < th; y++) for (size_t x = 0; x < tw; x++) want.at(x, y, m, tsmp) = x < a.w && y < a.h ? a.at(x, y, m, smp) : 0;
    for (size_t e = 0; e < tf.elements(); e++) REQUIRE(same_value(tc.data_ptr()[e], want.d[e]), "element " << e << " is " << tc.data_ptr()[e] << ", expected " << want.d[e]);
  }
  unlink(fp.c_str()); unlink(cp.c_str());
}

FACET(mapped_sequence, 1500, 30000, "at least two compressed tensors mapped or read from one file") {
  size_t n = 1 + g.small(0, 4); std::vector<Arr> as; std::string path = tmpfile(".cmap"); size_t pos = g.below(3) * 1000;
  { std::ofstream o(path, std::ios::binary); o << std::string(pos, '.'); for (size_t i = 0; i < n; i++) { as.push_back(gen_content(g)); Tensor t; to_tensor(as[i], t); Conv::CompressedTensor c; c.Compress(t); c.Serialize(o); } }
  if (n > 1) g.nontrivial();
  std::ifstream in(path, std::ios::binary); int fd = open(path.c_str(), O_RDONLY); struct Close { int fd; ~Close() { close(fd); } } cl{fd};
  in.seekg(pos); bool reuse = g.coin(); Conv::CompressedTensor shared;
  for (size_t i = 0; i < n; i++) {
    Conv::CompressedTensor own; Conv::CompressedTensor& c = reuse ? shared : own;
    bool map = g.coin(), head = g.chance(1, 4); g.note() << (map ? " map" : " read") << (head ? " header" : "");
    if (reuse && i) g.label("reused");
    c.Deserialize(in, head, map, map ? fd : 0);
    REQUIRE(c.samples() == as[i].s && c.width() == as[i].w && c.height() == as[i].h && c.maps() == as[i].m, "shape of tensor " << i);
    pos += 40 + c.compressed_length();
    REQUIRE((size_t)in.tellg() == pos, "position after tensor " << i);
    if (!head) { Tensor t; c.Decompress(t); require_equal(t, as[i], "tensor " + std::to_string(i)); }
  }
  unlink(path.c_str());
}
