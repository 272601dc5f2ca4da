// C01: tensor files round-trip.
#include "cn.h"
#include <fcntl.h>
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static Arr gen_arr(G& g, bool allow_empty, size_t maxdim = 9) {
  size_t s = 1 + g.small(0, 4), w = 1 + g.small(0, maxdim), h = 1 + g.small(0, maxdim), m = 1 + g.small(0, 4);
  if (allow_empty && g.chance(1, 12)) { switch (g.below(4)) { case 0: s = 0; break; case 1: w = 0; break; case 2: h = 0; break; default: m = 0; } }
  else if (g.chance(1, 20)) switch (g.below(3)) { case 0: s = 1 + g.below(70); break; case 1: m = 1 + g.below(300); break; default: w = 1 + g.below(400); h = 1 + g.below(400); s = m = 1; }
  else if (g.chance(1, 10)) { w = 1 + g.below(300); h = 1 + g.below(40); }   // larger than a page
  Arr a(s, w, h, m);
  uint64_t sd = g.below(1 << 24); pbt::Rng r(sd);
  for (auto& f : a.d) f = any_float(r);
  g.note() << " " << s << "s@" << w << "x" << h << "x" << m << "#" << sd;
  return a;
}
static std::string expected_bytes(const Arr& a) {
  uint64_t hd[4] = {a.s, a.w, a.h, a.m};
  std::string b((char*)hd, 32); b.append((const char*)a.d.data(), a.d.size() * 4); return b;
}
static void to_tensor(const Arr& a, Tensor& t) {
  t.Resize(a.s, a.w, a.h, a.m);
  if (!a.d.empty()) memcpy(t.data_ptr(), a.d.data(), a.d.size() * 4);
}
static void check_read(const Tensor& t, const Arr& a, bool head_only, const std::string& what) {
  if (a.d.empty()) { REQUIRE(t.elements() == 0, what << ": empty tensor read back with " << t.elements() << " elements"); return; }
  require_shape(t, a.s, a.w, a.h, a.m, what);
  REQUIRE(t.elements() == a.d.size(), what << ": element count " << t.elements());
  if (!head_only) require_same(t, a, what);
}
// a target in some used state
static void predirty(G& g, Tensor& t, const Arr& next) {
  switch (g.below(4)) {
    case 0: break;
    case 1: t.Resize(1 + g.below(3), 1 + g.below(5), 1 + g.below(5), 1); t.Clear(42); g.note() << " [used]"; break;
    case 2: t.Resize(next.s, next.h, next.w, next.m); if (t.elements()) t.Clear(7); g.note() << " [same size]"; break;
    default: break;
  }
}

FACET(stream_sequence, 6000, 120000, "at least two tensors in the stream, or one with non-finite/negative-zero bits") {
  size_t n = 1 + g.small(0, 5);
  std::vector<Arr> as; std::string want; std::stringstream ss;
  size_t junk_before = g.chance(1, 3) ? g.below(9) : 0, junk_after = g.chance(1, 2) ? g.below(50) : 0;
  ss << std::string(junk_before, 'q'); want = std::string(junk_before, 'q');
  for (size_t i = 0; i < n; i++) {
    as.push_back(gen_arr(g, true));
    Tensor t; to_tensor(as.back(), t);
    t.Serialize(ss);
    if (!as.back().d.empty()) { want += expected_bytes(as.back()); require_same(t, as.back(), "tensor changed by being written"); }
    else want = ss.str();
    REQUIRE(ss.str() == want, "written bytes of tensor " << i << " are not header+elements");
  }
  ss << std::string(junk_after, 'z');
  if (n > 1) g.nontrivial();
  ss.seekg(junk_before);
  Tensor shared; bool reuse = g.coin(); size_t pos = junk_before; bool heads = g.coin();
  g.note() << (reuse ? " reuse" : "");
  for (size_t i = 0; i < n; i++) {
    Tensor own; Tensor& t = reuse ? shared : own;
    bool head = heads && g.chance(1, 3);
    predirty(g, t, as[i]);
    if (head) { g.note() << " head-only:" << i; g.label("head-only"); }
    t.Deserialize(ss, head);
    check_read(t, as[i], head, "tensor " + std::to_string(i) + (head ? " (head only)" : ""));
    pos += 32 + (as[i].d.size()) * 4;
    REQUIRE(!ss.fail(), "stream failed after reading tensor " << i);
    REQUIRE((size_t)ss.tellg() == pos, "position after tensor " << i << " is " << ss.tellg() << ", expected " << pos);
    // writing it again gives the same bytes
    if (!head && !as[i].d.empty()) { std::stringstream again; t.Serialize(again); REQUIRE(again.str() == expected_bytes(as[i]), "re-serialised bytes differ"); }
  }
  std::string rest(junk_after, 0); ss.read(&rest[0], junk_after);
  REQUIRE((size_t)ss.gcount() == junk_after && rest == std::string(junk_after, 'z'), "bytes after the tensors were consumed");
}

FACET(mmap_sequence, 3000, 60000, "at least two tensors mapped from one file, so that offsets inside pages differ") {
  size_t n = 1 + g.small(0, 4); std::vector<Arr> as; std::string path = tmpfile(".map");
  size_t lead = g.chance(1, 3) ? 4 * g.below(2000) : 0;
  { std::ofstream o(path, std::ios::binary); o << std::string(lead, 'p');
    for (size_t i = 0; i < n; i++) { as.push_back(gen_arr(g, true, 20)); Tensor t; to_tensor(as[i], t); t.Serialize(o); } }
  if (n > 1) g.nontrivial();
  bool heads = g.chance(1, 3); g.note() << " lead " << lead;
  std::ifstream in(path, std::ios::binary); int fd = open(path.c_str(), O_RDONLY);
  in.seekg(lead); size_t pos = lead;
  std::vector<std::unique_ptr<Tensor>> keep; bool reuse = g.coin(); std::unique_ptr<Tensor> shared(new Tensor());
  struct Close { int fd; ~Close() { close(fd); } } cl{fd};
  for (size_t i = 0; i < n; i++) {
    Tensor* t; if (reuse) t = shared.get(); else { keep.emplace_back(new Tensor()); t = keep.back().get(); }
    bool map = !g.chance(1, 4), head = heads && g.coin();
    g.note() << (map ? " map" : " read") << (head ? " header" : "");
    if (reuse && i > 0) g.label("mapped tensor reused");
    t->Deserialize(in, head, map, map ? fd : 0);
    check_read(*t, as[i], head, "tensor " + std::to_string(i));
    pos += 32 + as[i].d.size() * 4;
    REQUIRE((size_t)in.tellg() == pos, "position after tensor " << i << " is " << in.tellg() << ", expected " << pos);
    if (head || as[i].d.empty()) { as[i].d.clear(); continue; }
    if (g.chance(1, 3)) { Tensor copy(*t, true); require_same(copy, as[i], "deep copy of a mapped tensor"); }
    if (g.chance(1, 4)) { Tensor moved(std::move(*t)); require_same(moved, as[i], "move of a mapped tensor"); if (!reuse) keep.pop_back(); g.note() << " moved"; g.label("moved mapped tensor"); if (!reuse) { as[i].d.clear(); keep.emplace_back(new Tensor()); } }
  }
  // all mappings stay valid and independent
  if (!reuse) for (size_t i = 0; i < n; i++) if (!as[i].d.empty()) check_read(*keep[i], as[i], false, "tensor " + std::to_string(i) + " after reading the rest");
  unlink(path.c_str());
}

FACET(stream_file, 2500, 50000, "a stream file with at least two tensors") {
  size_t n = 1 + g.small(0, 5); std::vector<Arr> as; std::string path = tmpfile(".Tensor");
  { std::ofstream o(path, std::ios::binary);
    for (size_t i = 0; i < n; i++) { as.push_back(gen_arr(g, false, 12)); Tensor t; to_tensor(as[i], t); t.Serialize(o); } }
  if (n > 1) g.nontrivial();
  std::unique_ptr<Conv::TensorStream> st;
  if (g.coin()) st.reset(Conv::TensorStream::FromFile(path)); else { st.reset(new Conv::FloatTensorStream()); st->LoadFile(path); }
  REQUIRE(st->GetTensorCount() == n, "stream has " << st->GetTensorCount() << " tensors, " << n << " were written");
  for (size_t k = 0; k < n; k++) {
    size_t i = g.below(n); const Arr& a = as[i];
    REQUIRE(st->GetSamples(i) == a.s && st->GetWidth(i) == a.w && st->GetHeight(i) == a.h && st->GetMaps(i) == a.m, "dimensions of tensor " << i);
    size_t smp = g.below(a.s), ts = 1 + g.below(3), tsmp = g.below(ts);
    size_t ew = g.chance(1, 3) ? g.below(4) : 0, eh = g.chance(1, 3) ? g.below(4) : 0;
    Arr want(ts, a.w + ew, a.h + eh, a.m, 3.5f);
    Tensor target(ts, a.w + ew, a.h + eh, a.m); target.Clear(3.5f);
    for (size_t m = 0; m < a.m; m++) for (size_t y = 0; y < want.h; y++) for (size_t x = 0; x < want.w; x++)
      want.at(x, y, m, tsmp) = x < a.w && y < a.h ? a.at(x, y, m, smp) : 0;
    REQUIRE(st->CopySample(i, smp, target, tsmp), "copying sample " << smp << " of tensor " << i << " was refused");
    require_same(target, want, "sample copied from stream");
  }
  unlink(path.c_str());
}

FACET(named_file, 2000, 30000, "every case (writes a file and reads it back by name)") {
  Arr a = gen_arr(g, false, 12); g.nontrivial();
  std::string base; size_t len = g.below(4); for (size_t i = 0; i < len; i++) base += (char)('a' + g.below(26));
  std::string dir = scratch() + "/d" + std::to_string(getpid()); mkdir(dir.c_str(), 0755);
  std::string path = dir + "/" + base + ".Tensor"; g.note() << " file " << base << ".Tensor";
  Tensor t; to_tensor(a, t);
  t.WriteToFile(path);
  if (g.coin()) { Tensor u(path); require_same(u, a, "constructed from file"); }
  else { Tensor u; predirty(g, u, a); u.LoadFromFile(path); require_same(u, a, "loaded from file"); }
  std::ifstream in(path, std::ios::binary); std::stringstream ss; ss << in.rdbuf();
  REQUIRE(ss.str() == expected_bytes(a), "file content is not header+elements");
  unlink(path.c_str());
}
