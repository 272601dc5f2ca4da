// C29: whatever bytes a tensor file consists of, reading it breaks nothing.
#include "imageset.h"
#include "tools.h"
#include "ConvolutionLayer.h"
#include "InputLayer.h"
#include "NetGraph.h"
#include <atomic>
#include <set>
using namespace cn;
typedef unsigned __int128 u128;

// the largest block of memory asked for
static std::atomic<size_t> largest{0};
extern "C" __attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static void on_malloc(const volatile void*, size_t n) { if (n > largest) largest = n; }
static void on_free(const volatile void*) {}
void pbt::setup_process() { if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); Conv::System::Init(0); }
void pbt::setup_case() {}
static void modest(size_t before, size_t bytes) { (void)before; size_t n = largest; REQUIRE(n <= (2u << 20) + 160 * bytes, n << " bytes of memory were asked for on account of " << bytes << " bytes"); }

static Arr gen_small(G& g) { Arr a(1 + g.below(3), 1 + g.below(g.chance(1, 12) ? 60 : 8), 1 + g.below(g.chance(1, 12) ? 40 : 8), 1 + g.below(3)); pbt::Rng r(g.below(1 << 20)); unsigned kind = (unsigned)g.below(3); float last = 0; for (auto& x : a.d) { if (kind == 0) x = any_float(r); else if (kind == 1) x = last = r.below(6) ? last : (float)r.below(3); else x = 0; } return a; }
static void put64(std::string& s, uint64_t v) { s.append((char*)&v, 8); }
static uint64_t get64(const std::string& s, size_t at) { uint64_t v; memcpy(&v, s.data() + at, 8); return v; }
static std::string plain(const Arr& a) { std::string s; for (size_t v : {a.s, a.w, a.h, a.m}) put64(s, v); s.append((const char*)a.d.data(), a.d.size() * 4); return s; }
// any encoding of these bytes that the format allows
static std::string encode(G& g, const Arr& a) {
  std::string raw((const char*)a.d.data(), a.d.size() * 4), o; uint64_t seed = g.below(1 << 20); pbt::Rng r(seed); unsigned odd = (unsigned)g.below(3);
  for (size_t p = 0; p < raw.size();) {
    size_t n = 0; if (p + 4 <= raw.size()) while (n < 255 && p + 4 * (n + 1) <= raw.size() && !raw.compare(p + 4 * n, 4, raw, p, 4)) n++;
    if (n >= 3 || (n && odd && !r.below(3))) { if (odd == 2 && n > 1) n = 1 + r.below(n); o += "XY"; o += (char)n; o.append(raw, p, 4); p += 4 * n; continue; }
    if (odd == 2 && !r.below(9)) { o += "XY"; o += (char)0; for (int k = 0; k < 4; k++) o += (char)r.below(256); }  // a run of nothing
    size_t lit = odd == 2 ? 1 : 4; for (size_t k = 0; k < lit && p < raw.size(); k++, p++) { o += raw[p]; if (raw[p] == 'X') o += 'X'; }
  }
  return o;
}
static std::string packed(G& g, const Arr& a) {
  std::string s, c; if (g.coin()) { Tensor t(a.s, a.w, a.h, a.m); memcpy(t.data_ptr(), a.d.data(), a.d.size() * 4); Conv::CompressedTensor q; q.Compress(t); std::ostringstream o; q.Serialize(o); return o.str(); }
  c = encode(g, a); for (size_t v : {a.s, a.w, a.h, a.m, c.size()}) put64(s, v); return s + c;
}
// what the format says: sizes which the rest cannot hold are an error, a tensor without elements ends the list
struct Piece { uint64_t d[4]; size_t at, len; bool ok = false; std::vector<float> v; };  // ok: its contents can be decoded
static bool decode(const std::string& f, size_t at, size_t len, size_t bytes, std::vector<float>& out) {
  std::string o; size_t e = at + len;
  for (size_t p = at; p < e && o.size() <= bytes;) { if (f[p] != 'X') { o += f[p++]; continue; } if (p + 1 >= e) return false; if (f[p + 1] == 'X') { o += 'X'; p += 2; continue; } if (f[p + 1] != 'Y' || e - p < 7) return false; for (unsigned n = (unsigned char)f[p + 2]; n > 0; n--) o.append(f, p + 3, 4); p += 7; }
  if (o.size() != bytes) return false; out.resize(bytes / 4); memcpy(out.data(), o.data(), bytes); return true;
}
struct File { std::vector<Piece> v; bool damaged = false, stopped = false; };
static File parse(const std::string& f, bool comp) {
  File r; size_t p = 0; if (comp) { if (f.size() < 8 || get64(f, 0) != CN24_CTS_MAGIC) { r.damaged = true; return r; } p = 8; }
  size_t head = comp ? 40 : 32;
  while (p < f.size()) {
    if (f.size() - p < head) { r.damaged = true; return r; } Piece q; for (int k = 0; k < 4; k++) q.d[k] = get64(f, p + 8 * k); u128 n = 1; bool zero = false, over = false; for (uint64_t d : q.d) { if (!d) zero = true; } for (uint64_t d : q.d) if (!zero) { if (n > ((u128)1 << 62) / d) { over = true; break; } n *= d; } q.at = p + head; size_t left = f.size() - q.at; uint64_t len = comp ? get64(f, p + 32) : 0;
    if (comp) { if (len == 0) { r.stopped = true; return r; } if (len > left || (!zero && (over || n > ((u128)len / 7 + 1) * 255))) { r.damaged = true; return r; } if (zero) { r.stopped = true; return r; } q.len = len; q.ok = decode(f, q.at, q.len, (size_t)n * 4, q.v); }
    else { if (zero) { r.stopped = true; return r; } if (over || n > left / 4) { r.damaged = true; return r; } q.len = (size_t)n * 4; q.v.resize((size_t)n); memcpy(q.v.data(), f.data() + q.at, q.len); q.ok = true; }
    p = q.at + q.len; r.v.push_back(q);
  }
  return r;
}
// damage
static uint64_t gen_size(G& g, uint64_t was) {
  switch (g.below(9)) { case 0: return was + 1; case 1: return was - 1; case 2: return 0; case 3: return (uint64_t)1 << g.below(64); case 4: return ((uint64_t)1 << g.below(64)) - 1; case 5: return was + ((uint64_t)1 << (16 + g.below(48))); case 6: return was * 2; case 7: return g.below(300); default: return ~(uint64_t)0 - g.below(3); }
}
static void damage(G& g, std::string& f, const std::vector<size_t>& heads, size_t fields, std::ostringstream& note) {
  size_t k = 1 + g.small(0, 3);
  for (size_t q = 0; q < k && !f.empty(); q++) switch (g.below(9)) {
    case 0: case 1: { size_t h = heads[g.below(heads.size())] + 8 * g.below(fields); if (h + 8 > f.size()) break; uint64_t v = gen_size(g, get64(f, h)); memcpy(&f[h], &v, 8); note << " size at " << h << "=" << v; break; }
    case 2: { size_t h = heads[g.below(heads.size())]; if (h + 32 > f.size()) break; unsigned a = (unsigned)g.below(4), b = (a + 1 + (unsigned)g.below(3)) % 4, e = 1 + (unsigned)g.below(63); uint64_t x = get64(f, h + 8 * a) << e, y = (uint64_t)1 << (64 - e); if (g.coin()) y |= get64(f, h + 8 * b); memcpy(&f[h + 8 * a], &x, 8); memcpy(&f[h + 8 * b], &y, 8); note << " sizes at " << h << " whose product overflows"; break; }
    case 3: { size_t at = g.below(f.size()); f[at] ^= (char)(1 << g.below(8)); note << " bit at " << at; break; }
    case 4: { size_t at = g.below(f.size()); f[at] = g.pick<char>({'X', 'Y', 0, (char)255, 1}); note << " byte at " << at; break; }
    case 5: { size_t at = g.below(f.size()), n = 1 + g.below(std::min<size_t>(f.size() - at, 20)); f.erase(at, n); note << " without " << n << " at " << at; break; }
    case 6: { size_t at = g.below(f.size() + 1), n = 1 + g.below(12); std::string s; for (size_t e = 0; e < n; e++) s += g.coin() ? 'X' : (char)g.below(256); f.insert(at, s); note << " " << n << " more at " << at; break; }
    case 7: { size_t at = f.size() - std::min<size_t>(f.size(), 1 + g.below(8)); f.resize(at); note << " cut to " << at; break; }
    default: { size_t at = g.below(f.size()), n = std::min<size_t>(f.size() - at, 1 + g.below(60)), from = g.below(f.size() - n + 1); f.replace(at, n, f.substr(from, n)); note << " " << n << " from " << from << " to " << at; break; }
  }
}
// a file of several tensors, damaged or not
static std::string gen_file(G& g, bool comp, size_t maxn, std::vector<size_t>& heads) {
  std::string f; if (comp) put64(f, CN24_CTS_MAGIC); size_t n = g.below(maxn + 1); for (size_t k = 0; k < n; k++) { heads.push_back(f.size()); Arr a = gen_small(g); f += comp ? packed(g, a) : plain(a); } if (heads.empty()) heads.push_back(f.size());
  if (g.chance(1, 20)) { f.clear(); size_t b = g.below(200); if (comp && g.coin()) put64(f, CN24_CTS_MAGIC); for (size_t k = 0; k < b; k++) f += (char)(g.chance(2, 3) ? 0 : g.below(256)); }
  return f;
}
template <class F> static bool refused(F f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
static void sum_up(Tensor& t) { volatile float s = 0; REQUIRE(t.elements() == t.samples() * t.width() * t.height() * t.maps(), "a tensor whose size is not its number of elements"); for (size_t e = 0; e < t.elements(); e++) s = s + t[e]; }
struct Quiet { std::ostringstream err; std::streambuf* old; Quiet() : old(std::cerr.rdbuf(err.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(old); } };

// streams of tensors, as data sets are stored
FACET(stream, 8000, 120000, "some of the tensors can be decoded and the file is damaged") {
  bool comp = g.coin(); std::vector<size_t> heads; std::string f = gen_file(g, comp, 4, heads); std::ostringstream note; if (g.chance(7, 8)) damage(g, f, heads, comp ? 5 : 4, note); File want = parse(f, comp); size_t good = 0, bad = 0; for (auto& q : want.v) (q.ok ? good : bad)++; if (good && (bad || want.damaged)) g.nontrivial();
  g.note() << (comp ? "compressed, " : "") << f.size() << " bytes," << note.str(); g.label(want.damaged ? "refused" : bad ? "contents damaged" : want.stopped ? "ends early" : "whole"); std::string p = tmpfile("s"); write_file(p, f); FdGuard fd; Quiet quiet; std::unique_ptr<Conv::TensorStream> s; if (comp) s.reset(new Conv::CompressedTensorStream()); else s.reset(new Conv::FloatTensorStream());
  largest = 0; bool r = refused([&] { s->LoadFile(p); }); modest(0, f.size()); unlink(p.c_str()); REQUIRE(r == want.damaged, (r ? "a file which can be read was refused" : "a file whose sizes are wrong was read")); if (r) return;
  REQUIRE(s->GetTensorCount() == want.v.size(), s->GetTensorCount() << " tensors, expected " << want.v.size()); size_t steps = want.v.size() ? 1 + g.below(2 * want.v.size()) : 0;
  for (size_t k = 0; k < want.v.size(); k++) REQUIRE(s->GetSamples((unsigned)k) == want.v[k].d[0] && s->GetWidth((unsigned)k) == want.v[k].d[1] && s->GetHeight((unsigned)k) == want.v[k].d[2] && s->GetMaps((unsigned)k) == want.v[k].d[3], "size of tensor " << k);
  for (size_t q = 0; q < steps; q++) {
    size_t k = g.below(want.v.size()); Piece& w = want.v[k]; size_t smp = g.below(w.d[0]), slots = 1 + g.below(2), slot = g.below(slots), wx = w.d[1], hx = w.d[2]; if (g.chance(1, 3)) { wx += 1 + g.below(3); hx += g.below(3); } if (wx * hx * w.d[3] > 100000) continue; Tensor t(slots, wx, hx, w.d[3]); t.Clear(-77); bool ok = false, no = refused([&] { ok = s->CopySample((unsigned)k, smp, t, slot); }); g.note() << " " << k << "." << smp;
    REQUIRE(no || ok, "sample " << smp << " of tensor " << k << " refused"); REQUIRE(no == !w.ok, (no ? "contents which can be decoded were refused" : "contents which cannot be decoded were delivered")); size_t n = wx * hx * w.d[3]; for (size_t e = 0; e < slots * n; e++) if (e / n != slot) REQUIRE(t[e] == -77, "another sample was changed"); if (no) continue;
    for (size_t m = 0; m < w.d[3]; m++) for (size_t y = 0; y < hx; y++) for (size_t x = 0; x < wx; x++) { float z = x < w.d[1] && y < w.d[2] ? w.v[((smp * w.d[3] + m) * w.d[2] + y) * w.d[1] + x] : 0, got = *t.data_ptr(x, y, m, slot); REQUIRE(same_bits(&z, &got, 1), "tensor " << k << " sample " << smp << " (" << x << "," << y << "," << m << ") is " << got << ", expected " << z); }
  }
}
// single tensors out of any stream of bytes
FACET(tensor, 8000, 120000, "the file is damaged") {
  std::vector<size_t> heads; std::string f = gen_file(g, false, 2, heads); std::ostringstream note; if (g.chance(7, 8)) damage(g, f, heads, 4, note); File want = parse(f, false); if (want.damaged) g.nontrivial(); int how = (int)g.below(4); g.note() << (how == 3 ? "named " : how == 2 ? "mapped " : how ? "header " : "") << f.size() << " bytes," << note.str(); Quiet quiet; FdGuard fd; Tensor t; if (g.coin()) { t.Resize(1, 3, 2, 2); t.Clear(4); }
  std::string p = tmpfile(".Tensor"); write_file(p, f); std::ifstream in(p, std::ios::binary); int h = how == 2 ? open(p.c_str(), O_RDONLY) : 0; size_t k = 0; bool r = false; largest = 0;
  if (how == 3) { r = refused([&] { t.LoadFromFile(p); }); if (want.v.empty() && !want.damaged) { unlink(p.c_str()); return; } REQUIRE(r == want.v.empty(), (r ? "a complete tensor was refused" : "a damaged tensor was loaded")); k = 1; }
  else for (; in.peek() != EOF && !in.fail();) { t.Deserialize(in, how == 1, how == 2, h); modest(0, f.size()); if (in.fail()) { r = true; sum_up(t); break; } if (!t.elements()) break; REQUIRE(k < want.v.size(), "a damaged tensor was read"); if (how != 1) { Piece& w = want.v[k]; REQUIRE(t.samples() == w.d[0] && t.width() == w.d[1] && t.height() == w.d[2] && t.maps() == w.d[3] && same_bits(t.data_ptr_const(), w.v.data(), w.v.size()), "tensor " << k << " differs"); } k++; }
  if (how != 3) { REQUIRE(r == want.damaged, (r ? "a tensor which can be read was refused" : "a damaged tensor was not reported")); REQUIRE(k == want.v.size(), k << " tensors, expected " << want.v.size()); } modest(0, f.size()); sum_up(t); if (h) close(h); unlink(p.c_str()); t.Resize(1, t.elements() + 5, 1, 2); t.Clear(1); sum_up(t);  // (a mapped tensor is read-only until it gets another size)
}
// compressed tensors
FACET(compressed, 10000, 150000, "the contents cannot be decoded") {
  std::vector<size_t> heads; Arr a = gen_small(g); std::string f = packed(g, a); std::ostringstream note; heads.push_back(0); if (g.coin()) { size_t k = 1 + g.below(4); for (size_t q = 0; q < k && f.size() > 40; q++) { size_t at = 40 + g.below(f.size() - 40); f[at] = g.pick<char>({'X', 'X', 'Y', 0, (char)255, 1, (char)g.below(256)}); note << " byte at " << at; } } else if (g.chance(3, 4)) damage(g, f, heads, 5, note); std::string m; put64(m, CN24_CTS_MAGIC); File want = parse(m + f, true); if (want.v.size() && !want.v[0].ok) g.nontrivial();
  g.note() << f.size() << " bytes," << note.str(); g.label(want.damaged && want.v.empty() ? "refused" : want.v.empty() ? "empty" : want.v[0].ok ? "whole" : "contents damaged"); bool map = g.coin(); Quiet quiet; FdGuard fd; Conv::CompressedTensor c; if (g.chance(1, 4)) { Tensor u(1, 2, 2, 1); u.Clear(); c.Compress(u); } std::string p = tmpfile("c"); write_file(p, f); std::ifstream in(p, std::ios::binary); int h = map ? open(p.c_str(), O_RDONLY) : 0; largest = 0; c.Deserialize(in, false, map, h); modest(0, f.size()); unlink(p.c_str());
  bool fail = in.fail(); REQUIRE(fail == (want.v.empty() && (want.damaged || f.size() < 40)), (fail ? "a tensor which can be read was refused" : "a damaged tensor was not reported")); if (want.v.empty()) { REQUIRE(fail || c.elements() == 0, "a tensor without contents has " << c.elements() << " elements"); if (h) close(h); return; }
  for (int q = 0; q < 2; q++) { Tensor t; if (g.coin()) { t.Resize(1, 5, 1, 2); t.Clear(3); } size_t n = t.elements(); bool no = refused([&] { c.Decompress(t); }); REQUIRE(no == !want.v[0].ok, (no ? "contents which can be decoded were refused" : "contents which cannot be decoded were delivered")); if (no) { REQUIRE(t.elements() == n, "a refused tensor changed the target"); sum_up(t); } else { Piece& w = want.v[0]; REQUIRE(t.samples() == w.d[0] && t.width() == w.d[1] && t.height() == w.d[2] && t.maps() == w.d[3], "size"); REQUIRE(same_bits(t.data_ptr_const(), w.v.data(), w.v.size()), "contents differ"); } }
  std::ostringstream again; c.Serialize(again); REQUIRE(again.str() == f.substr(0, 40 + want.v[0].len), "writing it again gives another file"); if (h) close(h);
}
// models
FACET(model, 4000, 60000, "some parameter sets are loaded and others are not") {
  Conv::NetGraph gr; size_t layers = 1 + g.below(4), w = 6 + g.below(5); Tensor data(1, w, w, 2); data.Clear(); auto* in = new Conv::NetGraphNode(new Conv::InputLayer(data)); in->is_input = true; gr.AddNode(in); Conv::NetGraphNode* last = in; struct Del { Conv::NetGraph& g; ~Del() { std::vector<Conv::NetGraphNode*> all = g.GetNodes(); std::set<CombinedTensor*> t; for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor); for (auto* n : all) { delete n->layer; delete n; } for (auto* c : t) delete c; } } del{gr};
  for (size_t k = 0; k < layers; k++) { size_t m = 1 + g.below(3); auto* c = new Conv::NetGraphNode(new Conv::ConvolutionLayer(1 + g.below(2), 1 + g.below(2), (unsigned)m, 1, 1, 0, 0, 1, 7 + k, 0), Conv::NetGraphConnection(last, 0, true)); if (k + 1 == layers) c->is_output = true; gr.AddNode(c); last = c; } gr.Initialize(); gr.InitializeWeights();
  CTV ps; gr.GetParameters(ps); std::vector<std::vector<float>> exp; std::string f; std::vector<size_t> heads; pbt::Rng r(g.below(1 << 20)); std::ostringstream note;
  for (auto* q : ps) { Arr s(q->data.samples(), q->data.width(), q->data.height(), q->data.maps()); for (auto& x : s.d) x = (float)r.below(4096) / 64 - 100; heads.push_back(f.size()); f += plain(s); std::vector<float> now; for (size_t e = 0; e < q->data.elements(); e++) { q->data[e] = (float)r.below(4096) / 64; now.push_back(q->data[e]); } exp.push_back(now); }
  damage(g, f, heads, 4, note); size_t p = 0, got = 0; bool bad = false; for (size_t k = 0; k < ps.size() && p < f.size(); k++) { if (f.size() - p < 32) { bad = true; break; } u128 n = 1; bool zero = false; for (int q = 0; q < 4; q++) zero |= !get64(f, p + 8 * q); if (zero) n = 0; else for (int q = 0; q < 4 && n < ((u128)1 << 62); q++) { uint64_t d = get64(f, p + 8 * q); n = n > ((u128)1 << 62) / d ? (u128)1 << 62 : n * d; } p += 32; if (n > (f.size() - p) / 4) { bad = true; break; } if (n == exp[k].size()) { memcpy(exp[k].data(), f.data() + p, (size_t)n * 4); got++; } p += (size_t)n * 4; }
  g.note() << ps.size() << " parameter sets, " << f.size() << " bytes," << note.str(); if (got && got < ps.size()) g.nontrivial(); std::istringstream file(f); Quiet quiet; largest = 0; bool threw = refused([&] { gr.DeserializeParameters(file); }); modest(0, f.size()); if (bad) REQUIRE(threw || !quiet.err.str().empty(), "a damaged model was loaded without remark");
  for (size_t k = 0; k < ps.size(); k++) { REQUIRE(ps[k]->data.elements() == exp[k].size(), "parameter set " << k << " changed its size"); for (size_t e = 0; e < exp[k].size(); e++) { float v = ps[k]->data[e]; REQUIRE(same_bits(&v, &exp[k][e], 1), "parameter set " << k << " element " << e << " is " << v << ", expected " << exp[k][e]); } }
}
// the tools that read such files
static void unbroken(const Ran& r, const std::string& tool) { require_refused(r, tool); REQUIRE(r.out.find("allocat") == std::string::npos, tool << " breaks: " << r.tail()); }
FACET(tools, 250, 4000, "some tensors are in order and the file is damaged") {
  std::vector<size_t> heads; std::string f = gen_file(g, false, 4, heads); std::ostringstream note; if (g.chance(7, 8)) damage(g, f, heads, 4, note); File want = parse(f, false); if (want.damaged && want.v.size()) g.nontrivial(); Dir d("d"); write_file(d / "in", f); int which = (int)g.below(3); std::string tool = which == 0 ? "compressTensorStream" : which == 1 ? "tensorStreamTool" : "tensorTool"; g.note() << tool << " " << f.size() << " bytes," << note.str(); g.label(tool); size_t keep = g.below(5);
  Ran r = which == 0 ? run_tool(tool, {d / "in", d / "out"}, d.path) : which == 1 ? run_tool(tool, {d / "in", std::to_string(keep)}, d.path) : run_tool(tool, {d / "in"}, d.path, "q\n"); unbroken(r, tool);
  if (which == 2) { if (!want.v.empty()) require_ok(r, tool); else if (want.damaged) REQUIRE(r.code != 0 || r.out.find("ERR") != std::string::npos, "a damaged tensor was opened without remark: " << r.tail()); return; }
  if (want.stopped) return; REQUIRE((r.code != 0) == want.damaged, tool << " ends with " << r.code << " on a file that is " << (want.damaged ? "damaged: " : "in order: ") << r.tail()); if (want.damaged) { REQUIRE(read_file(d / "in") == f, "the damaged file was changed"); return; }
  if (which == 1) { size_t end = 0; for (size_t k = 0; k < want.v.size() && k < keep; k++) end = want.v[k].at + want.v[k].len; REQUIRE(read_file(d / "in") == f.substr(0, end), "the file does not hold the tensors asked for"); return; }
  File got = parse(read_file(d / "out"), true); REQUIRE(!got.damaged && got.v.size() == want.v.size(), "the compressed stream holds " << got.v.size() << " tensors, expected " << want.v.size()); for (size_t k = 0; k < got.v.size(); k++) { REQUIRE(got.v[k].ok && !memcmp(got.v[k].d, want.v[k].d, 32), "tensor " << k << " of the compressed stream"); for (size_t e = 0; e < want.v[k].v.size(); e++) REQUIRE(same_bits(&got.v[k].v[e], &want.v[k].v[e], 1) || (got.v[k].v[e] == 0 && want.v[k].v[e] == 0), "element " << e << " of tensor " << k); }
}
