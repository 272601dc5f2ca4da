// Helpers shared by the property files: generators for tensors, comparison
// with tolerances, scratch files, plain reference tensors.
#pragma once
#include "pbt.h"
#include <cn24.h>
#include <cassert>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <unistd.h>
#include <sys/stat.h>

using Conv::Tensor; using Conv::CombinedTensor; using Conv::datum;
using pbt::G;
typedef std::vector<CombinedTensor*> CTV;

namespace cn {

inline std::string scratch() { const char* s = getenv("PBT_SCRATCH"); return s ? s : "/tmp"; }
// a path private to this process; removed with the scratch directory
inline std::string tmpfile(const std::string& suffix) { return scratch() + "/f" + std::to_string(getpid()) + suffix; }

// a size of 1..usual, now and then of up to most
inline size_t upto(G& g, size_t usual, size_t most) { return g.chance(1, 16) ? 1 + (size_t)g.below(most) : 1 + (size_t)g.below(usual); }

// ---- value generation ------------------------------------------------------
// kinds: 0 zeros, 1 small integers, 2 multiples of 1/8 in [-2,2], 3 uniform
// [-1,1], 4 uniform [-1,1] with big magnitudes, 5 positive uniform
struct Vals { unsigned kind; uint64_t seed; };
inline Vals gen_vals(G& g, unsigned maxkind = 3) { Vals v; v.kind = (unsigned)g.below(maxkind + 1); v.seed = g.below(1 << 20); return v; }
inline float val(pbt::Rng& r, unsigned kind) {
  switch (kind) {
    case 0: return 0;
    case 1: return (float)((int)r.below(7) - 3);
    case 2: return (float)((int)r.below(33) - 16) / 8.0f;
    case 3: return (float)(2 * r.unit() - 1);
    case 4: return (float)((2 * r.unit() - 1) * std::pow(10.0, (double)((int)r.below(9) - 4)));
    default: return (float)r.unit();
  }
}
inline void fill(Tensor& t, Vals v) { pbt::Rng r(v.seed * 77 + v.kind); for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = val(r, v.kind); }
// bit patterns: everything a float can be
inline float any_float(pbt::Rng& r) {
  uint32_t b;
  switch (r.below(8)) {
    case 0: b = 0; break;
    case 1: b = 0x80000000u; break;
    case 2: { static const uint32_t sp[] = {0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 0xffc12345u, 1u, 0x80000001u, 0x7f7fffffu, 0x00800000u}; b = sp[r.below(9)]; break; }
    case 3: { float f = (float)(int)r.below(5) - 2; memcpy(&b, &f, 4); break; }
    default: b = (uint32_t)r.next();
  }
  float f; memcpy(&f, &b, 4); return f;
}
inline std::string shape(const Tensor& t) { std::ostringstream o; o << t.samples() << "s@" << t.width() << "x" << t.height() << "x" << t.maps() << "m"; return o.str(); }
inline std::ostream& operator<<(std::ostream& o, const Vals& v) { return o << "vals" << v.kind << "#" << v.seed; }

// ---- independent 4-D reference array ----------------------------------------
struct Arr {
  size_t s = 0, w = 0, h = 0, m = 0; std::vector<float> d;
  Arr() {}
  Arr(size_t s_, size_t w_, size_t h_, size_t m_, float v = 0) : s(s_), w(w_), h(h_), m(m_), d(s_ * w_ * h_ * m_, v) {}
  explicit Arr(const Tensor& t) : s(t.samples()), w(t.width()), h(t.height()), m(t.maps()), d(t.data_ptr_const(), t.data_ptr_const() + t.elements()) {}
  float& at(size_t x, size_t y, size_t mm, size_t ss) { return d[((ss * m + mm) * h + y) * w + x]; }
  float at(size_t x, size_t y, size_t mm, size_t ss) const { return d[((ss * m + mm) * h + y) * w + x]; }
};
inline bool same_bits(const float* a, const float* b, size_t n) { return n == 0 || memcmp(a, b, n * 4) == 0; }
inline void require_shape(const Tensor& t, size_t s, size_t w, size_t h, size_t m, const std::string& what) {
  REQUIRE(t.samples() == s && t.width() == w && t.height() == h && t.maps() == m,
          what << ": shape is " << shape(t) << ", expected " << s << "s@" << w << "x" << h << "x" << m << "m");
}
inline void require_same(const Tensor& t, const Arr& a, const std::string& what) {
  require_shape(t, a.s, a.w, a.h, a.m, what);
  for (size_t e = 0; e < a.d.size(); e++)
    REQUIRE(memcmp(&t.data_ptr_const()[e], &a.d[e], 4) == 0, what << ": element " << e << " is " << t.data_ptr_const()[e] << ", expected " << a.d[e]);
}
// |got-want| <= atol + rtol*scale
inline void require_close(double got, double want, double tol, const std::string& what) {
  REQUIRE(std::fabs(got - want) <= tol, what << ": got " << got << ", expected " << want << " (tolerance " << tol << ")");
}

// ---- layer driving -----------------------------------------------------------
// inputs and outputs of a single layer
struct Rig {
  std::unique_ptr<Conv::Layer> layer; std::vector<std::unique_ptr<CombinedTensor>> in, out; CTV ins, outs; Conv::NetStatus status;
  void add(size_t s, size_t w, size_t h, size_t m) { in.emplace_back(new CombinedTensor(s, w, h, m)); ins.push_back(in.back().get()); in.back()->data.Clear(); in.back()->delta.Clear(); }
  bool create() { bool r = layer->CreateOutputs(ins, outs); for (auto* o : outs) { out.emplace_back(o); o->data.Clear(); o->delta.Clear(); } return r; }
  bool connect() { return layer->Connect(ins, outs, &status); }
};

}  // namespace cn
