// Reference semantics of the layers, in double precision and written from the
// layers' definitions, and a generator of valid layer configurations.
#pragma once
#include "cn.h"
#include "ConvolutionLayer.h"
#include "MaxPoolingLayer.h"
#include "AdvancedMaxPoolingLayer.h"
#include "LocalResponseNormalizationLayer.h"
#include "NonLinearityLayer.h"
#include "ResizeLayer.h"
#include "UpscaleLayer.h"
#include "InputDownSamplingLayer.h"
#include "ConcatenationLayer.h"
#include "SumLayer.h"
#include "SpatialPriorLayer.h"
#include "GradientAccumulationLayer.h"
#include "HMaxActivationFunction.h"
#include "LayerFactory.h"

namespace cn {

struct Dim { size_t s, w, h, m; size_t n() const { return s * w * h * m; } };
inline bool operator==(const Dim& a, const Dim& b) { return a.s == b.s && a.w == b.w && a.h == b.h && a.m == b.m; }
inline std::ostream& operator<<(std::ostream& o, const Dim& d) { return o << d.s << "s@" << d.w << "x" << d.h << "x" << d.m << "m"; }
inline Dim dim(const Tensor& t) { return Dim{t.samples(), t.width(), t.height(), t.maps()}; }

struct DA : Dim {  // double array
  std::vector<double> d;
  DA() : Dim{0, 0, 0, 0} {}
  explicit DA(Dim q, double v = 0) : Dim(q), d(q.n(), v) {}
  explicit DA(const Tensor& t) : Dim(dim(t)), d(t.data_ptr_const(), t.data_ptr_const() + t.elements()) {}
  double& at(size_t x, size_t y, size_t mm, size_t ss) { return d[((ss * m + mm) * h + y) * w + x]; }
  double at(size_t x, size_t y, size_t mm, size_t ss) const { return d[((ss * m + mm) * h + y) * w + x]; }
};
typedef std::vector<DA> DAs;

struct LSpec {
  std::string desc, kind; std::vector<Dim> in, out, par;
  std::function<DAs(const DAs& in, const DAs& par)> f;
  std::function<Conv::Layer*()> make;
  bool grad = true;    // supports back-propagation
  bool linear = false; // f(|in|,|par|) bounds the magnitude of the summands
  double ulps = 8;     // tolerance in units of float rounding
};

inline Dim gen_dim(G& g, size_t lim = 8, size_t smax = 3, size_t mmax = 4) {
  size_t s = smax, w = lim, h = lim, m = mmax;  // now and then one of them is well beyond the usual
  switch (g.below(24)) { case 20: s = 6 * smax; break; case 21: w = 6 * lim; break; case 22: h = 6 * lim; break; case 23: m = 6 * mmax; break; }
  return Dim{1 + (size_t)g.small(0, s - 1), 1 + (size_t)g.small(0, w - 1), 1 + (size_t)g.small(0, h - 1), 1 + (size_t)g.small(0, m - 1)};
}

template <class F> LSpec elementwise(const char* kind, Dim d, F fn, std::function<Conv::Layer*()> mk) {
  LSpec l; l.kind = l.desc = kind; l.in = {d}; l.out = {d}; l.make = mk;
  l.f = [fn](const DAs& in, const DAs&) { DAs o{in[0]}; for (auto& v : o[0].d) v = fn(v); return o; };
  return l;
}

inline std::function<DAs(const DAs&, const DAs&)> ref_conv(size_t kw, size_t kh, size_t sw, size_t sh, size_t pw, size_t ph, size_t gr, size_t om) {
  return [=](const DAs& in, const DAs& par) {
    const DA& x = in[0]; const DA& wt = par[0]; size_t ci = x.m / gr, co = om / gr, ow = (x.w + 2 * pw - kw) / sw + 1, oh = (x.h + 2 * ph - kh) / sh + 1; DA o(Dim{x.s, ow, oh, om});
    for (size_t s = 0; s < x.s; s++) for (size_t m = 0; m < om; m++) for (size_t oy = 0; oy < oh; oy++) for (size_t ox = 0; ox < ow; ox++) {
      double v = par[1].d[m]; size_t base = (m / co) * ci;
      for (size_t c2 = 0; c2 < ci; c2++) for (size_t ky = 0; ky < kh; ky++) for (size_t kx = 0; kx < kw; kx++) {
        long ix = (long)(ox * sw + kx) - (long)pw, iy = (long)(oy * sh + ky) - (long)ph;
        if (ix < 0 || iy < 0 || ix >= (long)x.w || iy >= (long)x.h) continue;
        v += x.at(ix, iy, base + c2, s) * wt.at(kx, ky, c2, m);
      }
      o.at(ox, oy, m, s) = v;
    }
    return DAs{o};
  };
}
inline LSpec spec_conv(G& g, Dim d, bool small_maps = false) {
  LSpec l; l.kind = "conv"; l.in = {d};
  size_t pw = g.chance(1, 3) ? g.below(3) : 0, ph = g.chance(1, 3) ? g.below(3) : 0;
  size_t kw = 1 + g.below(std::min<size_t>(4, d.w + 2 * pw)), kh = 1 + g.below(std::min<size_t>(4, d.h + 2 * ph)), sw = 1 + g.small(0, 2), sh = 1 + g.small(0, 2);
  if (g.chance(1, 3)) { sw = sh = 1; }
  std::vector<size_t> groups; for (size_t q = 1; q <= d.m; q++) if (d.m % q == 0) groups.push_back(q);
  size_t gr = g.coin() ? 1 : g.pick(groups); size_t om = gr * (1 + g.small(0, small_maps ? 1 : 3));
  size_t ow = (d.w + 2 * pw - kw) / sw + 1, oh = (d.h + 2 * ph - kh) / sh + 1;
  l.out = {Dim{d.s, ow, oh, om}}; l.par = {Dim{om, kw, kh, d.m / gr}, Dim{1, om, 1, 1}};
  bool str = g.coin(); int seed = (int)g.below(1000) + 1;
  std::ostringstream cfg; cfg << "convolution(size=" << kw << "x" << kh << " kernels=" << om;
  if (sw != 1 || sh != 1 || g.coin()) cfg << " stride=" << sw << "x" << sh; if (pw || ph || g.coin()) cfg << " pad=" << pw << "x" << ph; if (gr != 1 || g.coin()) cfg << " group=" << gr; cfg << " seed=" << seed << ")";
  l.desc = (str ? "" : "new ") + cfg.str(); std::string c = cfg.str();
  l.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(c); return new Conv::ConvolutionLayer(kw, kh, om, sw, sh, pw, ph, gr, seed, 0.0); };
  l.linear = true; l.ulps = 4 + kw * kh * d.m / gr;
  l.f = ref_conv(kw, kh, sw, sh, pw, ph, gr, om);
  return l;
}

inline std::function<DAs(const DAs&, const DAs&)> ref_pool(Dim out, size_t rw, size_t rh, size_t sw, size_t sh) {
  return [=](const DAs& in, const DAs&) {
    DA o(Dim{in[0].s, out.w, out.h, in[0].m});
    for (size_t s = 0; s < o.s; s++) for (size_t m = 0; m < o.m; m++) for (size_t oy = 0; oy < o.h; oy++) for (size_t ox = 0; ox < o.w; ox++) {
      double v = -INFINITY; for (size_t ky = 0; ky < rh; ky++) for (size_t kx = 0; kx < rw; kx++) v = std::max(v, in[0].at(ox * sw + kx, oy * sh + ky, m, s));
      o.at(ox, oy, m, s) = v;
    }
    return DAs{o};
  };
}
inline size_t gen_divisor(G& g, size_t n) { std::vector<size_t> v; for (size_t q = 1; q <= n && q <= 6; q++) if (n % q == 0) v.push_back(q); return v[v.size() - 1 - g.below(v.size())]; }

inline LSpec spec_maxpool(G& g, Dim d) {
  LSpec l; l.kind = "maxpool"; l.in = {d}; size_t rw = gen_divisor(g, d.w), rh = gen_divisor(g, d.h); l.out = {Dim{d.s, d.w / rw, d.h / rh, d.m}};
  std::ostringstream c; c << "maxpooling(size=" << rw << "x" << rh << ")"; bool str = g.coin(); std::string cs = c.str(); l.desc = (str ? "" : "new ") + cs;
  l.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(cs); return new Conv::MaxPoolingLayer(rw, rh); };
  l.ulps = 0; l.f = ref_pool(l.out[0], rw, rh, rw, rh); return l;
}
inline LSpec spec_amaxpool(G& g, Dim d) {
  LSpec l; l.kind = "amaxpool"; l.in = {d}; size_t rw = 1 + g.below(std::min<size_t>(4, d.w)), rh = 1 + g.below(std::min<size_t>(4, d.h)), sw = 1 + g.below(4), sh = 1 + g.below(4);
  bool nostride = g.chance(1, 4); if (nostride) { sw = rw; sh = rh; }
  l.out = {Dim{d.s, (d.w - rw) / sw + 1, (d.h - rh) / sh + 1, d.m}};
  std::ostringstream c; c << "amaxpooling(size=" << rw << "x" << rh; if (!nostride) c << " stride=" << sw << "x" << sh; c << ")"; bool str = g.coin(); std::string cs = c.str(); l.desc = (str ? "" : "new ") + cs;
  l.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(cs); return new Conv::AdvancedMaxPoolingLayer(rw, rh, sw, sh); };
  l.ulps = 0; l.f = ref_pool(l.out[0], rw, rh, sw, sh); return l;
}
inline std::function<DAs(const DAs&, const DAs&)> ref_lrn(int size, float alpha, float beta, bool across) {
  int before = (size - 1) / 2, after = size / 2;  // window of `size` positions around the centre, clipped at the border
  return [=](const DAs& in, const DAs&) {
    DA o(in[0]); const DA& x = in[0]; auto clip = [&](long c0, long n, long& a, long& b) { a = std::max(0l, c0 - before); b = std::min(n - 1, c0 + after); };
    for (size_t s = 0; s < x.s; s++) for (size_t m = 0; m < x.m; m++) for (size_t y = 0; y < x.h; y++) for (size_t xx = 0; xx < x.w; xx++) {
      double sum = 0; long n = 0, a, b, c2, e;
      if (across) { clip(m, x.m, a, b); for (long q = a; q <= b; q++) { double v = x.at(xx, y, q, s); sum += v * v; n++; } }
      else { clip(xx, x.w, a, b); clip(y, x.h, c2, e); for (long yy = c2; yy <= e; yy++) for (long q = a; q <= b; q++) { double v = x.at(q, yy, m, s); sum += v * v; n++; } }
      o.at(xx, y, m, s) = x.at(xx, y, m, s) / std::pow(1 + (double)alpha / n * sum, (double)beta);
    }
    return DAs{o};
  };
}
inline LSpec spec_lrn(G& g, Dim d) {
  LSpec l; l.kind = "lrn"; l.in = {d}; l.out = {d}; int size = 1 + (int)g.small(0, 6); float alpha = g.pick<float>({1.0f, 0.5f, 2.0f, 0.0001f, 0.25f}), beta = g.pick<float>({1.0f, 0.75f, 0.5f, 2.0f}); bool across = g.coin();
  std::ostringstream c; c << "lrn(" << (across ? "across" : "within") << " size=" << size << " alpha=" << alpha << " beta=" << beta << ")"; l.desc = c.str(); l.ulps = 40;
  l.make = [=]() -> Conv::Layer* { return new Conv::LocalResponseNormalizationLayer(size, alpha, beta, across ? Conv::LocalResponseNormalizationLayer::ACROSS_CHANNELS : Conv::LocalResponseNormalizationLayer::WITHIN_CHANNELS); };
  l.f = ref_lrn(size, alpha, beta, across); return l;
}
inline LSpec spec_resize(G& g, Dim d) {
  LSpec l; l.kind = "resize"; l.in = {d}; size_t bx = g.below(6), by = g.below(6); l.out = {Dim{d.s, d.w + bx, d.h + by, d.m}}; l.ulps = 0;
  std::ostringstream c; c << "resize(border=" << bx << "x" << by << ")"; bool str = g.coin(); std::string cs = c.str(); l.desc = (str ? "" : "new ") + cs;
  l.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(cs); return new Conv::ResizeLayer(bx, by); };
  l.f = [=](const DAs& in, const DAs&) { const DA& x = in[0]; DA o(Dim{x.s, x.w + bx, x.h + by, x.m}); for (size_t s = 0; s < x.s; s++) for (size_t m = 0; m < x.m; m++) for (size_t y = 0; y < x.h; y++) for (size_t q = 0; q < x.w; q++) o.at(q + bx / 2, y + by / 2, m, s) = x.at(q, y, m, s); return DAs{o}; };
  return l;
}
inline LSpec spec_upscale(G& g, Dim d) {
  LSpec l; l.kind = "upscale"; l.in = {d}; size_t rw = 1 + g.below(4), rh = 1 + g.below(4); l.out = {Dim{d.s, d.w * rw, d.h * rh, d.m}}; l.ulps = 0; l.linear = true;
  std::ostringstream c; c << "upscale(" << rw << "x" << rh << ")"; l.desc = c.str(); l.make = [=]() -> Conv::Layer* { return new Conv::UpscaleLayer(rw, rh); };
  l.f = [=](const DAs& in, const DAs&) { const DA& x = in[0]; DA o(Dim{x.s, x.w * rw, x.h * rh, x.m}); for (size_t s = 0; s < o.s; s++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < o.h; y++) for (size_t q = 0; q < o.w; q++) o.at(q, y, m, s) = x.at(q / rw, y / rh, m, s); return DAs{o}; };
  return l;
}
inline LSpec spec_downsample(G& g, Dim d) {
  LSpec l; l.kind = "downsample"; l.in = {d}; size_t rw = gen_divisor(g, d.w), rh = gen_divisor(g, d.h); l.out = {Dim{d.s, d.w / rw, d.h / rh, d.m}}; l.grad = false; l.linear = true; l.ulps = 4 + rw * rh;
  std::ostringstream c; c << "downsampling(" << rw << "x" << rh << ")"; l.desc = c.str(); l.make = [=]() -> Conv::Layer* { return new Conv::InputDownSamplingLayer(rw, rh); };
  l.f = [=](const DAs& in, const DAs&) { const DA& x = in[0]; DA o(Dim{x.s, x.w / rw, x.h / rh, x.m}); for (size_t s = 0; s < o.s; s++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < o.h; y++) for (size_t q = 0; q < o.w; q++) { double v = 0; for (size_t a = 0; a < rh; a++) for (size_t b = 0; b < rw; b++) v += x.at(q * rw + b, y * rh + a, m, s); o.at(q, y, m, s) = v / (rw * rh); } return DAs{o}; };
  return l;
}
inline LSpec spec_prior(G&, Dim d) {
  LSpec l; l.kind = l.desc = "spatialprior"; l.in = {d}; l.out = {Dim{d.s, d.w, d.h, d.m + 2}}; l.ulps = 1; l.make = []() -> Conv::Layer* { return new Conv::SpatialPriorLayer(); };
  l.f = [](const DAs& in, const DAs&) { const DA& x = in[0]; DA o(Dim{x.s, x.w, x.h, x.m + 2}); for (size_t s = 0; s < x.s; s++) for (size_t y = 0; y < x.h; y++) for (size_t q = 0; q < x.w; q++) { o.at(q, y, 0, s) = (double)q / x.w; o.at(q, y, 1, s) = (double)y / x.h; for (size_t m = 0; m < x.m; m++) o.at(q, y, m + 2, s) = x.at(q, y, m, s); } return DAs{o}; };
  return l;
}
inline LSpec spec_hmax(G& g, Dim d) {
  LSpec l; l.kind = "hmax"; l.in = {d}; l.out = {d}; l.par = {Dim{1, 2, 1, 1}}; l.ulps = 16; bool str = g.coin();
  l.desc = str ? "hmax(mu=1 weight=0)" : "new hmax"; l.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer("hmax(mu=1 weight=0)"); return new Conv::HMaxActivationFunction("mu=1 weight=0"); };
  l.f = [](const DAs& in, const DAs& par) { DAs o{in[0]}; for (auto& v : o[0].d) v = 1 / (1 + std::exp(-(par[0].d[0] * v + par[0].d[1]))); return o; };
  return l;
}
inline LSpec spec_concat(Dim a, size_t mb) {
  LSpec l; l.kind = l.desc = "concat"; Dim b = a; b.m = mb; l.in = {a, b}; l.out = {Dim{a.s, a.w, a.h, a.m + b.m}}; l.ulps = 0; l.make = []() -> Conv::Layer* { return new Conv::ConcatenationLayer(); };
  l.f = [](const DAs& in, const DAs&) { const DA &a = in[0], &b = in[1]; DA o(Dim{a.s, a.w, a.h, a.m + b.m}); for (size_t s = 0; s < a.s; s++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < a.h; y++) for (size_t x = 0; x < a.w; x++) o.at(x, y, m, s) = m < a.m ? a.at(x, y, m, s) : b.at(x, y, m - a.m, s); return DAs{o}; };
  return l;
}
inline LSpec spec_sum(Dim a) {
  LSpec l; l.kind = l.desc = "sum"; l.in = {a, a}; l.out = {a}; l.ulps = 1; l.linear = true; l.make = []() -> Conv::Layer* { return new Conv::SumLayer(); };
  l.f = [](const DAs& in, const DAs&) { DAs o{in[0]}; for (size_t e = 0; e < o[0].d.size(); e++) o[0].d[e] += in[1].d[e]; return o; };
  return l;
}
inline LSpec spec_fanout(G& g, Dim a) {
  LSpec l; l.kind = "fanout"; size_t n = 1 + g.below(4); bool str = g.coin(); l.in = {a}; l.out.assign(n, a); l.ulps = 0; std::string cs = "gradientaccumulation(outputs=" + std::to_string(n) + ")"; l.desc = (str ? "" : "new ") + cs;
  l.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(cs); return new Conv::GradientAccumulationLayer((unsigned)n); };
  l.f = [n](const DAs& in, const DAs&) { return DAs(n, in[0]); };
  return l;
}
template <class L> inline std::function<Conv::Layer*()> mk_nl(const char* name, bool str) { std::string n = name; return [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(n); return new L(); }; }
inline LSpec spec_tanh(G& g, Dim d) { LSpec l = elementwise("tanh", d, [](double v) { return std::tanh(v); }, mk_nl<Conv::TanhLayer>("tanh", g.coin())); return l; }
inline LSpec spec_sigm(G& g, Dim d) { return elementwise("sigm", d, [](double v) { return 1 / (1 + std::exp(-v)); }, mk_nl<Conv::SigmoidLayer>("sigm", g.coin())); }
inline LSpec spec_relu(G& g, Dim d) { LSpec l = elementwise("relu", d, [](double v) { return v > 0 ? v : 0; }, mk_nl<Conv::ReLULayer>("relu", g.coin())); l.ulps = 0; return l; }

// any layer; d is the shape of its first input
inline LSpec gen_layer(G& g, Dim d) {
  switch (g.weighted({6, 3, 4, 4, 2, 2, 2, 3, 3, 2, 2, 2, 1, 2, 2})) {
    case 0: return spec_conv(g, d); case 1: return spec_maxpool(g, d); case 2: return spec_amaxpool(g, d); case 3: return spec_lrn(g, d);
    case 4: return spec_tanh(g, d); case 5: return spec_sigm(g, d); case 6: return spec_relu(g, d); case 7: return spec_resize(g, d); case 8: return spec_upscale(g, d);
    case 9: return spec_downsample(g, d); case 10: return spec_concat(d, 1 + g.below(4)); case 11: return spec_sum(d); case 12: return spec_prior(g, d); case 13: return spec_fanout(g, d); default: return spec_hmax(g, d);
  }
}

// values without ties and away from kinks most of the time
inline void fill_generic(Tensor& t, uint64_t seed, double scale = 1) { pbt::Rng r(seed * 31 + 5); for (size_t e = 0; e < t.elements(); e++) t[e] = (float)((2 * r.unit() - 1) * scale); }
inline void fill_arr(Tensor& t, Vals v, unsigned generic) { if (generic) fill_generic(t, v.seed); else fill(t, v); }

}  // namespace cn
