// C04: math kernels compute their definition (checked in the reference build
// and in the BLAS build).
#include "cn.h"
#include "TensorMath.h"
using namespace cn; using Conv::TensorMath;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static float scalar(G& g) { return g.pick<float>({1.0f, 0.0f, -1.0f, 0.5f, 2.5f}); }
static const float GUARD = 12345.5f;

// matrix stored in a tensor, starting at sample sm of a multi-sample tensor
struct Mat { Tensor t; size_t sm, ld, rows, cols; std::vector<float> before;
  float at(size_t r, size_t c) const { return t.data_ptr_const(0, 0, 0, sm)[r * ld + c]; } };
static void gen_mat(G& g, Mat& m, size_t rows, size_t cols, const char* name, Vals v) {
  m.rows = rows; m.cols = cols; m.ld = cols + (g.chance(1, 3) ? g.below(4) : 0);
  size_t need = (rows - 1) * m.ld + cols;  // exact number of elements: reads beyond it are caught
  // "samples" of one row (as weights), one sample per matrix, or offset 0
  switch (g.below(3)) {
    case 0: m.sm = 0; m.t.Resize(1, need); break;
    case 1: m.sm = g.below(3); m.t.Resize(m.sm + rows, m.ld); break;
    default: m.sm = g.below(3); m.t.Resize(m.sm + 1, m.ld, rows, 1); break;
  }
  fill(m.t, v); g.note() << " " << name << rows << "x" << cols << "/ld" << m.ld << "@" << m.sm << shape(m.t) << v;
}
static void check_result(const Mat& c, const std::vector<double>& want, const std::vector<double>& mag, double eps) {
  size_t base = c.t.Offset(0, 0, 0, c.sm);
  for (size_t e = 0; e < c.t.elements(); e++) {
    size_t r = 0, col = 0; bool in = false;
    if (e >= base) { r = (e - base) / c.ld; col = (e - base) % c.ld; in = r < c.rows && col < c.cols; }
    if (!in) REQUIRE(memcmp(&c.t.data_ptr_const()[e], &c.before[e], 4) == 0, "element " << e << " outside the result was changed from " << c.before[e] << " to " << c.t.data_ptr_const()[e]);
    else require_close(c.t.data_ptr_const()[e], want[r * c.cols + col], eps * mag[r * c.cols + col] + 1e-30, "result at row " + std::to_string(r) + ", column " + std::to_string(col));
  }
}
static void snapshot(Mat& c, float beta, bool poison) {
  if (beta == 0 && poison) for (size_t e = 0; e < c.t.elements(); e++) c.t[e] = NAN;
  c.before.assign(c.t.data_ptr(), c.t.data_ptr() + c.t.elements());
}

FACET(gemm, 30000, 600000, "no dimension is 1 and dimensions differ") {
  bool big = g.chance(1, 40); size_t lim = big ? 90 : 12;
  size_t M = 1 + g.small(0, lim - 1), N = 1 + g.small(0, lim - 1), K = 1 + g.small(0, lim - 1); bool ta = g.coin(), tb = g.coin(); float al = scalar(g), be = scalar(g);
  Vals va = gen_vals(g, 4), vb = gen_vals(g, 4), vc = gen_vals(g); bool poison = g.coin();
  g.note() << "M" << M << " N" << N << " K" << K << " alpha" << al << " beta" << be << (ta ? " tA" : "") << (tb ? " tB" : "") << (poison ? " nanC" : "");
  if (M > 1 && N > 1 && K > 1 && (M != N || N != K)) g.nontrivial();
  g.label(std::string(ta ? "T" : "N") + (tb ? "T" : "N"));
  Mat A, B, C; gen_mat(g, A, ta ? K : M, ta ? M : K, "A", va); gen_mat(g, B, tb ? N : K, tb ? K : N, "B", vb); gen_mat(g, C, M, N, "C", vc);
  snapshot(C, be, poison); Arr a0(A.t), b0(B.t);
  std::vector<double> want(M * N), mag(M * N);
  for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) {
    double s = 0, q = 0; for (size_t k = 0; k < K; k++) { double p = (double)(ta ? A.at(k, i) : A.at(i, k)) * (tb ? B.at(j, k) : B.at(k, j)); s += p; q += std::fabs(p); }
    double c = be == 0 ? 0 : (double)be * C.at(i, j); want[i * N + j] = al * s + c; mag[i * N + j] = std::fabs(al) * q + std::fabs(c);
  }
  TensorMath::GEMM(true, ta, tb, M, N, K, al, A.t, A.sm, A.ld, B.t, B.sm, B.ld, be, C.t, C.sm, C.ld);
  check_result(C, want, mag, 2e-7 * (K + 4)); require_same(A.t, a0, "A after GEMM"); require_same(B.t, b0, "B after GEMM");
}

FACET(gemv, 30000, 600000, "matrix has at least two rows and columns and is not square") {
  size_t M = 1 + g.small(0, 15), N = 1 + g.small(0, 15); bool ta = g.coin(); float al = scalar(g), be = scalar(g); Vals va = gen_vals(g, 4), vx = gen_vals(g, 4), vy = gen_vals(g); bool poison = g.coin();
  size_t ix = 1 + (g.chance(1, 3) ? g.below(3) : 0), iy = 1 + (g.chance(1, 3) ? g.below(3) : 0);
  if (M > 1 && N > 1 && M != N) g.nontrivial(); g.label(ta ? "T" : "N");
  g.note() << "M" << M << " N" << N << " alpha" << al << " beta" << be << (ta ? " tA" : "") << " inc" << ix << "," << iy;
  size_t ny = ta ? N : M, nx = ta ? M : N; Mat A, X, Y; gen_mat(g, A, M, N, "A", va);
  auto vec = [&](Mat& m, size_t n, size_t inc, Vals v) { m.rows = n; m.cols = 1; m.ld = inc; m.sm = g.below(2); size_t need = (n - 1) * inc + 1; m.t.Resize(m.sm + 1, need); fill(m.t, v); };
  vec(X, nx, ix, vx); vec(Y, ny, iy, vy); snapshot(Y, be, poison); Arr a0(A.t), x0(X.t);
  std::vector<double> want(ny), mag(ny);
  for (size_t i = 0; i < ny; i++) { double s = 0, q = 0; for (size_t j = 0; j < nx; j++) { double p = (double)(ta ? A.at(j, i) : A.at(i, j)) * X.at(j, 0); s += p; q += std::fabs(p); }
    double c = be == 0 ? 0 : (double)be * Y.at(i, 0); want[i] = al * s + c; mag[i] = std::fabs(al) * q + std::fabs(c); }
  TensorMath::GEMV(true, ta, M, N, al, A.t, A.sm, A.ld, X.t, X.sm, ix, be, Y.t, Y.sm, iy);
  check_result(Y, want, mag, 2e-7 * (nx + 4)); require_same(A.t, a0, "A after GEMV"); require_same(X.t, x0, "X after GEMV");
}

struct Geo { size_t s, w, h, m, kw, kh, sw, sh, pw, ph, ow, oh; };
static Geo gen_geo(G& g) {
  Geo q; q.s = 1 + g.small(0, 2); q.m = 1 + g.small(0, 2); q.w = 1 + g.small(0, 8); q.h = 1 + g.small(0, 8); q.pw = g.chance(1, 3) ? g.below(4) : 0; q.ph = g.chance(1, 3) ? g.below(4) : 0;
  q.kw = 1 + g.below(std::min<size_t>(5, q.w + 2 * q.pw)); q.kh = 1 + g.below(std::min<size_t>(5, q.h + 2 * q.ph)); q.sw = 1 + g.small(0, 3); q.sh = 1 + g.small(0, 3);
  q.ow = (2 * q.pw + q.w - q.kw) / q.sw + 1; q.oh = (2 * q.ph + q.h - q.kh) / q.sh + 1;
  g.note() << q.s << "s@" << q.w << "x" << q.h << "x" << q.m << " k" << q.kw << "x" << q.kh << " s" << q.sw << "x" << q.sh << " p" << q.pw << "x" << q.ph;
  if (q.w != q.h && q.kw * q.kh > 1) g.nontrivial();
  g.label(q.pw || q.ph ? "padding" : "no padding"); g.label(q.sw > 1 || q.sh > 1 ? "stride" : "stride 1");
  return q;
}

FACET(im2col_col2im, 30000, 600000, "image not square and kernel larger than one pixel") {
  Geo q = gen_geo(g); Vals vx = gen_vals(g, 2), vy = gen_vals(g, 2);
  Tensor x(q.s, q.w, q.h, q.m); fill(x, vx); Arr x0(x);
  Tensor col(q.kw * q.kh * q.m, q.ow, q.oh, q.s); col.Clear(NAN);
  // definition: col[(map,ky,kx)][sample][oy][ox] = x[sample][map][oy*sh-ph+ky][ox*sw-pw+kx], 0 outside
  auto each = [&](const std::function<void(size_t, long, long, size_t, size_t)>& f) {
    for (size_t s = 0; s < q.s; s++) for (size_t m = 0; m < q.m; m++) for (size_t ky = 0; ky < q.kh; ky++) for (size_t kx = 0; kx < q.kw; kx++) for (size_t oy = 0; oy < q.oh; oy++) for (size_t ox = 0; ox < q.ow; ox++)
      f(((((m * q.kh + ky) * q.kw + kx) * q.s + s) * q.oh + oy) * q.ow + ox, (long)(ox * q.sw + kx) - (long)q.pw, (long)(oy * q.sh + ky) - (long)q.ph, m, s); };
  auto in = [&](long ix, long iy) { return ix >= 0 && iy >= 0 && ix < (long)q.w && iy < (long)q.h; };
  TensorMath::IM2COL(x, q.w, q.h, q.m, q.s, q.kw, q.kh, q.sw, q.sh, q.pw, q.ph, col);
  each([&](size_t e, long ix, long iy, size_t m, size_t s) { float want = in(ix, iy) ? x0.at(ix, iy, m, s) : 0; REQUIRE(col[e] == want, "IM2COL element " << e << " (source " << ix << "," << iy << " map " << m << " sample " << s << ") is " << col[e] << ", expected " << want); });
  require_same(x, x0, "IM2COL source");
  // adjoint
  Tensor y(q.kw * q.kh * q.m, q.ow, q.oh, q.s); fill(y, vy); Arr y0(y); Tensor back(q.s, q.w, q.h, q.m); back.Clear(NAN);
  TensorMath::COL2IM(back, q.w, q.h, q.m, q.s, q.kw, q.kh, q.sw, q.sh, q.pw, q.ph, y);
  Arr want(q.s, q.w, q.h, q.m, 0);
  each([&](size_t e, long ix, long iy, size_t m, size_t s) { if (in(ix, iy)) want.at(ix, iy, m, s) += y0.d[e]; });
  for (size_t e = 0; e < want.d.size(); e++) REQUIRE(back[e] == want.d[e], "COL2IM element " << e << " is " << back[e] << ", expected " << want.d[e]);
  require_same(y, y0, "COL2IM source");
  double l = 0, r = 0; for (size_t e = 0; e < y.elements(); e++) l += (double)col[e] * y[e]; for (size_t e = 0; e < x.elements(); e++) r += (double)x[e] * back[e];
  REQUIRE(l == r, "<IM2COL(x),y> = " << l << " but <x,COL2IM(y)> = " << r);
  if (g.chance(1, 8)) {  // wrong target sizes are refused
    Tensor bad(q.kw * q.kh * q.m, q.ow + 1, q.oh, q.s); bool a = false, b = false;
    try { TensorMath::IM2COL(x, q.w, q.h, q.m, q.s, q.kw, q.kh, q.sw, q.sh, q.pw, q.ph, bad); } catch (const std::runtime_error&) { a = true; }
    try { TensorMath::COL2IM(back, q.w, q.h, q.m, q.s, q.kw, q.kh, q.sw, q.sh, q.pw, q.ph, bad); } catch (const std::runtime_error&) { b = true; }
    REQUIRE(a && b, "wrong target size accepted");
  }
}

FACET(sms, 20000, 400000, "more than one map and sample, not equally many") {
  size_t s = 1 + g.small(0, 5), w = 1 + g.small(0, 6), h = 1 + g.small(0, 6), m = 1 + g.small(0, 5); Vals v = gen_vals(g, 4); g.note() << s << "s@" << w << "x" << h << "x" << m << v;
  if (s > 1 && m > 1 && s != m) g.nontrivial();
  Tensor src(m, w, h, s), tgt(s, w, h, m); fill(src, v); Arr a(src); tgt.Clear(NAN);
  TensorMath::SMS(src, tgt);
  for (size_t k = 0; k < s; k++) for (size_t c = 0; c < m; c++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++)
    REQUIRE(*tgt.data_ptr(x, y, c, k) == a.at(x, y, k, c), "target (" << x << "," << y << "," << c << "," << k << ") is " << *tgt.data_ptr(x, y, c, k) << ", expected " << a.at(x, y, k, c));
  require_same(src, a, "source");
}

FACET(down_up, 20000, 400000, "region has different width and height") {
  size_t s = 1 + g.small(0, 2), w = 1 + g.small(0, 5), h = 1 + g.small(0, 5), m = 1 + g.small(0, 2), rw = 1 + g.below(4), rh = 1 + g.below(4), ew = g.chance(1, 4) ? g.below(rw) : 0, eh = g.chance(1, 4) ? g.below(rh) : 0; Vals v = gen_vals(g); float f = scalar(g);
  g.note() << s << "s@" << w << "x" << h << "x" << m << " region " << rw << "x" << rh << " extra " << ew << "," << eh << " factor " << f << v; if (rw != rh) g.nontrivial();
  Tensor big(s, w * rw + ew, h * rh + eh, m), sm(s, w, h, m); fill(big, v); sm.Clear(NAN); Arr b(big);
  TensorMath::DOWN(big, sm, rw, rh, f);
  for (size_t k = 0; k < s; k++) for (size_t c = 0; c < m; c++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) {
    double t = 0, q = 0; for (size_t ry = 0; ry < rh; ry++) for (size_t rx = 0; rx < rw; rx++) { t += b.at(x * rw + rx, y * rh + ry, c, k); q += std::fabs(b.at(x * rw + rx, y * rh + ry, c, k)); }
    require_close(*sm.data_ptr(x, y, c, k), t * f, 1e-6 * q * std::fabs(f) + 1e-30, "DOWN at (" + std::to_string(x) + "," + std::to_string(y) + ")"); }
  require_same(big, b, "DOWN source");
  Tensor src(s, w, h, m), tgt(s, w * rw, h * rh, m); fill(src, v); tgt.Clear(NAN); Arr a(src);
  TensorMath::UP(src, tgt, rw, rh, f);
  for (size_t k = 0; k < s; k++) for (size_t c = 0; c < m; c++) for (size_t y = 0; y < h * rh; y++) for (size_t x = 0; x < w * rw; x++)
    require_close(*tgt.data_ptr(x, y, c, k), (double)a.at(x / rw, y / rh, c, k) * f, 1e-6 * std::fabs((double)a.at(x / rw, y / rh, c, k) * f) + 1e-30, "UP at (" + std::to_string(x) + "," + std::to_string(y) + ")");
  require_same(src, a, "UP source");
}

FACET(set_add, 20000, 400000, "more than one sample") {
  size_t s = 1 + g.small(0, 3), w = 1 + g.small(0, 6), h = 1 + g.small(0, 6), m = 1 + g.small(0, 3); Vals v = gen_vals(g, 4), v2 = gen_vals(g, 4); int smp = g.coin() ? -1 : (int)g.below(s); float val = scalar(g);
  g.note() << s << "s@" << w << "x" << h << "x" << m << " set " << smp << " to " << val; if (s > 1) g.nontrivial();
  Tensor t(s, w, h, m); fill(t, v); Arr a(t); TensorMath::SETSAMPLE(t, smp, val);
  for (size_t e = 0; e < a.d.size(); e++) if (smp < 0 || e / (w * h * m) == (size_t)smp) a.d[e] = val; require_same(t, a, "SETSAMPLE");
  Tensor b(s, w, h, m), c(s, w, h, m); fill(b, v2); Arr b0(b); c.Clear(NAN); unsigned alias = (unsigned)g.below(3); Tensor& tgt = alias == 0 ? c : alias == 1 ? t : b; Arr want(a);
  for (size_t e = 0; e < a.d.size(); e++) want.d[e] = a.d[e] + b0.d[e];
  TensorMath::ADD(t, b, tgt); for (size_t e = 0; e < want.d.size(); e++) REQUIRE(tgt[e] == want.d[e], "ADD element " << e << " is " << tgt[e] << ", expected " << want.d[e]);
  if (alias == 0) { require_same(t, a, "first operand"); require_same(b, b0, "second operand"); }
  if (g.chance(1, 4)) { Tensor d(s, w + 1, h, m); bool th = false; try { switch (g.below(3)) { case 0: TensorMath::ADD(d, b, c); break; case 1: TensorMath::ADD(b, d, c); break; default: TensorMath::ADD(b, c, d); } } catch (const std::runtime_error&) { th = true; } REQUIRE(th, "mismatching operands accepted"); }
}
