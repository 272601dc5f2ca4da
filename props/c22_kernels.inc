// The kernels which the library loads and hands out without calling them
// itself, against their definitions in double precision.
struct KArg { cl_mem m; cl_uint u; cl_float f; int k; KArg(Tensor& t) : k(0) { gpu(t); m = (cl_mem)t.cl_data_ptr_; } KArg(size_t v) : u((cl_uint)v), k(1) {} KArg(float v) : f(v), k(2) {} };
void launch(cl_kernel kn, std::vector<KArg> a, std::vector<size_t> gws) {
  REQUIRE(kn != 0, "kernel not loaded"); for (cl_uint i = 0; i < a.size(); i++) { cl_int e = a[i].k == 0 ? clSetKernelArg(kn, i, sizeof(cl_mem), &a[i].m) : a[i].k == 1 ? clSetKernelArg(kn, i, 4, &a[i].u) : clSetKernelArg(kn, i, 4, &a[i].f); REQUIRE(e == CL_SUCCESS, "argument " << i << ": " << clmock::last_error); }
  cl_int e = clEnqueueNDRangeKernel(Conv::CLHelper::queue, kn, (cl_uint)gws.size(), NULL, gws.data(), NULL, 0, NULL, NULL); REQUIRE(e == CL_SUCCESS, "launch: " << clmock::last_error);
}
void kernels(G& g) {
  typedef Conv::CLHelper H; std::ostringstream n; auto in = [&](TP& t) { put(*t, gen_vals(g)); }; auto lr = [&] { return g.pick<float>({1.f, 1.f, 0.5f, -2.f, 0.f}); };
  auto check = [&](Tensor& t, const std::vector<double>& want, const std::vector<double>& mag, const char* what) { cpu(t); REQUIRE(t.elements() == want.size(), "size of the reference"); for (size_t e = 0; e < want.size(); e++) REQUIRE(std::fabs(t[e] - want[e]) <= 1e-5 * mag[e] + 1e-30, what << ": element " << e << " is " << t[e] << ", expected " << want[e]); };
  auto junk = [&](TP& t) { put(*t, Vals{3, 7}); place(g, *t); };
  size_t S = 1 + g.small(0, 2), I = 1 + g.small(0, 3), Om = 1 + g.small(0, 3), kw = 1 + g.small(0, 8), kh = 1 + g.small(0, 4), ow = 1 + g.small(0, 9), oh = 1 + g.small(0, 4), iw = ow + kw - 1, ih = oh + kh - 1, N = 1 + g.small(0, 9), K = 1 + g.small(0, 9);
  std::vector<double> r, m; auto at = [](Tensor& t, size_t x, size_t y, size_t mm, size_t s) { return (double)t.data_ptr_const()[((s * t.maps() + mm) * t.height() + y) * t.width() + x]; };
  auto acc = [&](size_t i, double v) { r[i] += v; m[i] += std::fabs(v); }; auto size = [&](size_t q) { r.assign(q, 0); m.assign(q, 0); };
  n << "S" << S << " I" << I << " O" << Om << " k" << kw << "x" << kh << " o" << ow << "x" << oh << " N" << N << " K" << K << ": ";
  switch (g.below(9)) {
    case 0: { float wf = lr(); TP X = mk(S, iw, ih, I), W = mk(Om, kw, kh, I), b = mk(1, Om, 1, 1), Y = mk(S, ow, oh, Om), D = mk(S, Om, 1, 1); in(X); in(W); in(b); junk(Y); put(*D, Vals{1, g.below(1 << 20)}); n << "BIASED_CONVOLUTION factor " << wf; O->note = n.str(); size(Y->elements());
      for (size_t s = 0; s < S; s++) for (size_t o = 0; o < Om; o++) for (size_t y = 0; y < oh; y++) for (size_t x = 0; x < ow; x++) if ((*D)[s * Om + o] != 0) { size_t q = ((s * Om + o) * oh + y) * ow + x; acc(q, wf * (double)(*b)[o]); for (size_t i = 0; i < I; i++) for (size_t v = 0; v < kh; v++) for (size_t u = 0; u < kw; u++) acc(q, wf * at(*X, x + u, y + v, i, s) * at(*W, u, v, i, o)); }
      launch(H::k_biasedConvolution, {*X, *W, *b, *Y, *D, iw, ih, I, kw, kh, ow, oh, Om, wf}, {ow, oh, Om * S}); check(*Y, r, m, "convolution"); label("biasedConvolution"); break; }
    case 1: { TP dY = mk(S, ow, oh, Om), W = mk(Om, kw, kh, I), dX = mk(S, iw, ih, I); in(dY); in(W); junk(dX); n << "FULL_CONVOLUTION"; O->note = n.str(); size(dX->elements());
      for (size_t s = 0; s < S; s++) for (size_t o = 0; o < Om; o++) for (size_t y = 0; y < oh; y++) for (size_t x = 0; x < ow; x++) for (size_t i = 0; i < I; i++) for (size_t v = 0; v < kh; v++) for (size_t u = 0; u < kw; u++) acc(((s * I + i) * ih + y + v) * iw + x + u, at(*dY, x, y, o, s) * at(*W, u, v, i, o));
      launch(H::k_fullConvolution, {*dY, *W, *dX, iw, ih, I, kw, kh, ow, oh, Om}, {iw, ih, I * S}); check(*dX, r, m, "full convolution"); label("fullConvolution"); break; }
    case 2: { float f = lr(); TP X = mk(S, iw, ih, I), dY = mk(S, ow, oh, Om), ps = mk(S * Om, kw, kh, I), dW = mk(Om, kw, kh, I); in(X); in(dY); junk(ps); junk(dW); n << "CROSS_CORRELATION, FOLD_WEIGHTS rate " << f; O->note = n.str(); size(ps->elements()); std::vector<double> tot(dW->elements(), 0), tm(dW->elements(), 0);
      for (size_t s = 0; s < S; s++) for (size_t o = 0; o < Om; o++) for (size_t i = 0; i < I; i++) for (size_t v = 0; v < kh; v++) for (size_t u = 0; u < kw; u++) { size_t q = (((s * Om + o) * I + i) * kh + v) * kw + u; for (size_t y = 0; y < oh; y++) for (size_t x = 0; x < ow; x++) acc(q, f * at(*dY, x, y, o, s) * at(*X, x + u, y + v, i, s)); size_t t = q % dW->elements(); tot[t] += r[q]; tm[t] += m[q]; }
      launch(H::k_crossCorrelation, {*X, *dY, *ps, ih, iw, I, ow, oh, Om, kw, kh, S, f}, {kw, kh, I * Om * S}); launch(H::k_foldWeights, {*ps, *dW, I, Om, kw, kh, S}, {kw, kh, I * Om}); check(*ps, r, m, "weight gradient of a sample"); check(*dW, tot, tm, "weight gradient"); label("crossCorrelation"); break; }
    case 3: { float f = lr(); TP dY = mk(S, ow, oh, Om), bb = mk(S, Om, 1, 1), db = mk(1, Om, 1, 1); in(dY); junk(bb); junk(db); n << "BIAS_GRADIENT rate " << f; O->note = n.str(); size(Om); for (size_t s = 0; s < S; s++) for (size_t o = 0; o < Om; o++) for (size_t y = 0; y < oh; y++) for (size_t x = 0; x < ow; x++) acc(o, f * at(*dY, x, y, o, s));
      launch(H::k_biasGradientPart1, {*dY, *bb, ow, oh, Om}, {Om, S}); launch(H::k_biasGradientPart2, {*bb, *db, Om, S, f}, {Om}); check(*db, r, m, "bias gradient"); label("biasGradient"); break; }
    case 4: { float f = lr(); TP X = mk(S, K, 1, 1), W = mk(1, N, K, 1), b = mk(1, N, 1, 1), Y = mk(S, N, 1, 1); in(X); in(W); in(b); junk(Y); n << "BIASED_MATRIX_VECTOR_FWD factor " << f; O->note = n.str(); size(S * N); for (size_t s = 0; s < S; s++) for (size_t o = 0; o < N; o++) { acc(s * N + o, (*b)[o]); for (size_t i = 0; i < K; i++) acc(s * N + o, (double)f * (*W)[i * N + o] * (*X)[s * K + i]); }
      launch(H::k_biasedMatrixVector, {*X, *W, *b, *Y, K, N, f}, {N, S}); check(*Y, r, m, "matrix times vector"); label("matrixVector"); break; }
    case 5: { TP dX = mk(S, K, 1, 1), W = mk(1, N, K, 1), dY = mk(S, N, 1, 1); junk(dX); in(W); in(dY); n << "BIASED_MATRIX_VECTOR_BWD"; O->note = n.str(); size(S * K); for (size_t s = 0; s < S; s++) for (size_t i = 0; i < K; i++) for (size_t o = 0; o < N; o++) acc(s * K + i, (double)(*W)[i * N + o] * (*dY)[s * N + o]);
      launch(H::k_biasedMatrixVectorBackward, {*dX, *W, *dY, K, N}, {K, S}); check(*dX, r, m, "transposed matrix times vector"); label("matrixVectorBackward"); break; }
    case 6: { float f = lr(); TP db = mk(1, N, 1, 1), dY = mk(S, N, 1, 1); junk(db); in(dY); n << "BIASED_MATRIX_VECTOR_GRAD rate " << f; O->note = n.str(); size(N); for (size_t s = 0; s < S; s++) for (size_t o = 0; o < N; o++) acc(o, (double)f * (*dY)[s * N + o]);
      launch(H::k_biasedMatrixVectorGrad, {*db, *dY, N, S, f}, {N}); check(*db, r, m, "bias gradient"); label("matrixVectorGrad"); break; }
    case 7: { float f = lr(); TP X = mk(S, K, 1, 1), dW = mk(1, N, K, 1), dY = mk(S, N, 1, 1); in(X); junk(dW); in(dY); n << "MATRIX_MATRIX rate " << f; O->note = n.str(); size(N * K); for (size_t s = 0; s < S; s++) for (size_t i = 0; i < K; i++) for (size_t o = 0; o < N; o++) acc(i * N + o, (double)f * (*X)[s * K + i] * (*dY)[s * N + o]);
      launch(H::k_matrixMatrix, {*X, *dW, *dY, K, N, S, f}, {N, K}); check(*dW, r, m, "outer product"); label("matrixMatrix"); break; }
    default: { size_t bits = 1 + g.below(300); TP t = mk(1, bits, 1, 1); pbt::Rng q(g.below(1 << 20)); for (size_t e = 0; e < bits; e++) (*t)[e] = any_float(q); std::vector<float> was(t->data_ptr_const(), t->data_ptr_const() + bits); n << "up and down again, " << bits << " values"; O->note = n.str(); gpu(*t); for (size_t e = 0; e < bits; e++) { uint32_t x = 0xB5B5B5B5u; memcpy(&t->data_ptr()[e], &x, 4); } cpu(*t); REQUIRE(same_bits(t->data_ptr_const(), was.data(), bits), "values changed on their way to the device and back"); label("transfer"); }
  }
  O->nontrivial = true;
}
