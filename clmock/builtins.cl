// built-in functions of the simulated device (the default header declares them)
#define OV __attribute__((overloadable))
#define F1(n) float OV n(float x) { return __builtin_##n##f(x); }
F1(exp) F1(tanh) F1(sqrt) F1(log) F1(sin) F1(cos) F1(floor) F1(ceil) F1(fabs) F1(exp2) F1(log2) F1(sinh) F1(cosh) F1(round) F1(trunc) F1(rint) F1(expm1) F1(log1p) F1(tan) F1(atan)
#define F2(n) float OV n(float x, float y) { return __builtin_##n##f(x, y); }
F2(pow) F2(fmin) F2(fmax) F2(fmod) F2(hypot) F2(copysign)
float OV pown(float x, int y) { return __builtin_powif(x, y); }
float OV powr(float x, float y) { return __builtin_powf(x, y); }
float OV rsqrt(float x) { return 1.0f / __builtin_sqrtf(x); }
float OV mad(float a, float b, float c) { return a * b + c; }
float OV fma(float a, float b, float c) { return __builtin_fmaf(a, b, c); }
#define N1(n, m) float OV n(float x) { return __builtin_##m##f(x); }
N1(native_exp, exp) N1(native_sqrt, sqrt) N1(native_log, log) N1(native_tanh, tanh) N1(half_exp, exp) N1(half_sqrt, sqrt)
float OV native_recip(float x) { return 1.0f / x; } float OV native_divide(float x, float y) { return x / y; }
#define MM(T) T OV min(T a, T b) { return b < a ? b : a; } T OV max(T a, T b) { return a < b ? b : a; } T OV clamp(T x, T a, T b) { return x < a ? a : x > b ? b : x; }
MM(int) MM(uint) MM(float) MM(long) MM(ulong)
int OV mul24(int a, int b) { return a * b; } uint OV mul24(uint a, uint b) { return a * b; } int OV mad24(int a, int b, int c) { return a * b + c; } uint OV mad24(uint a, uint b, uint c) { return a * b + c; }
uint OV abs(int x) { return x < 0 ? -(uint)x : (uint)x; } int OV isnan(float x) { return x != x; } int OV isinf(float x) { return __builtin_isinf(x); }
float OV mix(float a, float b, float t) { return a + (b - a) * t; } float OV step(float e, float x) { return x < e ? 0.0f : 1.0f; } float OV sign(float x) { return x > 0 ? 1.0f : x < 0 ? -1.0f : x; }
float OV select(float a, float b, int c) { return c ? b : a; } float OV select(float a, float b, uint c) { return c ? b : a; } int OV select(int a, int b, int c) { return c ? b : a; } uint OV select(uint a, uint b, uint c) { return c ? b : a; }
float OV dot(float a, float b) { return a * b; } float OV dot(float2 a, float2 b) { return a.x * b.x + a.y * b.y; } float OV dot(float3 a, float3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } float OV dot(float4 a, float4 b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }
#define VL(AS) float2 OV vload2(size_t o, const AS float* p) { p += o * 2; return (float2)(p[0], p[1]); } float4 OV vload4(size_t o, const AS float* p) { p += o * 4; return (float4)(p[0], p[1], p[2], p[3]); } float3 OV vload3(size_t o, const AS float* p) { p += o * 3; return (float3)(p[0], p[1], p[2]); } \
  float8 OV vload8(size_t o, const AS float* p) { p += o * 8; return (float8)(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); }
VL(__global) VL(__private) VL(__constant) VL(__local)
#define VS(AS) void OV vstore2(float2 v, size_t o, AS float* p) { p += o * 2; p[0] = v.x; p[1] = v.y; } void OV vstore4(float4 v, size_t o, AS float* p) { p += o * 4; p[0] = v.x; p[1] = v.y; p[2] = v.z; p[3] = v.w; }
VS(__global) VS(__private) VS(__local)
#define CV(T, S) T OV convert_##T(S x) { return (T)x; }
CV(float, int) CV(float, uint) CV(float, float) CV(int, float) CV(int, uint) CV(int, int) CV(uint, float) CV(uint, int) CV(uint, uint)
