// A simulated OpenCL device. Programs are compiled by clang's OpenCL C front
// end for the host, instrumented by the address sanitizer; device memory is
// separate from host memory and starts out as garbage; commands run late, and
// work items in any order. Argument checks follow the OpenCL 1.2 specification.
#define CL_TARGET_OPENCL_VERSION 120
#include <CL/cl.h>
#include "clBLAS.h"
#include "clmock.h"
#include <dlfcn.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace clmock { uint64_t item_order = 0; bool deferred = true; long kernels_run = 0, items_run = 0, uploads = 0, downloads = 0, errors = 0; const char* last_error = ""; }
using namespace clmock;
static cl_int fail(cl_int e, const char* what) { errors++; last_error = what; return e; }

typedef std::shared_ptr<char> Block;  // freed when released and no queued command needs it
struct _cl_mem { Block data; size_t size; int refs; };
struct _cl_platform_id { int x; }; struct _cl_device_id { int x; }; struct _cl_context { int x; }; struct _cl_command_queue { int x; }; struct _cl_event { int x; };
static _cl_platform_id the_platform; static _cl_device_id the_device; static _cl_context the_context; static _cl_command_queue the_queue; static _cl_event the_event;
static std::set<cl_mem>& mems() { static std::set<cl_mem> s; return s; }
static std::vector<std::function<void()>>& pending() { static std::vector<std::function<void()>> v; return v; }
static void drain() { auto q = std::move(pending()); pending().clear(); for (auto& f : q) f(); }
static void enqueue(std::function<void()> f) { pending().push_back(std::move(f)); if (!deferred) drain(); }

struct Param { bool pointer, is_float; size_t size; };
struct KernelDef { std::vector<Param> params; void* fn; };
struct _cl_program { std::string source, log; bool built = false; void* lib = nullptr; std::map<std::string, KernelDef> kernels; };
struct Arg { bool set = false; uint64_t bits = 0; Block block; cl_mem mem = nullptr; };
struct _cl_kernel { cl_program prog; std::string name; KernelDef def; std::vector<Arg> args; };

static std::string run(const std::string& cmd, int& rc) { std::string out; FILE* p = popen((cmd + " 2>&1").c_str(), "r"); if (!p) { rc = 127; return "popen"; } char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0) out.append(b, n); rc = pclose(p); return out; }
static bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static std::string env(const char* n, const char* d) { const char* v = getenv(n); return v ? v : d; }

static bool parse(const std::string& text, _cl_program& p) {
  std::regex head("\\b(__kernel|kernel)\\b((?:\\s*__attribute__\\s*\\(\\(.*?\\)\\))*)\\s*void\\s+((?:__attribute__\\s*\\(\\(.*?\\)\\)\\s*)*)(\\w+)\\s*\\(");
  for (std::sregex_iterator i(text.begin(), text.end(), head), e; i != e; ++i) {
    size_t b = i->position() + i->length(), q = b; int depth = 1; while (q < text.size() && depth) { if (text[q] == '(') depth++; if (text[q] == ')') depth--; q++; }
    std::string args = text.substr(b, q - 1 - b); KernelDef d; std::istringstream in(args); std::string a;
    while (std::getline(in, a, ',')) {
      std::vector<std::string> w; std::string t; bool ptr = a.find('*') != std::string::npos || a.find('[') != std::string::npos; for (char& c : a) if (!isalnum((unsigned char)c) && c != '_') c = ' '; std::istringstream ws(a); while (ws >> t) if (t != "const" && t != "volatile" && t != "restrict") w.push_back(t);
      if (w.empty() || (w.size() == 1 && w[0] == "void")) continue;
      if (ptr) { if (std::find(w.begin(), w.end(), "__local") != w.end() || std::find(w.begin(), w.end(), "local") != w.end()) { p.log = "local memory is not simulated"; return false; } d.params.push_back({true, false, sizeof(cl_mem)}); continue; }
      static const std::map<std::string, Param> types{{"float", {false, true, 4}}, {"int", {false, false, 4}}, {"uint", {false, false, 4}}, {"unsigned", {false, false, 4}}, {"signed", {false, false, 4}}, {"long", {false, false, 8}}, {"ulong", {false, false, 8}}, {"short", {false, false, 2}}, {"ushort", {false, false, 2}}, {"char", {false, false, 1}}, {"uchar", {false, false, 1}}};
      bool ok = false; for (auto& x : w) if (types.count(x)) { d.params.push_back(types.at(x)); ok = true; break; } if (!ok) { p.log = "parameter type is not simulated: " + a; return false; }
    }
    if (d.params.size() > 20) { p.log = "too many parameters for the simulated device"; return false; }
    p.kernels[(*i)[4]] = d;
  }
  return true;
}

extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* p, cl_uint* count) { if (count) *count = 1; if (p && n) *p = &the_platform; return CL_SUCCESS; }
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type, cl_uint n, cl_device_id* d, cl_uint* count) { if (p != &the_platform) return fail(CL_INVALID_PLATFORM, "platform"); if (count) *count = 1; if (d && n) *d = &the_device; return CL_SUCCESS; }
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t n, void* v, size_t* r) {
  if (d != &the_device) return fail(CL_INVALID_DEVICE, "device"); char name[] = "simulated device"; cl_bool img = CL_FALSE; const void* s = name; size_t k = sizeof name; if (what != CL_DEVICE_NAME) { s = &img; k = sizeof img; }
  if (v) { if (n < k) return fail(CL_INVALID_VALUE, "size of device information"); memcpy(v, s, k); } if (r) *r = k; return CL_SUCCESS; }
cl_context clCreateContext(const cl_context_properties*, cl_uint, const cl_device_id*, void(CL_CALLBACK*)(const char*, const void*, size_t, void*), void*, cl_int* e) { if (e) *e = CL_SUCCESS; return &the_context; }
cl_command_queue clCreateCommandQueue(cl_context, cl_device_id, cl_command_queue_properties, cl_int* e) { if (e) *e = CL_SUCCESS; return &the_queue; }
cl_program clCreateProgramWithSource(cl_context, cl_uint n, const char** s, const size_t* len, cl_int* e) { auto* p = new _cl_program; for (cl_uint i = 0; i < n; i++) p->source += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]); if (e) *e = CL_SUCCESS; return p; }
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char* opt, void(CL_CALLBACK*)(cl_program, void*), void*) {
  std::string dir = env("CN24_CLCACHE", "/tmp"), lib = env("CN24_CLMOCK", "."), opts = opt ? opt : ""; size_t h = std::hash<std::string>()(p->source + "\1" + opts + "\1" + env("CN24_CLKEY", ""));
  std::ostringstream b; b << dir << "/k" << std::hex << h; std::string base = b.str(), tmp = base + "." + std::to_string(getpid());
  if (!exists(base + ".so") || !exists(base + ".i")) {
    { std::ofstream f(tmp + ".cl"); f << p->source; } int rc; std::string cl = "clang -x cl -cl-std=CL1.2 " + opts + " ";
    p->log = run(cl + "-Xclang -finclude-default-header -fsanitize=address -O1 -g1 -fPIC -w -c " + tmp + ".cl -o " + tmp + ".o", rc); if (rc) return fail(CL_BUILD_PROGRAM_FAILURE, "build");
    p->log = run("clang -E -P -x c " + opts + " -D__OPENCL_VERSION__=120 " + tmp + ".cl -o " + tmp + ".i", rc); if (rc) return fail(CL_BUILD_PROGRAM_FAILURE, "preprocess");
    p->log = run("clang -shared -Wl,-Bsymbolic " + tmp + ".o " + lib + "/builtins.o " + lib + "/ids.o -lm -o " + tmp + ".so", rc); if (rc) return fail(CL_BUILD_PROGRAM_FAILURE, "link");
    rename((tmp + ".i").c_str(), (base + ".i").c_str()); rename((tmp + ".so").c_str(), (base + ".so").c_str()); unlink((tmp + ".cl").c_str()); unlink((tmp + ".o").c_str());
  }
  std::ifstream f(base + ".i"); std::stringstream ss; ss << f.rdbuf(); if (!parse(ss.str(), *p)) return fail(CL_BUILD_PROGRAM_FAILURE, "signature");
  p->lib = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL); if (!p->lib) { p->log = dlerror(); return fail(CL_BUILD_PROGRAM_FAILURE, "load"); }
  for (auto& k : p->kernels) { k.second.fn = dlsym(p->lib, k.first.c_str()); if (!k.second.fn) { p->log = "no code for " + k.first; return fail(CL_BUILD_PROGRAM_FAILURE, "code"); } }
  p->built = true; return CL_SUCCESS;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info what, size_t n, void* v, size_t* r) { std::string s = what == CL_PROGRAM_BUILD_LOG ? p->log : ""; if (r) *r = s.size() + 1; if (v && n) { size_t k = std::min(n - 1, s.size()); memcpy(v, s.data(), k); ((char*)v)[k] = 0; } return CL_SUCCESS; }
cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* e) {
  if (!p || !p->built) { if (e) *e = fail(CL_INVALID_PROGRAM_EXECUTABLE, "program not built"); return nullptr; } auto i = p->kernels.find(name); if (i == p->kernels.end()) { if (e) *e = fail(CL_INVALID_KERNEL_NAME, "kernel name"); return nullptr; }
  auto* k = new _cl_kernel; k->prog = p; k->name = name; k->def = i->second; k->args.resize(k->def.params.size()); if (e) *e = CL_SUCCESS; return k; }
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t n, const void* v) {
  if (!k) return fail(CL_INVALID_KERNEL, "kernel"); if (i >= k->args.size()) return fail(CL_INVALID_ARG_INDEX, "argument index"); const Param& p = k->def.params[i]; if (n != p.size) return fail(CL_INVALID_ARG_SIZE, "argument size");
  Arg a; a.set = true;
  if (p.pointer) { if (v) memcpy(&a.mem, v, sizeof a.mem); if (a.mem) { if (!mems().count(a.mem)) return fail(CL_INVALID_MEM_OBJECT, "argument is not a buffer"); a.block = a.mem->data; a.bits = (uint64_t)(uintptr_t)a.block.get(); } }
  else { if (!v) return fail(CL_INVALID_ARG_VALUE, "argument value"); memcpy(&a.bits, v, n); }
  k->args[i] = a; return CL_SUCCESS; }
typedef void (*Fn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, float, float, float, float, float, float, float, float);
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t* off, const size_t* g, const size_t* loc, cl_uint, const cl_event*, cl_event* ev) {
  if (q != &the_queue) return fail(CL_INVALID_COMMAND_QUEUE, "queue"); if (!k) return fail(CL_INVALID_KERNEL, "kernel"); if (dim < 1 || dim > 3) return fail(CL_INVALID_WORK_DIMENSION, "dimension"); if (!g) return fail(CL_INVALID_GLOBAL_WORK_SIZE, "size"); if (off) return fail(CL_INVALID_GLOBAL_OFFSET, "offset");
  std::vector<size_t> gs(3, 1); for (cl_uint d = 0; d < dim; d++) { gs[d] = g[d]; if (!g[d]) return fail(CL_INVALID_GLOBAL_WORK_SIZE, "work size of zero"); if (loc && (!loc[d] || g[d] % loc[d])) return fail(CL_INVALID_WORK_GROUP_SIZE, "work group size"); }
  for (auto& a : k->args) { if (!a.set) return fail(CL_INVALID_KERNEL_ARGS, "argument not set"); if (a.mem && !mems().count(a.mem)) return fail(CL_INVALID_MEM_OBJECT, "argument is a released buffer"); }
  auto args = k->args; auto def = k->def; void* lib = k->prog->lib; uint64_t order = item_order;
  enqueue([=] {
    size_t* gid = (size_t*)dlsym(lib, "clmock_gid"); size_t* gsz = (size_t*)dlsym(lib, "clmock_gsz"); unsigned* gd = (unsigned*)dlsym(lib, "clmock_dim"); for (int d = 0; d < 3; d++) gsz[d] = gs[d]; *gd = dim;
    uint64_t v[20] = {0}; float f[8] = {0}; int ni = 0, nf = 0; for (size_t i = 0; i < args.size(); i++) if (def.params[i].is_float) { if (nf < 8) memcpy(&f[nf++], &args[i].bits, 4); } else v[ni++] = args[i].bits;
    size_t total = gs[0] * gs[1] * gs[2]; kernels_run++; items_run += (long)total; Fn fn = (Fn)def.fn; std::vector<size_t> perm;
    if (order > 1) { perm.resize(total); uint64_t s = order * 0x9E3779B97F4A7C15ull + 1; for (size_t i = 0; i < total; i++) perm[i] = i; for (size_t i = total; i > 1; i--) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; std::swap(perm[i - 1], perm[s % i]); } }
    for (size_t n = 0; n < total; n++) { size_t i = order > 1 ? perm[n] : order ? total - 1 - n : n; gid[0] = i % gs[0]; gid[1] = i / gs[0] % gs[1]; gid[2] = i / gs[0] / gs[1];
      fn(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]); }
  });
  if (ev) *ev = &the_event; return CL_SUCCESS; }
cl_int clFinish(cl_command_queue q) { if (q != &the_queue) return fail(CL_INVALID_COMMAND_QUEUE, "queue"); drain(); return CL_SUCCESS; }
cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
cl_int clWaitForEvents(cl_uint, const cl_event*) { drain(); return CL_SUCCESS; }
cl_int clReleaseEvent(cl_event) { return CL_SUCCESS; }
cl_mem clCreateBuffer(cl_context c, cl_mem_flags fl, size_t n, void* host, cl_int* e) {
  cl_int r = CL_SUCCESS; if (c != &the_context) r = fail(CL_INVALID_CONTEXT, "context"); else if (!n) r = fail(CL_INVALID_BUFFER_SIZE, "buffer of size zero"); else if (host && !(fl & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) r = fail(CL_INVALID_HOST_PTR, "host pointer"); if (e) *e = r; if (r) return nullptr;
  auto* m = new _cl_mem; m->data = Block((char*)malloc(n), free); m->size = n; m->refs = 1; memset(m->data.get(), 0xB5, n); if (host) memcpy(m->data.get(), host, n); mems().insert(m); return m; }
cl_int clRetainMemObject(cl_mem m) { if (!mems().count(m)) return fail(CL_INVALID_MEM_OBJECT, "buffer"); m->refs++; return CL_SUCCESS; }
cl_int clReleaseMemObject(cl_mem m) { if (!mems().count(m)) return fail(CL_INVALID_MEM_OBJECT, "released twice"); if (!--m->refs) { mems().erase(m); delete m; } return CL_SUCCESS; }
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool block, size_t off, size_t n, const void* p, cl_uint, const cl_event*, cl_event* ev) {
  if (q != &the_queue) return fail(CL_INVALID_COMMAND_QUEUE, "queue"); if (!mems().count(m)) return fail(CL_INVALID_MEM_OBJECT, "buffer"); if (!p || !n || off + n > m->size) return fail(CL_INVALID_VALUE, "range of a transfer"); Block b = m->data; uploads++;
  enqueue([=] { memcpy(b.get() + off, p, n); }); if (block) drain(); if (ev) *ev = &the_event; return CL_SUCCESS; }
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool block, size_t off, size_t n, void* p, cl_uint, const cl_event*, cl_event* ev) {
  if (q != &the_queue) return fail(CL_INVALID_COMMAND_QUEUE, "queue"); if (!mems().count(m)) return fail(CL_INVALID_MEM_OBJECT, "buffer"); if (!p || !n || off + n > m->size) return fail(CL_INVALID_VALUE, "range of a transfer"); Block b = m->data; downloads++;
  enqueue([=] { memcpy(p, b.get() + off, n); }); if (block) drain(); if (ev) *ev = &the_event; return CL_SUCCESS; }
cl_int clEnqueueCopyBuffer(cl_command_queue, cl_mem s, cl_mem d, size_t so, size_t dof, size_t n, cl_uint, const cl_event*, cl_event*) {
  if (!mems().count(s) || !mems().count(d)) return fail(CL_INVALID_MEM_OBJECT, "buffer"); if (!n || so + n > s->size || dof + n > d->size) return fail(CL_INVALID_VALUE, "range of a copy"); Block a = s->data, b = d->data; enqueue([=] { memmove(b.get() + dof, a.get() + so, n); }); return CL_SUCCESS; }

static bool blas_ready = false;
clblasStatus clblasSetup(void) { blas_ready = true; return CL_SUCCESS; }
void clblasTeardown(void) { blas_ready = false; }
static bool mat(const cl_mem m, size_t off, size_t rows, size_t cols, size_t ld) { return mems().count(m) && ld >= cols && rows && cols && (off + (rows - 1) * ld + cols) * 4 <= m->size; }
clblasStatus clblasSgemm(clblasOrder o, clblasTranspose ta, clblasTranspose tb, size_t M, size_t N, size_t K, cl_float alpha, const cl_mem A, size_t oa, size_t la, const cl_mem B, size_t ob, size_t lb, cl_float beta, cl_mem C, size_t oc, size_t lc, cl_uint nq, cl_command_queue* q, cl_uint, const cl_event*, cl_event* ev) {
  if (!blas_ready) return fail(-1024, "clBLAS not set up"); if (nq != 1 || !q || q[0] != &the_queue) return fail(CL_INVALID_COMMAND_QUEUE, "queue"); bool col = o == clblasColumnMajor, tA = ta != clblasNoTrans, tB = tb != clblasNoTrans;
  auto chk = [&](cl_mem m, size_t off, size_t r, size_t c, size_t ld) { return col ? mat(m, off, c, r, ld) : mat(m, off, r, c, ld); };
  if (!chk(A, oa, tA ? K : M, tA ? M : K, la)) return fail(-1015, "matrix A of a product"); if (!chk(B, ob, tB ? N : K, tB ? K : N, lb)) return fail(-1014, "matrix B of a product"); if (!chk(C, oc, M, N, lc)) return fail(-1013, "matrix C of a product");
  Block a = A->data, b = B->data, c = C->data;
  enqueue([=] { auto ix = [&](bool t, size_t r, size_t cc, size_t ld) { if (t) std::swap(r, cc); return col ? cc * ld + r : r * ld + cc; }; const float* pa = (const float*)a.get() + oa; const float* pb = (const float*)b.get() + ob; float* pc = (float*)c.get() + oc; kernels_run++;
    for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) { float s = 0; for (size_t k = 0; k < K; k++) s += pa[ix(tA, i, k, la)] * pb[ix(tB, k, j, lb)]; float& r = pc[ix(false, i, j, lc)]; r = beta == 0 ? alpha * s : beta * r + alpha * s; } });
  if (ev) *ev = &the_event; return CL_SUCCESS; }
clblasStatus clblasSgemv(clblasOrder o, clblasTranspose ta, size_t M, size_t N, cl_float alpha, const cl_mem A, size_t oa, size_t la, const cl_mem X, size_t ox, int ix, cl_float beta, cl_mem Y, size_t oy, int iy, cl_uint nq, cl_command_queue* q, cl_uint, const cl_event*, cl_event* ev) {
  if (!blas_ready) return fail(-1024, "clBLAS not set up"); if (nq != 1 || !q || q[0] != &the_queue) return fail(CL_INVALID_COMMAND_QUEUE, "queue"); bool col = o == clblasColumnMajor, t = ta != clblasNoTrans; size_t nx = t ? M : N, ny = t ? N : M;
  if (!(col ? mat(A, oa, N, M, la) : mat(A, oa, M, N, la))) return fail(-1015, "matrix of a product"); if (ix <= 0 || iy <= 0 || !mems().count(X) || (ox + (nx - 1) * ix + 1) * 4 > X->size) return fail(-1012, "vector X"); if (!mems().count(Y) || (oy + (ny - 1) * iy + 1) * 4 > Y->size) return fail(-1011, "vector Y");
  Block a = A->data, x = X->data, y = Y->data;
  enqueue([=] { const float* pa = (const float*)a.get() + oa; const float* px = (const float*)x.get() + ox; float* py = (float*)y.get() + oy; kernels_run++; for (size_t i = 0; i < ny; i++) { float s = 0; for (size_t j = 0; j < nx; j++) { size_t r = t ? j : i, c = t ? i : j; s += pa[col ? c * la + r : r * la + c] * px[j * ix]; } float& v = py[i * iy]; v = beta == 0 ? alpha * s : beta * v + alpha * s; } });
  if (ev) *ev = &the_event; return CL_SUCCESS; }
}
