// Runs CUDA kernels on the processor: every thread of a launch is a fiber, a
// schedule decides after each access to memory which one goes on.  The
// compiler's hooks (-fsanitize=thread, without its library) report every
// access: the emulator checks that it lies in memory of the device, and keeps
// what the threads of a launch do to the same word.
#include <sys/mman.h>
#include <link.h>
#include <boost/context/detail/fcontext.hpp>
#include <deque>
#include <set>
#include <stdexcept>
#include "emu_tf.h"
#undef exit
#undef time
#undef threadIdx
namespace bc = boost::context::detail;
using namespace tensorflow;

namespace {
// ---------------------------------------------------------------- settings
struct Cfg { unsigned seed = 1; int mps = 2, blocks = 2, mode = 0; } cfg;
uint64_t rng_state = 1;
uint32_t rnd() {
  rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17;
  return (uint32_t)(rng_state >> 16);
}
struct Stop : std::runtime_error { using std::runtime_error::runtime_error; };

// ------------------------------------------------------------------ memory
bool busy = false;   // in the emulator's own code
struct Busy { bool old = busy; Busy() { busy = true; } ~Busy() { busy = old; } };
const size_t ARENA = (size_t)2 << 30;
char* base; uint8_t* kindof; uint32_t* heads; uint8_t* written;
size_t top = 64, high = 0;
enum { NONE = 0, DEV = 1, PINNED = 2, HOST = 3, INPUT = 4, SHARED = 16 };
std::map<size_t, std::string> labels;
struct Ent { uint32_t next; uint16_t thr, phase; uint8_t kind; };
std::vector<Ent> ents;
std::vector<uint32_t> touched;
std::vector<std::string> faults;
std::set<std::string> fault_seen;
std::string kernel_now;
void fault(const std::string& s) {
  if (faults.size() < 40 && fault_seen.insert(s).second) faults.push_back(s);
}
void* anon(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) abort();
  return p;
}
void init() {
  if (base) return;
  base = (char*)anon(ARENA); kindof = (uint8_t*)anon(ARENA / 4);
  written = (uint8_t*)anon(ARENA / 4); heads = (uint32_t*)anon(ARENA);
}
void* allocate(size_t bytes, int kind, const std::string& label, bool garbage = true) {
  init();
  size_t at = (top + 255) / 256 * 256 + 256, n = (bytes + 3) / 4;
  if (at + n * 4 + 256 > ARENA) throw Stop("out of memory");
  memset(kindof + at / 4, kind, n);
  if (garbage) for (size_t i = 0; i < n; i++) ((uint32_t*)(base + at))[i] = rnd() * 2654435761u + rnd();
  top = at + n * 4;
  high = std::max(high, top);
  labels[at] = label;
  return base + at;
}
void reset_memory() {
  init();
  memset(kindof, 0, (high + 4096) / 4);
  memset(written, 0, (high + 4096) / 4);
  top = 64; labels.clear();
}
std::string where(const void* p) {
  size_t a = (const char*)p - base;
  auto it = labels.upper_bound(a);
  if (it == labels.begin()) return "nowhere";
  --it;
  return it->second;
}
bool in_arena(const void* p) { return (const char*)p >= base && (const char*)p < base + ARENA; }

// ----------------------------------------------------------------- threads
struct Fiber : emu::Thread {
  int id, block; unsigned phase = 0; int state = 0;  // 0 ready, 1 at a barrier, 2 done
  int line = 0; bc::fcontext_t ctx = nullptr; char* stack = nullptr; unsigned prio = 0;
  std::map<std::string, void*> vars;
};
const size_t STACK = 64 << 10;
std::vector<char*> stacks;
struct Block { int live = 0, waiting = 0; void* dyn = nullptr; std::map<std::string, void*> vars; };
std::vector<Fiber> fibers;
std::vector<Block> blocks;
void (*body)(void*);
void* args_at; size_t args_size;
size_t shared_size;
Fiber* now;
bc::fcontext_t home;
int quantum;
std::vector<std::pair<uintptr_t, uintptr_t>> image;
int image_cb(struct dl_phdr_info* i, size_t, void*) {
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_LOAD)
      image.push_back({i->dlpi_addr + i->dlpi_phdr[k].p_vaddr,
                       i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz});
  return 0;
}
void to_home() { auto t = bc::jump_fcontext(home, nullptr); home = t.fctx; }
// whether another thread goes on here
void maybe_switch(bool atomic) {
  switch (cfg.mode) {
    case 0: case 1: return;                              // one thread after the other
    case 2: if (rnd() % 8) return; break;                // anything
    case 3: if (rnd() % 200) return; now->prio = rnd() % 16; break;  // priorities that drop
    case 4: if (!atomic || rnd() % 2) return; break;     // around atomic operations
    default: break;                                      // in lock step
  }
  to_home();
}
void record(size_t g, int kind) {
  uint32_t h = heads[g];
  if (!h) touched.push_back(g);
  int n = 0, mine = 0;
  for (uint32_t e = h; e; e = ents[e].next, n++) {
    Ent& x = ents[e];
    if (x.thr == now->id && x.kind == kind) {
      if (x.phase == now->phase) return;
      mine = e;
    }
  }
  if (n >= 64) {                 // keep the newest access of each thread
    uint32_t e = mine;
    if (!e) for (int k = rnd() % 60, i = 0, f = h; f; f = ents[f].next, i++)
      if (i >= k && (ents[f].kind == 0 || kind != 0)) { e = f; break; }
    if (e) { ents[e].thr = now->id; ents[e].phase = now->phase; ents[e].kind = kind; }
    return;
  }
  ents.push_back(Ent{h, (uint16_t)now->id, (uint16_t)now->phase, (uint8_t)kind});
  heads[g] = ents.size() - 1;
}
const char* KINDS[] = {"reads", "writes", "updates"};
void access(const void* p, size_t size, int kind) {
  if (busy) return;
  if (!now) {
    if (base && in_arena(p)) {
      int k = kindof[((const char*)p - base) / 4];
      if (k != PINNED && k != HOST)
        fault("the host " + std::string(KINDS[kind]) + " " + where(p) + (k == NONE ? " outside its bounds" : ""));
    }
    return;
  }
  if (in_arena(p)) {
    size_t a = (const char*)p - base;
    for (size_t g = a / 4; g <= (a + size - 1) / 4; g++) {
      int k = kindof[g];
      if (k == NONE) {
        char t[64]; snprintf(t, sizeof t, "%+ld", (long)(g * 4 - (labels.empty() ? 0 : std::prev(labels.upper_bound(g * 4))->first)));
        fault(kernel_now + " " + KINDS[kind] + " outside of " + where(p));
        if (kind) throw Stop(kernel_now + " writes outside of the memory of the device");
      } else if (k == PINNED || k == HOST) fault(kernel_now + " " + KINDS[kind] + " memory of the host, " + where(p));
      else if (k == INPUT && kind) fault(kernel_now + " " + KINDS[kind] + " its input, " + where(p));
      else if (k >= SHARED && k - SHARED != now->block) fault(kernel_now + " " + KINDS[kind] + " the shared memory of another block");
      if (kind) written[g] = 1;
      if (k != INPUT) record(g, kind);
    }
    maybe_switch(kind == 2);
    return;
  }
  const char* c = (const char*)p;
  if (c >= now->stack && c < now->stack + STACK) return;
  if (!fibers.empty() && c >= (const char*)now && c < (const char*)(now + 1)) return;
  if (c >= (const char*)args_at && c < (const char*)args_at + args_size) return;
  if (!kind) {
    if (image.empty()) dl_iterate_phdr(image_cb, nullptr);
    for (auto& r : image) if ((uintptr_t)p >= r.first && (uintptr_t)p < r.second) return;
  }
  fault(kernel_now + " " + KINDS[kind] + " memory that is not of the device");
  if (kind) throw Stop(kernel_now + " writes outside of the memory of the device");
}
std::exception_ptr failed;
void fiber_main(bc::transfer_t t) {
  home = t.fctx;
  Fiber* me = now;
  try { body(args_at); } catch (...) { failed = std::current_exception(); }
  me->state = 2;
  to_home();
  abort();
}
struct Launch { std::string name; unsigned grid, block; std::vector<std::string> words; long shared_words, conflicts; };
std::vector<Launch> launches;
bool conflict(const Ent& a, const Ent& b) {
  if (a.thr == b.thr) return false;
  if ((a.kind == 0 && b.kind == 0) || (a.kind == 2 && b.kind == 2)) return false;
  return fibers[a.thr].block != fibers[b.thr].block || a.phase == b.phase;
}
void release(Block& b, int bi) {
  int line = -1;
  for (auto& f : fibers) if (f.block == bi && f.state == 1) {
    if (line >= 0 && line != f.line) fault(kernel_now + " lets threads of a block wait at different barriers");
    line = f.line;
    f.state = 0; f.phase++;
  }
  b.waiting = 0;
}
void run(const char* name, dim3 grid, dim3 block, size_t shared) {
  kernel_now = name;
  unsigned nb = grid.x * grid.y * grid.z, nt = block.x * block.y * block.z;
  size_t top0 = top;
  auto labels0 = labels;
  fibers.assign((size_t)nb * nt, Fiber());
  blocks.assign(nb, Block());
  shared_size = shared;
  ents.assign(1, Ent{0, 0, 0, 0}); touched.clear();
  while (stacks.size() < fibers.size()) stacks.push_back((char*)anon(STACK));
  std::vector<int> ready;
  for (unsigned i = 0; i < fibers.size(); i++) {
    Fiber& f = fibers[i];
    unsigned b = i / nt, t = i % nt;
    f.id = i; f.block = b; f.bdim = block; f.gdim = grid;
    f.tid = dim3(t % block.x, t / block.x % block.y, t / block.x / block.y);
    f.bid = dim3(b % grid.x, b / grid.x % grid.y, b / grid.x / grid.y);
    f.stack = stacks[i];
    f.ctx = bc::make_fcontext(f.stack + STACK - 64, STACK - 64, fiber_main);
    f.prio = rnd() % 1024 + 16;
    blocks[b].live++;
  }
  failed = nullptr;
  size_t left = fibers.size();
  unsigned next = 0;
  size_t n = fibers.size();
  while (left && !failed) {
    int pick = -1;
    if (cfg.mode == 1) { for (size_t i = n; i-- > 0;) if (fibers[i].state == 0) { pick = i; break; } }
    else if (cfg.mode == 3) {
      for (size_t i = 0; i < n; i++) if (fibers[i].state == 0 && (pick < 0 || fibers[i].prio > fibers[pick].prio)) pick = i;
    } else {
      unsigned from = cfg.mode == 0 ? 0 : cfg.mode == 5 ? next : rnd() % n;
      for (size_t k = 0; k < n; k++) if (fibers[(from + k) % n].state == 0) { pick = (from + k) % n; break; }
      next = pick + 1;
    }
    if (pick < 0) { fault(kernel_now + " deadlocks"); throw Stop(kernel_now + " deadlocks"); }
    now = &fibers[pick];
    emu::cur = now;
    Fiber* f = now;
    auto t = bc::jump_fcontext(f->ctx, nullptr);
    f->ctx = t.fctx;
    now = nullptr; emu::cur = nullptr;
    if (f->state) {
      Block& b = blocks[f->block];
      if (f->state == 2) { left--; b.live--; }
      else b.waiting++;
      if (b.waiting && b.waiting == b.live) release(b, f->block);
    }
  }
  if (!failed) {
    Launch l{name, nb, nt, {}, 0, 0};
    std::vector<uint32_t> multi, bad;
    for (uint32_t g : touched) {
      bool w = false, two = false, c = false;
      for (uint32_t e = heads[g]; e; e = ents[e].next) {
        w = w || ents[e].kind; two = two || ents[e].thr != ents[heads[g]].thr;
      }
      if (!w || !two) continue;
      for (uint32_t e = heads[g]; e && !c; e = ents[e].next)
        for (uint32_t f = ents[e].next; f && !c; f = ents[f].next) c = conflict(ents[e], ents[f]);
      (c ? bad : multi).push_back(g);
    }
    l.shared_words = multi.size() + bad.size(); l.conflicts = bad.size();
    for (int k = 0; k < 3 && !multi.empty(); k++) bad.push_back(multi[rnd() % multi.size()]);
    if (bad.size() > 6) bad.resize(6);
    for (uint32_t g : bad) {
      std::vector<Ent> v;
      for (uint32_t e = heads[g]; e; e = ents[e].next) v.push_back(ents[e]);
      // a conflicting pair first
      for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++)
        if (conflict(v[i], v[j])) { std::swap(v[0], v[i]); std::swap(v[1], v[j]); i = j = v.size(); }
      std::ostringstream s;
      s << "{\"at\":\"" << where(base + (size_t)g * 4) << "\",\"acc\":[";
      for (size_t i = 0; i < v.size() && i < 12; i++)
        s << (i ? "," : "") << "[" << v[i].thr << "," << fibers[v[i].thr].block << "," << v[i].phase << "," << (int)v[i].kind << "]";
      s << "]}";
      l.words.push_back(s.str());
    }
    launches.push_back(l);
  }
  for (uint32_t g : touched) heads[g] = 0;
  memset(kindof + top0 / 4, 0, (top - top0) / 4 + 1);
  memset(kindof + top0 / 4 - (top0 / 4 ? 1 : 0), kindof[top0 / 4 - 1], 1);
  top = top0; labels = labels0;
  if (failed) { auto e = failed; failed = nullptr; std::rethrow_exception(e); }
}

// ------------------------------------------------------------------ stream
std::deque<std::function<void()>> queue;
void drain() { while (!queue.empty()) { auto f = queue.front(); queue.pop_front(); f(); } }
void enqueue(std::function<void()> f) {
  queue.push_back(f);
  if (rnd() % 3 == 0) drain();
}
cudaError_t last_error = cudaSuccess;
void range_is(const void* p, size_t n, bool device, bool writes, const char* what) {
  if (!n) return;
  if (!in_arena(p)) { if (device) fault(std::string(what) + " of memory that is not of the device"); return; }
  size_t a = (const char*)p - base;
  for (size_t g = a / 4; g <= (a + n - 1) / 4; g++) {
    int k = kindof[g];
    bool ok = device ? (k == DEV || (k == INPUT && !writes)) : (k == PINNED || k == HOST);
    if (!ok) { fault(std::string(what) + " outside of " + where(p)); if (writes) throw Stop(std::string(what) + " outside of " + where(p)); return; }
    if (writes) written[g] = 1;
  }
}
}  // namespace

namespace emu {
Thread* cur = nullptr;
void barrier(int line) {
  now->state = 1; now->line = line;
  to_home();
}
void fence() { if (now) maybe_switch(true); }
void* shared_dyn() {
  Busy own;
  Block& b = blocks[now->block];
  if (!b.dyn) b.dyn = allocate(shared_size, SHARED + now->block, "shared memory");
  return b.dyn;
}
void* shared_var(const char* name, size_t size) {
  Busy own;
  Block& b = blocks[now->block];
  void*& p = b.vars[name];
  if (!p) p = allocate(size, SHARED + now->block, std::string("shared ") + name);
  return p;
}
void launch_(const char* name, dim3 grid, dim3 block, size_t shared, cudaStream_t,
             void (*f)(void*), std::shared_ptr<void> pack, size_t size) {
  unsigned long nb = (unsigned long)grid.x * grid.y * grid.z, nt = (unsigned long)block.x * block.y * block.z;
  if (!nb || !nt || nt > 1024 || shared > 49152 || grid.x > 2147483647u) { last_error = cudaErrorInvalidConfiguration; return; }
  if (nb > 200 || nb * nt > 60000) throw Stop("more blocks than the device holds at once");
  enqueue([=]() { body = f; args_at = pack.get(); args_size = size; run(name, grid, block, shared); });
}
long clock_() { return rnd(); }
void stop(int code) { throw Stop("the process exits with " + std::to_string(code)); }
}  // namespace emu

cudaError_t cudaGetDevice(int* d) { *d = 0; return cudaSuccess; }
cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int) {
  memset(p, 0, sizeof *p);
  p->warpSize = 32; p->multiProcessorCount = cfg.mps; p->maxThreadsPerBlock = 1024;
  p->maxThreadsPerMultiProcessor = 2048; p->regsPerBlock = 65536; p->regsPerMultiprocessor = 65536;
  p->major = 7; p->minor = 5; p->sharedMemPerBlock = 49152; p->sharedMemPerMultiprocessor = 65536;
  p->maxGridSize[0] = 2147483647; p->maxGridSize[1] = p->maxGridSize[2] = 65535;
  p->maxThreadsDim[0] = p->maxThreadsDim[1] = 1024; p->maxThreadsDim[2] = 64;
  return cudaSuccess;
}
cudaError_t emu_occupancy(int* n, const void*, int, size_t) { *n = cfg.blocks; return cudaSuccess; }
cudaError_t cudaMemsetAsync(void* p, int v, size_t n, cudaStream_t) {
  enqueue([=]() { range_is(p, n, true, true, "a memset"); memset(p, v, n); });
  return cudaSuccess;
}
cudaError_t cudaMemset(void* p, int v, size_t n) { cudaMemsetAsync(p, v, n); drain(); return cudaSuccess; }
cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t) {
  enqueue([=]() {
    range_is(d, n, k == cudaMemcpyHostToDevice || k == cudaMemcpyDeviceToDevice, true, "a copy");
    range_is(s, n, k == cudaMemcpyDeviceToHost || k == cudaMemcpyDeviceToDevice, false, "a copy");
    memmove(d, s, n);
  });
  return cudaSuccess;
}
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { cudaMemcpyAsync(d, s, n, k); drain(); return cudaSuccess; }
cudaError_t cudaMemcpyToSymbolAsync(const void* d, const void* s, size_t n, size_t o, cudaMemcpyKind, cudaStream_t) {
  enqueue([=]() { memmove((char*)d + o, s, n); });
  return cudaSuccess;
}
cudaError_t cudaPeekAtLastError() { return last_error; }
cudaError_t cudaGetLastError() { auto e = last_error; last_error = cudaSuccess; return e; }
const char* cudaGetErrorString(cudaError_t e) { return e == cudaSuccess ? "no error" : "invalid configuration argument"; }
cudaError_t cudaEventCreate(cudaEvent_t* e) { *e = nullptr; return cudaSuccess; }
cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t) { return cudaSuccess; }
cudaError_t cudaEventSynchronize(cudaEvent_t) { drain(); return cudaSuccess; }
cudaError_t cudaEventElapsedTime(float* f, cudaEvent_t, cudaEvent_t) { *f = 0; return cudaSuccess; }
cudaError_t cudaStreamSynchronize(cudaStream_t) { drain(); return cudaSuccess; }
cudaError_t cudaDeviceSynchronize() { drain(); return cudaSuccess; }

namespace {
template <class T, class F> T rmw(T* p, F f) {
  access(p, sizeof(T), 2);
  T old = *p;
  *p = f(old);
  return old;
}
}  // namespace
#define ATOMICS(T)                                                            \
  T atomicAdd(T* p, T v) { return rmw(p, [=](T o) { return (T)(o + v); }); }  \
  T atomicExch(T* p, T v) { return rmw(p, [=](T) { return v; }); }            \
  T atomicMax(T* p, T v) { return rmw(p, [=](T o) { return o > v ? o : v; }); } \
  T atomicMin(T* p, T v) { return rmw(p, [=](T o) { return o < v ? o : v; }); } \
  T atomicCAS(T* p, T c, T v) { return rmw(p, [=](T o) { return o == c ? v : o; }); }
ATOMICS(int)
ATOMICS(unsigned)
ATOMICS(unsigned long long)
int atomicSub(int* p, int v) { return rmw(p, [=](int o) { return o - v; }); }
unsigned atomicSub(unsigned* p, unsigned v) { return rmw(p, [=](unsigned o) { return o - v; }); }
int atomicOr(int* p, int v) { return rmw(p, [=](int o) { return o | v; }); }
int atomicAnd(int* p, int v) { return rmw(p, [=](int o) { return o & v; }); }
unsigned atomicOr(unsigned* p, unsigned v) { return rmw(p, [=](unsigned o) { return o | v; }); }
unsigned atomicAnd(unsigned* p, unsigned v) { return rmw(p, [=](unsigned o) { return o & v; }); }
float atomicAdd(float* p, float v) { return rmw(p, [=](float o) { return o + v; }); }
double atomicAdd(double* p, double v) { return rmw(p, [=](double o) { return o + v; }); }
float atomicExch(float* p, float v) { return rmw(p, [=](float) { return v; }); }

// the compiler's hooks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define HOOK(N)                                                               \
  void __tsan_read##N(void* p) { access(p, N, 0); }                           \
  void __tsan_write##N(void* p) { access(p, N, 1); }                          \
  void __tsan_unaligned_read##N(void* p) { access(p, N, 0); }                 \
  void __tsan_unaligned_write##N(void* p) { access(p, N, 1); }                \
  void __tsan_volatile_read##N(void* p) { access(p, N, 0); }                  \
  void __tsan_volatile_write##N(void* p) { access(p, N, 1); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) access(p, n, 0); }
void __tsan_write_range(void* p, unsigned long n) { if (n) access(p, n, 1); }
int __tsan_atomic32_fetch_add(volatile int* p, int v, int) { int o = *p; *p = o + v; return o; }
int __tsan_atomic32_load(const volatile int* p, int) { return *p; }
char __tsan_atomic8_load(const volatile char* p, int) { return *p; }
}

// -------------------------------------------------------------- operations
namespace tensorflow {
namespace emu_tf { void check_failed(const std::string& s) { throw Stop(s); } }
int64 TensorShape::dim_size(int i) const {
  if (i < 0 || i >= dims()) emu_tf::check_failed("dimension out of range");
  return d_[i];
}
Status OpKernelConstruction::GetAttr(const char* n, int* v) {
  auto a = attrs.find(n);
  if (a == attrs.end()) return errors::InvalidArgument("no attribute ", n);
  *v = a->second;
  return Status::OK();
}
const Tensor& OpKernelContext::input(int i) {
  if (i < 0 || i >= (int)in.size()) emu_tf::check_failed("input out of range");
  return in[i];
}
static size_t width(DataType t) { return t == DT_INT64 || t == DT_DOUBLE ? 8 : 4; }
static std::map<std::string, OpDef>& ops() { static std::map<std::string, OpDef> m; return m; }
struct K { KernelDefBuilder b; std::function<OpKernel*(OpKernelConstruction*)> f; };
static std::map<std::string, K>& kernels() { static std::map<std::string, K> m; return m; }
OpReg::OpReg(const OpDefBuilder& b) { ops()[b.d.name] = b.d; }
KernelReg::KernelReg(const KernelDefBuilder& b, std::function<OpKernel*(OpKernelConstruction*)> f) {
  if (b.dev == "GPU") kernels().insert({b.name, K{b, f}});
}
static DataType type_of(const std::string& s) {
  std::string t = s.substr(s.find(':') + 1);
  t.erase(0, t.find_first_not_of(' '));
  t.erase(t.find_last_not_of(' ') + 1);
  return t == "float32" || t == "float" ? DT_FLOAT : t == "int32" ? DT_INT32 : t == "int64" ? DT_INT64 : t == "double" ? DT_DOUBLE : DT_INVALID;
}
static std::string name_of(const std::string& s) {
  std::string t = s.substr(0, s.find(':'));
  t.erase(0, t.find_first_not_of(' '));
  t.erase(t.find_last_not_of(' ') + 1);
  return t;
}
static std::vector<std::pair<std::string, OpDef*>> defs;
static const OpDef* running;
Status OpKernelContext::allocate_output(int i, const TensorShape& s, Tensor** t) {
  if (i < 0 || i >= (int)out.size()) emu_tf::check_failed("output out of range");
  for (auto d : s.d()) if (d < 0) emu_tf::check_failed("a negative dimension");
  out[i].shape_ = s;
  out[i].type_ = type_of(running->out[i]);
  out[i].data_ = allocate(s.num_elements() * width(out[i].type_), DEV, name_of(running->out[i]));
  *t = &out[i];
  return Status::OK();
}
Status OpKernelContext::allocate_temp(DataType t, const TensorShape& s, Tensor* o, AllocatorAttributes a) {
  for (auto d : s.d()) if (d < 0) emu_tf::check_failed("a negative dimension");
  o->shape_ = s; o->type_ = t;
  o->data_ = allocate(s.num_elements() * width(t), a.host ? PINNED : DEV, "a temporary buffer");
  return Status::OK();
}
Status OpKernelContext::allocate_temp(DataType t, const TensorShape& s, Tensor* o) { return allocate_temp(t, s, o, AllocatorAttributes()); }
}  // namespace tensorflow

static std::string text, error_text;
static OpKernelContext* ctx = nullptr;
static void quoted(std::ostringstream& o, const std::string& s) {
  o << '"';
  for (char c : s) { if (c == '"' || c == '\\') o << '\\'; o << (c < ' ' ? ' ' : c); }
  o << '"';
}
extern "C" {
const char* emu_ops() {
  std::ostringstream o;
  o << "{";
  bool first = true;
  for (auto& p : ops()) {
    o << (first ? "" : ","); first = false;
    quoted(o, p.first); o << ":{";
    const char* names[] = {"in", "out", "attr"};
    std::vector<std::string>* lists[] = {&p.second.in, &p.second.out, &p.second.attr};
    for (int k = 0; k < 3; k++) {
      o << (k ? "," : ""); quoted(o, names[k]); o << ":[";
      for (size_t i = 0; i < lists[k]->size(); i++) { o << (i ? "," : ""); quoted(o, (*lists[k])[i]); }
      o << "]";
    }
    o << "}";
  }
  o << "}";
  text = o.str();
  return text.c_str();
}
void emu_config(unsigned seed, int mps, int blocks, int mode) {
  cfg = Cfg{seed, mps, blocks, mode};
  rng_state = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  for (int i = 0; i < 8; i++) rnd();
}
const char* emu_error() { return error_text.c_str(); }
// runs an operation; 0: done, 1: the operation refuses its inputs, 2: it crashes
int emu_call(const char* name, int n, void** data, const int* ndims, const long* dims,
             int nattr, const char** an, const int* av) {
  delete ctx; ctx = nullptr;
  error_text = ""; faults.clear(); fault_seen.clear(); launches.clear(); queue.clear();
  last_error = cudaSuccess; now = nullptr; emu::cur = nullptr;
  reset_memory();
  auto d = ops().find(name);
  auto k = kernels().find(name);
  if (d == ops().end() || k == kernels().end()) { error_text = "no such operation"; return 2; }
  running = &d->second;
  int result = 0;
  try {
    ctx = new OpKernelContext;
    OpKernelConstruction c;
    shape_inference::InferenceContext ic;
    for (int i = 0; i < nattr; i++) c.attrs[an[i]] = ic.attrs[an[i]] = av[i];
    for (int i = 0; i < n; i++) {
      Tensor t;
      t.type_ = type_of(running->in[i]);
      shape_inference::ShapeHandle h; h.known = true;
      for (int j = 0; j < ndims[i]; j++) { t.shape_.AddDim(*dims); h.d.push_back(*dims++); }
      bool host = false;
      for (auto& s : k->second.b.host) host = host || s == name_of(running->in[i]);
      size_t bytes = t.NumElements() * width(t.type_);
      t.data_ = allocate(bytes, host ? HOST : INPUT, name_of(running->in[i]));
      memcpy(t.data_, data[i], bytes);
      ctx->in.push_back(t);
      ic.in.push_back(h);
    }
    ctx->out.resize(running->out.size());
    std::unique_ptr<OpKernel> op(k->second.f(&c));
    if (!c.st.ok()) { error_text = c.st.error_message(); return 1; }
    op->Compute(ctx);
    drain();
    if (!ctx->st.ok()) { error_text = ctx->st.error_message(); return 1; }
    for (size_t i = 0; i < ctx->out.size(); i++) {
      Tensor& t = ctx->out[i];
      if (!t.data_) { fault(name_of(running->out[i]) + " is not allocated"); error_text = "no output"; return 2; }
      size_t bytes = t.NumElements() * width(t.type_), g0 = ((char*)t.data_ - base) / 4, un = 0;
      for (size_t g = g0; g < g0 + bytes / 4; g++) un += !written[g];
      if (un) fault(name_of(running->out[i]) + " is not written completely");
    }
    // the announced shapes: with the shapes of the inputs known, known up to
    // their first dimension, and not known at all
    for (int know = 0; know < 3 && running->shape; know++) {
      shape_inference::InferenceContext jc = ic;
      for (auto& h : jc.in) {
        if (know == 1 && !h.d.empty()) h.d[0] = -1;
        if (know == 2) h = shape_inference::ShapeHandle();
      }
      Status s = running->shape(&jc);
      if (!s.ok()) fault("the shape function fails: " + s.error_message());
      if (jc.out.size() > ctx->out.size()) fault("a shape is announced for no output");
      for (size_t i = 0; i < ctx->out.size(); i++) {
        if (i >= jc.out.size() || !jc.out[i].set) {
          fault("no shape is announced for " + name_of(running->out[i]));
          continue;
        }
        auto& sh = ctx->out[i].shape_.d();
        if (!jc.out[i].known) continue;
        bool same = sh.size() == jc.out[i].d.size();
        for (size_t j = 0; same && j < sh.size(); j++) same = jc.out[i].d[j] == -1 || jc.out[i].d[j] == sh[j];
        if (!same) fault(name_of(running->out[i]) + " is not of the announced shape");
      }
    }
  } catch (std::exception& e) {
    now = nullptr; emu::cur = nullptr; queue.clear();
    for (uint32_t g : touched) heads[g] = 0;
    touched.clear();
    error_text = e.what();
    result = 2;
  }
  return result;
}
void* emu_output(int i, int* type, int* nd, long* dims) {
  Tensor& t = ctx->out.at(i);
  *type = t.type_;
  *nd = t.dims();
  for (int j = 0; j < t.dims(); j++) dims[j] = t.shape_.d()[j];
  return t.data_;
}
const char* emu_log() {
  std::ostringstream o;
  o << "{\"faults\":[";
  for (size_t i = 0; i < faults.size(); i++) { o << (i ? "," : ""); quoted(o, faults[i]); }
  o << "],\"launches\":[";
  for (size_t i = 0; i < launches.size(); i++) {
    auto& l = launches[i];
    o << (i ? "," : "") << "{\"name\":"; quoted(o, l.name);
    o << ",\"grid\":" << l.grid << ",\"block\":" << l.block << ",\"shared\":" << l.shared_words
      << ",\"conflicts\":" << l.conflicts << ",\"words\":[";
    for (size_t j = 0; j < l.words.size(); j++) o << (j ? "," : "") << l.words[j];
    o << "]}";
  }
  o << "]}";
  text = o.str();
  return text.c_str();
}
}
