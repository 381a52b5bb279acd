// The parts of CUDA's language and runtime the kernels use, for the emulator in
// gpu/emu.cpp: threads are fibers, and every launch, copy and memory access
// goes through it.
#pragma once
#include <cmath>
#include <math.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <time.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#define __global__
#define __device__
#define __host__
#define __noinline__ __attribute__((noinline))
#define __forceinline__ inline
#define __constant__ static
#define __launch_bounds__(...)

struct dim3 {
  unsigned x, y, z;
  dim3(unsigned x_ = 1, unsigned y_ = 1, unsigned z_ = 1) : x(x_), y(y_), z(z_) {}
};
struct uint3 { unsigned x, y, z; };
#define EMU_VEC(T, N)                                                         \
  struct N##2 { T x, y; };                                                    \
  struct N##3 { T x, y, z; };                                                 \
  struct N##4 { T x, y, z, w; };                                              \
  inline N##2 make_##N##2(T x, T y) { return N##2{x, y}; }                    \
  inline N##3 make_##N##3(T x, T y, T z) { return N##3{x, y, z}; }            \
  inline N##4 make_##N##4(T x, T y, T z, T w) { return N##4{x, y, z, w}; }
EMU_VEC(int, int)
EMU_VEC(float, float)
EMU_VEC(double, double)
struct uint2 { unsigned x, y; };
inline uint2 make_uint2(unsigned x, unsigned y) { return uint2{x, y}; }

typedef struct EmuStream* cudaStream_t;
typedef struct EmuEvent* cudaEvent_t;
enum cudaError_t { cudaSuccess = 0, cudaErrorInvalidValue = 1,
                   cudaErrorInvalidConfiguration = 9, cudaErrorLaunchFailure = 719 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice,
                      cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice,
                      cudaMemcpyDefault };
struct cudaDeviceProp {
  int warpSize, multiProcessorCount, maxThreadsPerBlock,
      maxThreadsPerMultiProcessor, regsPerBlock, regsPerMultiprocessor, major,
      minor, maxGridSize[3], maxThreadsDim[3];
  size_t sharedMemPerBlock, sharedMemPerMultiprocessor, totalGlobalMem;
  char name[256];
};
cudaError_t cudaGetDevice(int*);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaMemsetAsync(void*, int, size_t, cudaStream_t = nullptr);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaMemcpyAsync(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemcpyToSymbolAsync(const void*, const void*, size_t, size_t, cudaMemcpyKind, cudaStream_t = nullptr);
cudaError_t emu_occupancy(int*, const void*, int, size_t);
template <class F>
inline cudaError_t cudaOccupancyMaxActiveBlocksPerMultiprocessor(int* n, F f, int b, size_t s) {
  return emu_occupancy(n, (const void*)f, b, s);
}
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetLastError();
const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaEventCreate(cudaEvent_t*);
cudaError_t cudaEventDestroy(cudaEvent_t);
cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t cudaEventElapsedTime(float*, cudaEvent_t, cudaEvent_t);
cudaError_t cudaStreamSynchronize(cudaStream_t);
cudaError_t cudaDeviceSynchronize();

namespace emu {
struct Thread { dim3 tid, bid, bdim, gdim; };
extern Thread* cur;
void barrier(int line);
void fence();
void* shared_dyn();
void* shared_var(const char* name, size_t size);
void launch_(const char* name, dim3 grid, dim3 block, size_t shared,
             cudaStream_t stream, void (*body)(void*),
             std::shared_ptr<void> pack, size_t size);
template <class F, class... A>
struct Pack {
  F f;
  std::tuple<A...> t;
  static void call(void* p) { std::apply(((Pack*)p)->f, ((Pack*)p)->t); }
};
template <class F, class... A>
void launch(const char* name, dim3 grid, dim3 block, size_t shared,
            cudaStream_t stream, F f, A... a) {
  typedef Pack<F, A...> P;
  launch_(name, grid, block, shared, stream, &P::call,
          std::make_shared<P>(P{f, std::tuple<A...>(a...)}), sizeof(P));
}
template <class F, class... A>
void launch(const char* name, dim3 grid, dim3 block, size_t shared, int stream, F f, A... a) {
  launch(name, grid, block, shared, (cudaStream_t) nullptr, f, a...);
}
long clock_();
[[noreturn]] void stop(int code);
}  // namespace emu
#define threadIdx (emu::cur->tid)
#define blockIdx (emu::cur->bid)
#define blockDim (emu::cur->bdim)
#define gridDim (emu::cur->gdim)
static const int warpSize = 32;
#define __syncthreads() emu::barrier(__LINE__)
inline void __threadfence() { emu::fence(); }
inline void __threadfence_block() { emu::fence(); }
inline void __syncwarp(unsigned = 0) { emu::fence(); }
#define time(x) emu::clock_()
#define exit(x) emu::stop(x)

#define EMU_ATOMIC(T)                                                         \
  T atomicAdd(T*, T);                                                         \
  T atomicExch(T*, T);                                                        \
  T atomicMax(T*, T);                                                         \
  T atomicMin(T*, T);                                                         \
  T atomicCAS(T*, T, T);
EMU_ATOMIC(int)
EMU_ATOMIC(unsigned)
EMU_ATOMIC(unsigned long long)
int atomicSub(int*, int);
unsigned atomicSub(unsigned*, unsigned);
int atomicOr(int*, int);
int atomicAnd(int*, int);
unsigned atomicOr(unsigned*, unsigned);
unsigned atomicAnd(unsigned*, unsigned);
float atomicAdd(float*, float);
double atomicAdd(double*, double);
float atomicExch(float*, float);

template <class T> inline T __ldg(const T* p) { return *p; }
inline int __float_as_int(float f) { int i; memcpy(&i, &f, 4); return i; }
inline float __int_as_float(int i) { float f; memcpy(&f, &i, 4); return f; }
inline unsigned __float_as_uint(float f) { unsigned i; memcpy(&i, &f, 4); return i; }
inline float __uint_as_float(unsigned i) { float f; memcpy(&f, &i, 4); return f; }
inline int __mul24(int a, int b) { return a * b; }
inline float __fdividef(float a, float b) { return a / b; }
inline float __expf(float a) { return ::expf(a); }
inline float rsqrtf(float a) { return 1.0f / ::sqrtf(a); }
inline float __fsqrt_rn(float a) { return ::sqrtf(a); }
inline float __saturatef(float a) { return a < 0 ? 0 : a > 1 ? 1 : a; }
#define EMU_MINMAX(A, B, R)                                                   \
  inline R min(A a, B b) { return (R)a < (R)b ? (R)a : (R)b; }                \
  inline R max(A a, B b) { return (R)a > (R)b ? (R)a : (R)b; }
EMU_MINMAX(int, int, int)
EMU_MINMAX(unsigned, unsigned, unsigned)
EMU_MINMAX(int, unsigned, unsigned)
EMU_MINMAX(unsigned, int, unsigned)
EMU_MINMAX(long, long, long)
EMU_MINMAX(long long, long long, long long)
EMU_MINMAX(unsigned long, unsigned long, unsigned long)
EMU_MINMAX(unsigned long long, unsigned long long, unsigned long long)
EMU_MINMAX(float, float, float)
EMU_MINMAX(double, double, double)
EMU_MINMAX(float, double, double)
EMU_MINMAX(double, float, double)
