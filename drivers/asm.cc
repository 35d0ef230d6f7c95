// Emits every inline-assembly statement of the library: "inline" is removed so
// that every non-template function is emitted, and every kernel class found by
// the checker (VP_KERNELS) has its Run() called.
#include <algorithm>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <vector>
#include <pthread.h>
#include <unistd.h>
#ifdef __ARM_NEON
#include <arm_neon.h>
#endif
#ifdef __SSE4_1__
#include <immintrin.h>
#endif
#ifdef __mips_msa
#include <msa.h>
#endif
#define inline
#include "public/gemmlowp.h"
#ifdef GEMMLOWP_NEON
#define GEMMLOWP_USE_META_FASTPATH
#include "meta/base.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/transform_kernels.h"
#include "meta/streams.h"
#include "meta/single_thread_gemm.h"
#include "meta/multi_thread_gemm.h"
#include "meta/single_thread_transform.h"
#include "meta/multi_thread_transform.h"
#include "meta/legacy_multi_thread_gemm.h"
#endif
#undef inline
using namespace gemmlowp;
#ifndef VP_KERNELS
#define VP_KERNELS(X)
#endif
#define VP_RUN(K)                                                                   \
  extern "C" void vp_kernel_##K(K* k, std::int32_t* dst, std::size_t rs,            \
                                std::size_t cs, const std::uint8_t* l,              \
                                const std::uint8_t* r, std::size_t s, std::size_t d) { \
    k->K::Run(dst, rs, cs, l, r, s, d);                                             \
  }
VP_KERNELS(VP_RUN)
