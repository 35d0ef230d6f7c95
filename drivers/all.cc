// Every header of the library (used for facts about declarations; nothing is
// instantiated).
#include "public/gemmlowp.h"
#include "public/output_stages.h"
#include "fixedpoint/fixedpoint.h"
#ifdef GEMMLOWP_NEON
#define GEMMLOWP_USE_META_FASTPATH
#include "meta/base.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/transform_kernels.h"
#include "meta/streams.h"
#include "meta/single_thread_gemm.h"
#include "meta/multi_thread_gemm.h"
#include "meta/single_thread_transform.h"
#include "meta/multi_thread_transform.h"
#include "meta/legacy_multi_thread_gemm.h"
#endif
