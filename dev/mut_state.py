CHECKS=['P01','P03','P15','P23']
SG='internal/single_thread_gemm.h'; MT='internal/multi_thread_gemm.h'; AL='internal/allocator.h'
UN='internal/unpack.h'; PK='internal/pack.h'; CP='internal/compute.h'; BP='internal/block_params.h'; MAP='public/map.h'
AVX='internal/kernel_avx.h'; SSE='internal/kernel_sse.h'; NEON='internal/kernel_neon.h'; OUT='internal/output.h'
M=[
 ('static-blockparams',{'P01'},[(SG,'  BlockParams block_params;\n','  static BlockParams block_params;\n')]),
 ('tls-cache',{'P01'},[(SG,'  BlockParams block_params;\n','  static thread_local BlockParams block_params;\n')]),
 ('global-counter',{'P01'},[(SG,'class SingleThreadGemmContext {','static int g_last_rows = 0;\ninline int* LastRows() { return &g_last_rows; }\nclass SingleThreadGemmContext {'),(SG,'  int depth = lhs.cols();\n','  int depth = lhs.cols();\n  *LastRows() = rows;\n')]),
 ('template-static-member',{'P01'},[(PK,'  std::uint8_t buf_[kKernelWidth * kRegisterSize];','  static std::uint8_t* scratch() { static std::uint8_t b[kKernelWidth * kRegisterSize]; return b; }\n  std::uint8_t buf_[kKernelWidth * kRegisterSize];')]),
 ('rounding-mode',{'P01'},[(BP,'#include "common.h"','#include "common.h"\n#include <cfenv>'),(BP,'    const int l1_cols','    fesetround(FE_TONEAREST);\n    const int l1_cols')] if False else [(SG,'  int depth = lhs.cols();\n','  int depth = lhs.cols();\n  fesetround(0);\n'),(SG,'namespace gemmlowp {','}\n#include <cfenv>\nnamespace gemmlowp {'.replace('}\n','',1))]),
 ('const-static-ok',(),[(SG,'  int depth = lhs.cols();\n','  int depth = lhs.cols();\n  static const int kUnit = 1;\n  depth *= kUnit;\n')]),
 ('constexpr-table-ok',(),[(BP,'namespace gemmlowp {','namespace gemmlowp {\nstatic constexpr int kTable[3] = {1, 2, 3};\n')]),
 ('const-cast-pack',{'P03'},[(PK,'  // Copies an incomplete block of source data into a local temporary','  void Touch(const SrcMapType& s) { *const_cast<std::uint8_t*>(reinterpret_cast<const std::uint8_t*>(s.data())) = 0; }\n  // Copies an incomplete block of source data into a local temporary')]),
 ('c-cast-pack',{'P03'},[(PK,'  // Copies an incomplete block of source data into a local temporary','  void Touch(const SrcMapType& s) { *(std::uint8_t*)(s.data()) = 0; }\n  // Copies an incomplete block of source data into a local temporary')]),
 ('uintptr-launder',{'P03'},[(PK,'  // Copies an incomplete block of source data into a local temporary','  void Touch(const SrcMapType& s) { *reinterpret_cast<std::uint8_t*>(reinterpret_cast<std::uintptr_t>(s.data())) = 0; }\n  // Copies an incomplete block of source data into a local temporary')]),
 ('ndebug-ifdef',{'P23'},[(SG,'  int depth = lhs.cols();\n','#ifdef NDEBUG\n  int depth = lhs.cols() & ~1;\n#else\n  int depth = lhs.cols();\n#endif\n')]),
 ('assert-effect',{'P23'},[(AL,'    assert(committed_);\n    committed_ = false;\n    generation_++;','    assert(committed_ && ++generation_);\n    committed_ = false;')]),
 ('assert-effect-via-fn',{'P23'},[(AL,'    assert(committed_);\n    committed_ = false;\n    generation_++;','    assert(Bump());\n    committed_ = false;'),(AL,' private:\n  void Deal',' private:\n  bool Bump() { generation_++; return committed_; }\n  void Deal')]),
 ('assert-pthread',{'P23'},[(MT,'    pthread_join(thread_, nullptr);','    assert(!pthread_join(thread_, nullptr));')]),
 ('assert-pure-ok',(),[(AL,'    assert(committed_);\n    committed_ = false;','    assert(committed_ && reserved_blocks_ <= kMaxBlocks);\n    committed_ = false;')]),
 ('assert-helper-ok',(),[(AL,'    assert(committed_);\n    committed_ = false;','    assert(IsCommitted());\n    committed_ = false;'),(AL,' private:\n  void Deal',' private:\n  bool IsCommitted() const { return committed_; }\n  void Deal')]),
 ('ifdef-debug-print-ok',(),[(SG,'  int depth = lhs.cols();\n','#ifndef NDEBUG\n  assert(rows >= 0);\n#endif\n  int depth = lhs.cols();\n')]),
]
import re
_s=open('/repo/'+AVX).read()
for reg in ('"xmm0"','"%ymm4"','"%xmm4"'):
    pass
def clob(f,idx=0):
    s=open('/repo/'+f).read()
    m=[x for x in re.finditer(r':\s*(?://[^\n]*\n\s*)?"cc", "memory"((?:,\s*"[%\w]+")+)',s)]
    return m[idx] if m else None
for f,n in ((SSE,'sse'),(AVX,'avx'),(NEON,'neon')):
    s=open('/repo/'+f).read()
    for k,reg in enumerate(sorted(set(re.findall(r'"(%?(?:x|y)mm\d+|[vqd]\d+)"',s)))[:1]):
        pass
M.append(('sse-clobber',{'P15'},[(SSE,'"%xmm11",','')]))
M.append(('sse-mem',{'P15'},[(SSE,'"memory", ','')]))
M.append(('sse-input',{'P15'},[(SSE,'[dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)\n        :  // inputs\n','[dst_ptr] "+r"(dst_ptr)\n        :  // inputs\n [run_depth_cells] "r"(run_depth_cells), ')]))
