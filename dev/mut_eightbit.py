CHECKS=['P09','P14']
E='eight_bit_int_gemm/eight_bit_int_gemm.cc'; I='profiling/instrumentation.h'
V={'P14'}; L={'P09'}
M=[
 ('float-transpose',V,[(E,'scratch->AssureSize(m * ldc * sizeof(std::int32_t));','scratch->AssureSize(n * ldc * sizeof(std::int32_t));')]),
 ('size-not-updated',V,[(E,'    size_ = 0;\n  }','  }')]) if False else
 ('scratch-size',V|L,[(E,'    size_ = required_size;\n','    size_ = std::max<std::int32_t>(required_size, 64);\n')]),
 ('free-dangling',V|L,[(E,'  delete global_scratch;\n  global_scratch = nullptr;','  delete global_scratch;')]),
 ('free-leak',L,[(E,'  DestroyGlobalContext();\n  DestroyGlobalScratch();','  DestroyGlobalContext();\n  if (global_scratch) global_scratch->Clear();')]),
 ('case-swap',V,[(E,'  GEMMLOWP_HANDLE_CASE(true, false, true)','  if (transpose_a && !transpose_b && transpose_c) {\n    EightBitIntGemmImpl<true, false, true>(context, m, n, k, a, a_offset, lda, b, b_offset, ldb, c, c_offset, c_mult_int, c_shift, m == 1 ? n : ldc, bit_depth);\n  }')]),
 ('ldb-lda',V,[(E,'MatrixMap<const std::uint8_t, RhsOrder> rhs(b, k, n, ldb);\n  MatrixMap<std::int32_t','MatrixMap<const std::uint8_t, RhsOrder> rhs(b, k, n, transpose_a && transpose_b ? lda : ldb);\n  MatrixMap<std::int32_t')]),
 ('nolock-threads',L,[(E,'void SetMaxNumThreads(int n) {\n  ScopedLock sl(GlobalMutexes::EightBitIntGemm());\n','void SetMaxNumThreads(int n) {\n')]),
 ('lock-late',L,[(E,'  ScopedLock sl(GlobalMutexes::EightBitIntGemm());\n  GemmContext* context = GetOrCreateGlobalContext();\n  context->set_max','  GemmContext* context = GetOrCreateGlobalContext();\n  ScopedLock sl(GlobalMutexes::EightBitIntGemm());\n  context->set_max')]),
 ('lock-early-release',L,[(E,'''#undef GEMMLOWP_HANDLE_INT32_CASE
''','''#undef GEMMLOWP_HANDLE_INT32_CASE
  GlobalMutexes::EightBitIntGemm()->Unlock();
'''),(E,'''                     std::int32_t ldc, BitDepthSetting bit_depth) {
  ScopedLock sl(GlobalMutexes::EightBitIntGemm());''','''                     std::int32_t ldc, BitDepthSetting bit_depth) {
  GlobalMutexes::EightBitIntGemm()->Lock();''')]),
 ('wrong-mutex',L,[(E,'void FreePersistentResources() {\n  ScopedLock sl(GlobalMutexes::EightBitIntGemm());','void FreePersistentResources() {\n  ScopedLock sl(GlobalMutexes::Profiler());')]),
 ('meta-k',V,[(E,'if (depth_setting != BitDepthSetting::A8B8 || k < 8 || k > 2048)','if (k < 8 || k > 2048)')]) if False else
 ('meta-res',V,[(E,'''    meta::multi_thread_gemm_q8(context->workers_pool(), max_num_threads,
                               scratch->buffer(), rhs, lhs, n, m, k, rhs_offset,
                               lhs_offset, sum_offset, multiplicative_offset,''','''    meta::multi_thread_gemm_q8(context->workers_pool(), max_num_threads,
                               scratch->buffer(), rhs, lhs, n, m, k, lhs_offset,
                               rhs_offset, sum_offset, multiplicative_offset,''')]),
 ('align',V,[(E,'((32 - (reinterpret_cast<uintptr_t>(buffer_.get()) % 32)) % 32);\n    assert((reinterpret_cast<uintptr_t>(buffer_32_) % 32) == 0);','((32 - (reinterpret_cast<uintptr_t>(buffer_.get()) % 32)) % 64);')]),
 ('buf-small',V|L,[(E,'buffer_.reset(new std::uint8_t[required_size + 32]);','buffer_.reset(new std::uint8_t[required_size + 8]);')]),
 ('threads-lost',V,[(E,'context->set_max_num_threads(n);','if (n > 2) context->set_max_num_threads(n);')]),
 ('refac-lock',(),[(E,'void FreePersistentResources() {\n  ScopedLock sl(GlobalMutexes::EightBitIntGemm());\n  DestroyGlobalContext();\n  DestroyGlobalScratch();','void FreePersistentResources() {\n  Mutex* mutex = GlobalMutexes::EightBitIntGemm();\n  mutex->Lock();\n  DestroyGlobalScratch();\n  DestroyGlobalContext();\n  mutex->Unlock();')]),
 ('refac-float',(),[(E,'''      for (int j = 0; j < n; ++j) {
        dest_row[j] = static_cast<float>(src_row[j]) * c_offset;
      }''','''      int j = 0;
      while (j < n) {
        const float scaled = static_cast<float>(src_row[j]) * c_offset;
        dest_row[j++] = scaled;
      }''')]),
 ('refac-scratch',(),[(E,'''  if (transpose_c) {
    scratch->AssureSize(m * ldc * sizeof(std::int32_t));
  } else {
    scratch->AssureSize(n * ldc * sizeof(std::int32_t));
  }''','''  const int outer = transpose_c ? m : n;
  scratch->AssureSize(outer * ldc * sizeof(std::int32_t));''')]),
]
