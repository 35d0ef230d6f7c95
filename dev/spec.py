"""Single source of properties.jsonl and MANIFEST.json (dev/gen.py)."""
MT = 'internal/multi_thread_gemm.h'
PROPS = []


def P(id, title, statement, over, text, why, files, mech, state, observe, technique=None, note=None,
      level='proof', na=None):
    PROPS.append(dict(
        prop=dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=x) for x in state],
                               observe_at=observe, hook_needed=None)),
        technique=technique, note=note, level=level, na=na))


P('P05', 'Worker hand-off and completion are free of data races',
  'Under every interleaving of the calling thread and the pool\'s worker threads, the state they '
  'share is accessed without a data race. Everything the caller wrote before a task was handed to '
  'a worker is visible to that worker when it runs the task, everything the task wrote is visible '
  'to the caller when the parallel call returns, and concurrent completions are never lost.',
  ['schedules'], 'all interleavings of controller and worker threads under the C++11 memory model',
  'A race needs one particular interleaving (and, for memory ordering, a weakly ordered CPU); a '
  'test samples a few schedules on x86.',
  [MT], [('Worker::ChangeState', MT), ('BlockingCounter', MT), ('WaitForVariableChange', MT)],
  ['Worker::task_', 'Worker::state_', 'BlockingCounter::count_', 'Task::local_allocator'],
  ['result matrix contents after GemmWithOutputPipeline returns'],
  'lockset and happens-before race analysis over the flattened LLVM IR of the worker thread and of '
  'every controlling-thread entry point',
  'Every pair of conflicting accesses to the shared object is enumerated and discharged by common '
  'lock, atomicity, or creation/join order; ordering of counter operations is checked.')
P('P06', 'A worker never misses a wake-up',
  'A worker thread that goes to sleep waiting for work is always woken by a task or an exit '
  'request posted to it, whatever the interleaving of the sleeping and the posting thread, so '
  'neither a GEMM nor the destruction of its context can hang on a sleeping worker. A spurious '
  'wake-up never makes a worker act as if work had been posted.',
  ['schedules'], 'all interleavings and all spurious wake-ups of the waiting worker',
  'The busy-wait before blocking makes the window for a lost wake-up practically unreachable in '
  'tests.',
  [MT], [('WaitForVariableChange', MT), ('Worker::ChangeState', MT)],
  ['Worker::state_', 'Worker::state_cond_', 'Worker::state_mutex_'],
  ['termination of Execute() and ~WorkersPool()'],
  'monitor-discipline (lock/predicate/signal) dataflow analysis over flattened LLVM IR',
  'The condition-variable protocol is checked on all paths of the worker loop and of every '
  'posting function.')
P('P07', 'Worker threads start after and end before their object',
  'A worker thread never runs on an uninitialised worker object and never outlives it: everything '
  'the thread uses is initialised before the thread is created, and a worker is torn down by '
  'requesting exit, joining the thread, and only then destroying its mutex, condition variable and '
  'memory. Destroying a pool (or GEMM context) does this for every worker it ever created; no '
  'thread is detached, leaked or left running.',
  ['schedules', 'histories'], 'all schedules and all histories of pool growth and destruction',
  'A use-before-init or use-after-free of the worker object needs the new/old thread to be '
  'scheduled in a tiny window.',
  [MT], [('Worker::Worker / ~Worker', MT), ('WorkersPool::~WorkersPool', MT),
         ('WorkersPool::CreateWorkers', MT)],
  ['Worker object lifetime', 'WorkersPool::workers_'],
  ['threads alive after the pool is destroyed; memory safety of the worker'],
  'typestate (init -> create -> exit posted -> join -> destroy) and loop-coverage analysis over '
  'flattened LLVM IR', 'All paths of constructor, destructor and pool growth.')
P('P08', 'Each task of Execute runs exactly once before it returns',
  'For every number of tasks, executing tasks on the worker pool (array form, vector form and the '
  'legacy execute-and-destroy form) runs each task exactly once, on distinct existing workers or '
  'the calling thread, and returns only when all have finished. A worker reports completion exactly '
  'once per task and only after running it. The legacy form destroys every task exactly once, after '
  'all have finished.',
  ['inputs', 'schedules', 'histories'],
  'all task counts, previous pool sizes and interleavings',
  'Tests run a few small thread counts; a missing wait or a wrong count shows only under '
  'particular schedules or counts.',
  [MT], [('WorkersPool::Execute', MT), ('WorkersPool::LegacyExecuteAndDestroyTasks', MT),
         ('WorkersPool::CreateWorkers', MT), ('BlockingCounter', MT)],
  ['BlockingCounter::count_', 'WorkersPool::workers_', 'Worker::task_'],
  ['which result rows are written when Execute returns'],
  'typestate of the completion counter plus symbolic loop-range (scalar evolution) analysis over '
  'flattened LLVM IR', 'Loop ranges are compared as linear forms over mathematical integers.')
P('P01', 'Calls using different contexts never share hidden mutable state',
  'A multiplication depends on, and changes, only its arguments, its own context and its result '
  'matrix: the library keeps no other modifiable state (no global, static or thread-local object, '
  'cache or counter) and does not alter process-wide settings such as rounding mode, locale, '
  'signals or thread affinity. Hence calls made from different threads with different contexts '
  'cannot disturb each other, and one call cannot influence a later call that uses a fresh context.',
  ['schedules', 'histories'], 'all interleavings and all sequences of calls on distinct contexts',
  'Interference through hidden state shows only when two calls overlap, or for a particular history '
  'of earlier calls.',
  ['public/gemmlowp.h', 'internal/', 'fixedpoint/', 'public/', 'meta/'],
  [('GemmContext', 'public/gemmlowp.h'), ('DispatchGemmShape', 'internal/dispatch_gemm_shape.h')],
  ['GemmContext', 'Allocator', 'WorkersPool'], ['results of concurrent and successive calls'],
  'AST query over every translation unit and target: each declared object with static or thread '
  'storage reachable from an entry point must be deeply immutable or a mutex; each library call is '
  'checked against a list of functions that are not reentrant or change process-wide state',
  'Ten target configurations, uninstantiated templates included; reachability is by name, an '
  'over-approximation. The legacy 8-bit API, which has documented globals, is P02.')
P('P03', 'Operands, biases and pipeline parameters are never modified',
  'A multiplication writes nothing through the pointers to the left- and right-hand operands, the '
  'offset vectors, the bias vectors or the output pipeline it is given: whatever a caller passes as '
  'read-only data is bit for bit the same afterwards, on every CPU path, including the '
  'hand-written assembly kernels.',
  ['inputs'], 'all matrix shapes, strides, orders, thread counts and CPU paths',
  'Tests compare only the result matrix; a transient or out-of-shape write to an operand is not '
  'observed.',
  ['internal/', 'public/', 'meta/', 'eight_bit_int_gemm/'],
  [('MatrixMap / VectorMap const-ness', 'public/map.h'), ('KernelBase::Run', 'internal/kernel.h'),
   ('PackSideBlockImpl', 'internal/pack.h')],
  ['operand data'], ['bytes of the operands after the call'],
  'const-correctness analysis: AST query for every cast that removes or launders const, compile-time '
  'witnesses that the operand API yields pointers to const, and provenance dataflow inside every '
  'inline-assembly block (no store through an address derived from a pointer-to-const operand)',
  'All ten target configurations.')
P('P15', 'Assembly kernels declare everything they change to the compiler',
  'Every hand-written assembly block tells the compiler exactly what it does: each register, operand, '
  'flag and memory effect is declared, callee-saved registers and the stack pointer are preserved, '
  'no register is read before it is set, and no operand is overwritten that the compiler believes '
  'unchanged. Code surrounding a kernel therefore computes the same thing whatever registers the '
  'compiler happens to allocate.',
  ['configurations', 'inputs'], 'all compilers, optimisation levels and register allocations, all '
  'instructions of all blocks on x86, ARM, AArch64 and MIPS',
  'A missing clobber or a modified input operand only shows when the register allocator happens to '
  'keep a live value in that register; the tests use one compiler and one optimisation level.',
  ['internal/kernel_neon.h', 'internal/kernel_sse.h', 'internal/kernel_avx.h', 'internal/kernel_msa.h',
   'meta/', 'internal/common.h'],
  [('Run of the assembly kernels', 'internal/kernel_neon.h'), ('meta kernels', 'meta/')],
  ['caller registers and flags'], ['results of code compiled around a kernel'],
  'dataflow analysis of every inline-assembly statement against an instruction effect model '
  '(A64, A32/NEON, x86/SSE/AVX, MIPS/MSA): writes vs. clobbers/outputs, inputs preserved, '
  'definite initialisation, early clobber, memory and flags',
  'Assembly is taken from the IR after operand binding, for nine configurations; a syntactic query '
  'checks that no block was missed.')
P('P23', 'Release builds compute the same as builds with assertions',
  'Compiling with assertions disabled changes nothing but the assertions themselves: no assertion '
  'contains a side effect the program depends on, and no other code is added, removed or altered by '
  'disabling them, so a release build computes exactly what the tested build computes.',
  ['configurations'], 'all inputs, with and without NDEBUG',
  'The test suite is built with assertions on only.',
  ['internal/', 'public/', 'meta/', 'eight_bit_int_gemm/', 'fixedpoint/'],
  [('assert() uses', 'internal/'), ('ReleaseBuildAssertion', 'internal/common.h')],
  [], ['results of a release build'],
  'effect analysis of every assertion argument over the AST (transitively through called functions) '
  'plus a preprocessed-token comparison of the library with and without NDEBUG',
  'Ten configurations; uninstantiated templates included.')

P('P17', 'Fixed-point primitives compute their documented function in every SIMD lane',
  'Each fixed-point primitive (saturating rounding doubling high multiplication, rounding division '
  'and multiplication by powers of two, saturating and plain addition, half sums, comparisons, '
  'masks and selections, reductions, rescaling, constants) computes exactly its documented scalar '
  'function for every input, including the extreme values where it saturates or rounds a tie. A '
  'SIMD type computes in each lane what the scalar type computes from the same lanes of its inputs, '
  'on every CPU path.',
  ['inputs', 'configurations'], 'all operand values and exponents, scalar, SSE4, AVX2, NEON (32 and '
  '64 bit), MSA and WebAssembly types of 16 and 32 bits',
  'The 64-bit input space of a two-operand primitive cannot be enumerated; wrong saturation or '
  'rounding appears only at a handful of operand pairs.',
  ['fixedpoint/fixedpoint.h', 'fixedpoint/fixedpoint_sse.h', 'fixedpoint/fixedpoint_avx.h',
   'fixedpoint/fixedpoint_neon.h', 'fixedpoint/fixedpoint_msa.h', 'fixedpoint/fixedpoint_wasmsimd.h'],
  [('SaturatingRoundingDoublingHighMul', 'fixedpoint/fixedpoint.h'),
   ('RoundingDivideByPOT', 'fixedpoint/fixedpoint.h'),
   ('SaturatingRoundingMultiplyByPOT', 'fixedpoint/fixedpoint.h')],
  [], ['value of each result lane'],
  'value-flow analysis of loop-free IR down to scalar lanes (global value numbering with models of '
  'the SIMD intrinsics), each lane compared with its specification by interval partitioning',
  'Unbounded in the operand values; exponents enumerated (0..31 / 0..15). Ties of negative '
  'RoundingHalfSum are left open: scalar and VRHADD legitimately differ.')
P('P19', 'Offsets and zero points are applied exactly, each result in its own place',
  'Turning an accumulated block into int32 results applies the operand offsets exactly: element '
  '(i, j) is the accumulator plus lhs_sum[i] times the rhs offset plus (rhs_sum[j] + depth times the '
  'rhs offset) times the lhs offset, in 32-bit arithmetic, with the sums and (scalar or '
  'per-row/column) offsets of its own row and column and the zero points of the kernel format. Each '
  'block shape and each destination order stores exactly its own elements, whatever the position, '
  'the strides and the CPU path.',
  ['inputs', 'configurations'], 'all accumulators, sums, offsets, depths, positions and strides; all '
  'block shapes, kernel zero points, destination orders and CPU paths',
  'Tests use few strides and mostly scalar offsets; a wrong lane is visible only for particular '
  'block shapes and per-row offsets.',
  ['internal/unpack.h', 'internal/simd_wrappers.h', 'internal/simd_wrappers_common_neon_sse.h',
   'internal/simd_wrappers_neon.h', 'internal/simd_wrappers_sse.h', 'internal/output.h'],
  [('UnpackResultBlock', 'internal/unpack.h'), ('BroadcastMulAdd', 'internal/simd_wrappers.h'),
   ('StoreFinalOutput', 'internal/output.h')],
  ['result matrix'], ['int32 values of the result matrix'],
  'value-flow analysis of loop-free IR down to scalar lanes; ring normal form modulo 2^32 of each '
  'stored element compared with the formula, addresses as linear forms',
  'Symbolic in all values, positions and strides; seven target configurations.')

P('P20', 'Output pipeline stages compute their documented function per element',
  'Every output stage (bias addition, quantize-down by integer scale, by fixed-point multiplier, by '
  'multiplier and exponent, their per-row and per-column forms, clamping, tanh saturation, and '
  'saturating and truncating casts to 8 and 16 bits) and every sequence of stages computes its '
  'documented function of each element, in order, with the parameters of that element\'s own row or '
  'column, for every accumulator value and parameter; each final element is stored at its own '
  'position, in column-major, row-major and transposed 8x8 form, on every CPU path.',
  ['inputs', 'configurations'], 'all accumulator values, parameters, positions and strides; all block '
  'shapes, destination orders and CPU paths; a set of shift amounts and exponents',
  'Stages are templates over block shapes and SIMD types; tests use a few parameter sets, so a wrong '
  'lane, a tie rounded differently or a missing saturation in one specialisation goes unseen.',
  ['internal/output.h', 'internal/output_neon.h', 'internal/output_sse.h', 'internal/output_msa.h',
   'internal/simd_wrappers.h', 'public/output_stages.h'],
  [('OutputStageEvalImpl', 'internal/output.h'), ('OutputPipelineExecutor', 'internal/output.h'),
   ('StoreFinalOutput', 'internal/output.h')],
  ['result matrix'], ['values of the result matrix'],
  'value-flow analysis of loop-free IR down to scalar lanes, compared stage by stage with the '
  'specification (ring normal form, interval partitioning); fixed-point primitives are taken as '
  'uninterpreted, being decided by P17',
  'Symbolic in values, parameters, positions and strides; shifts and exponents are enumerated '
  'instances; the curve of tanh inside its range is not covered.')

P('P21', 'Packing keeps every operand element and its slice sums exact',
  'Packing a block of an operand puts every source element, unchanged except for the zero point of the '
  'kernel format, at exactly the place the kernel\'s cell layout prescribes, fills every missing '
  'position of an incomplete block with a neutral value that contributes nothing, writes nothing else, '
  'advances the packed position by exactly one block, and increases each slice sum by exactly the sum of '
  'the values packed for that slice, for every element value, stride, source order, kernel format, '
  'partial block size and CPU path.',
  ['inputs', 'configurations'], 'all element values and strides; all source orders, kernel side formats, '
  'depths of partial blocks and CPU paths',
  'Packing is specialised per format and CPU with byte shuffles and narrow intermediate sums; a lane '
  'swapped or an intermediate overflow shows only for some contents, and tests sample random data.',
  ['internal/pack.h', 'internal/pack_neon.h', 'internal/pack_sse.h', 'internal/pack_avx.h',
   'internal/pack_msa.h', 'internal/kernel.h'],
  [('PackingRegisterBlock::Pack', 'internal/pack.h'), ('PackingRegisterBlockBase::MakeCompleteSrc', 'internal/pack.h')],
  ['packed block', 'slice sums'], ['packed data'],
  'value-flow analysis of loop-free IR down to bytes; every packed byte and every slice sum is compared '
  'in ring normal form (with range analysis of narrow intermediates) with the format\'s layout',
  'Symbolic in all values, strides and positions; every depth of a partial block at full width and '
  'selected narrower widths are enumerated; six target configurations.')

P('P22', 'Blocked multiplication composes to the exact product for every operand content',
  'Splitting a multiplication into cache blocks, kernel blocks, depth runs, unpacking tiles and (with '
  'several threads) row ranges, packing the operands and unpacking the accumulators composes to exactly '
  'the offset matrix product: every result element receives the sum over the whole depth of the products '
  'of the offset elements of its own row and column, once, and goes through the output pipeline with its '
  'own global row and column. Only elements of the operands are read, only elements of the result and '
  'the context\'s buffers within their size are written, and no internal assertion fails, for every '
  'content of the operands, whatever the sizes relative to the block sizes, the cache-size settings, the '
  'number of threads, the storage orders and strides.',
  ['inputs', 'configurations'], 'all operand contents, offsets, biases and strides; enumerated sizes, '
  'cache settings, thread counts, orders and kernel formats',
  'Block boundaries interact (depth runs, partial tiles, row ranges of tasks); tests use fixed shapes with '
  'random data, default cache settings and compare under wide tolerances in places.',
  ['internal/single_thread_gemm.h', 'internal/multi_thread_gemm.h', 'internal/compute.h', 'internal/pack.h',
   'internal/unpack.h', 'internal/block_params.h', 'internal/allocator.h'],
  [('SingleThreadGemm', 'internal/single_thread_gemm.h'), ('MultiThreadGemm', 'internal/multi_thread_gemm.h'),
   ('GemmWithPackedRhsTask::Run', 'internal/multi_thread_gemm.h'), ('ComputeImpl::Compute', 'internal/compute.h'),
   ('PackSideBlockImpl::PackL2', 'internal/pack.h'), ('UnpackResult', 'internal/unpack.h'),
   ('BlockParams::Init', 'internal/block_params.h'), ('Allocator', 'internal/allocator.h')],
  ['result matrix', 'packed buffers'], ['values of the result matrix'],
  'abstract interpretation of the compiled IR with constant propagation over sizes and symbolic value '
  'numbers for all data; kernel calls are summarised by their contract (decided separately by P24); each '
  'result element\'s value number is compared with the product in polynomial normal form',
  'Symbolic in all data, offsets and strides; sizes, cache settings and thread counts are an enumerated '
  'set covering every remainder of the unpacking tiles and register depth and several blocks in each '
  'direction; six target configurations.')

P('P24', 'Every kernel computes the exact product of its packed blocks',
  'Run() of every kernel (portable reference, SSE4, AVX2, ARM NEON 32 and 64 bit, dot-product, MIPS MSA) '
  'stores in each element of its result block exactly the sum over the given depth of the products of the '
  'packed lhs row and rhs column in the kernel\'s announced format, added to the element\'s previous value '
  'exactly when start_depth is not 0, without intermediate overflow for every content allowed to it '
  '(8-bit values; one side free of -128 for the LhsNonzero kernels; products below 4096 for the 12-bit '
  'kernel), for every result stride. It reads nothing outside the packed buffers and the result block and '
  'writes nothing outside the result block.',
  ['inputs', 'configurations'], 'all contents of the packed blocks and all strides; depths from one to several '
  'iterations of each kernel loop; nine target configurations',
  'Narrow intermediate accumulators overflow only for extreme contents, and software-pipelined loops '
  'misbehave only for certain depths; the tests use a few random matrices on the build machine\'s target.',
  ['internal/kernel_reference.h', 'internal/kernel_sse.h', 'internal/kernel_avx.h', 'internal/kernel_neon.h',
   'internal/kernel_msa.h', 'internal/kernel.h'],
  [('SSE4_64_Kernel12x4Depth2::Run', 'internal/kernel_sse.h'), ('AVX2_64_Kernel24x8Depth2::Run', 'internal/kernel_avx.h'),
   ('NEON_64_Kernel12x8Depth2::Run', 'internal/kernel_neon.h'), ('ReferenceKernel::Run', 'internal/kernel_reference.h'),
   ('MSA_Kernel12x8Depth2::Run', 'internal/kernel_msa.h')],
  ['result block'], ['values of the result block'],
  'value-flow analysis of the kernels\' inline assembly (instruction-level lane semantics, constant control, '
  'symbolic data) with range analysis of narrow intermediates; each result element\'s value number is compared '
  'with the dot product in polynomial normal form',
  'Symbolic in all contents, strides and previous results; run_depth enumerated (every multiple of the kernel depth '
  'up to the register size, and some larger ones). Packed blocks are padded with zeros up to the register size.')

P('P13', 'The public entry points compute the documented quantised product',
  'Gemm, GemmWithOutputPipeline and GemmWithOutputPipelinePC store in every element of the result the given '
  'output pipeline applied to the exact sum over the depth of (lhs element + its row\'s offset) * (rhs element '
  '+ its column\'s offset), for every operand content, shape, storage order, stride, offsets and stage '
  'parameters, whether or not the product is internally computed transposed: per-row and per-column biases, '
  'multipliers, exponents and offsets are those of the element\'s own row and column and the stages run in '
  'the given order. A product with an empty dimension leaves memory alone; otherwise only elements of the '
  'operands are read, only elements of the result are written, and all working memory is released with the '
  'context.',
  ['inputs', 'configurations'], 'all operand contents, offsets, strides and stage parameters; enumerated '
  'shapes on both sides of every transposition and tile boundary, orders, pipelines of 0 to 6 stages, bit '
  'depths and targets',
  'The transposed dispatch takes apart and rebuilds every argument and stage; mistakes show only for wide '
  'results with per-channel parameters of one shape, in pipelines of one length.',
  ['public/gemmlowp.h', 'internal/dispatch_gemm_shape.h', 'public/output_stages.h', 'public/map.h',
   'internal/kernel_default.h', 'public/bit_depth.h'],
  [('DispatchGemmShape', 'internal/dispatch_gemm_shape.h'), ('TransposeTuple', 'internal/dispatch_gemm_shape.h'),
   ('MakeStandardOutputPipeline', 'public/output_stages.h'), ('DefaultKernel', 'internal/kernel_default.h')],
  ['result matrix'], ['values of the result matrix'],
  'abstract interpretation of the compiled IR of each entry point with constant sizes and symbolic value '
  'numbers for all data, kernels and fixed-point primitives summarised (decided by P24 and P17); each result '
  'element\'s value number is compared with the documented pipeline in normal form',
  'Symbolic in all data, offsets, parameters and strides; shapes, orders and pipelines are an enumerated set; '
  'six target configurations.')

P('P25', 'The meta library computes the documented product',
  'Gemm and MultiThreadGemm of the meta library, for every executor (packing the left or the right operand first, '
  'cache-friendly or not), kernel shape, stream order (RowMajorWithSum, ColumnMajorWithSum) and result type, and '
  'the legacy multi_thread_gemm_q8/i32/f functions with their matrix-vector special cases, store in each result '
  'element exactly the documented function of its own row and column: the sum of products plus the weighted row '
  'and column sums and additive offsets as int32; times the scale as float; or times the multiplier plus the '
  'rounding offset, shifted right and saturated to uint8. This holds for depths 8 to 2048, every operand content, '
  'stride and offset, without overflow of narrow intermediates. They read operand elements only, write result '
  'elements only, use scratch memory within the size their own estimate announces, the tasks of one call share '
  'neither scratch memory nor result elements, use no object after its life ended, and release what they allocate.',
  ['inputs', 'configurations'], 'all contents, strides, offsets, multipliers; every remainder of the sizes modulo '
  'the kernel shape; depths up to 2048; 32 and 64 bit NEON',
  'Every combination of remainders selects a different generated assembly routine (over 600 of them); 16-bit sums '
  'overflow only for extreme contents at large depths; a dangling reference shows only when the stack slot is reused.',
  ['meta/single_thread_gemm.h', 'meta/multi_thread_gemm.h', 'meta/streams_arm_32.h', 'meta/streams_arm_64.h',
   'meta/quantized_mul_kernels_arm_32.h', 'meta/quantized_mul_kernels_arm_64.h', 'meta/legacy_multi_thread_common.h',
   'meta/legacy_multi_thread_gemm.h', 'meta/legacy_multi_thread_gemv.h', 'meta/legacy_single_thread_gemm.h'],
  [('GemmExecutorPackRHS::ExecuteDispatch3D', 'meta/single_thread_gemm.h'),
   ('PrepareGemmTasks', 'meta/multi_thread_gemm.h'),
   ('MultiThreadedMatrixMatrix', 'meta/legacy_multi_thread_common.h'),
   ('gemm_q8_strided', 'meta/legacy_single_thread_gemm.h')],
  ['result', 'scratch memory'], ['values of the result'],
  'abstract interpretation of the compiled IR and its inline assembly with constant control and symbolic value '
  'numbers for all data, object lifetimes tracked; each result element\'s value number is compared with the '
  'documented function in polynomial normal form, saturation by an affine-region analysis',
  'Symbolic in all contents, strides, offsets and multipliers; sizes enumerated (every remainder triple of every '
  'kernel shape); the pool is summarised (each task runs once, then is deleted: P08).')

P('P14', 'EightBitIntGemm computes the documented product after every history of calls',
  'Every call of EightBitIntGemm (uint8 and float result), in every history of calls of the interface, stores '
  'in each element of C the documented value: the sum over k of (op(A) + a_offset)(op(B) + b_offset), scaled '
  'by (x + c_offset) * c_mult_int with a rounding right shift by c_shift and saturated to uint8, or times '
  'the float c_offset; for all eight transpositions, both bit depths, every leading dimension and every operand '
  'content, with the meta fast path compiled in or not. It reads only elements of A and B, writes only '
  'elements of C (not the padding between its rows or columns), and keeps within its scratch memory. Earlier '
  'calls have no influence other than SetMaxNumThreads, which holds until FreePersistentResources.',
  ['inputs', 'histories', 'configurations'], 'all operand contents, offsets and multipliers; enumerated '
  'histories of shapes, strides, transpositions, bit depths and resource releases',
  'The global context and scratch buffer are reused, grown and freed across calls; failures need a particular '
  'sequence of sizes, or a stride that only matters for vectors.',
  ['eight_bit_int_gemm/eight_bit_int_gemm.cc', 'eight_bit_int_gemm/eight_bit_int_gemm.h'],
  [('EightBitIntGemm', 'eight_bit_int_gemm/eight_bit_int_gemm.cc'),
   ('Scratch::AssureSize', 'eight_bit_int_gemm/eight_bit_int_gemm.cc'),
   ('CanHandleMetaFastpath', 'eight_bit_int_gemm/eight_bit_int_gemm.cc')],
  ['global_context', 'global_scratch'], ['values of C after each call'],
  'abstract interpretation of the compiled IR over histories of calls on one abstract memory, with constant '
  'sizes and symbolic value numbers for all data; kernels, fixed-point primitives and the meta library are '
  'summarised by contract',
  'Symbolic in contents, offsets and multipliers; shapes, strides and histories are an enumerated set (all '
  'transpositions); eight target configurations, two with the meta fast path.')
P('P09', 'The EightBitIntGemm interface is thread-safe and releases all it holds',
  'The functions of the EightBitIntGemm interface may be called from any number of threads: on every path the '
  'global context and scratch memory, and everything reached through them, is created, used and destroyed only '
  'while one and the same global mutex is held, which is locked once and released on every return. '
  'FreePersistentResources releases every buffer the interface ever allocated, in every history; nothing '
  'is used after its release, and later calls start afresh.',
  ['schedules', 'histories'], 'all paths of the public functions; enumerated histories of calls',
  'An unprotected access is a race only in a small window; use after release needs a call after '
  'FreePersistentResources with a particular history.',
  ['eight_bit_int_gemm/eight_bit_int_gemm.cc', 'profiling/instrumentation.h'],
  [('ScopedLock', 'profiling/instrumentation.h'), ('GetOrCreateGlobalContext', 'eight_bit_int_gemm/eight_bit_int_gemm.cc'),
   ('FreePersistentResources', 'eight_bit_int_gemm/eight_bit_int_gemm.cc')],
  ['global_context', 'global_scratch', 'GlobalMutexes::EightBitIntGemm()'],
  ['data races between concurrent calls', 'memory held after FreePersistentResources'],
  'lockset dataflow analysis over all paths of the compiled public functions, and ownership tracking over '
  'histories of calls on one abstract memory',
  'All paths for the lock rules; enumerated histories for the release rules; eight target configurations.')
