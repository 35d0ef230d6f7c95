CHECKS=['P22']
P='internal/pack.h'; C='internal/compute.h'; S='internal/single_thread_gemm.h'; T='internal/multi_thread_gemm.h'; U='internal/unpack.h'; BP='internal/block_params.h'; A='internal/allocator.h'; CM='internal/common.h'
X={'P22'}
M=[
 ('unpack-1x4-skip',(),[(U,'for (; r <= dst_block.rows - 4; r += 4) {\n      const int global_row = r + dst_block.start_row;\n      UnpackResultBlock<KernelFormat, Int32x4x1>','for (; r < dst_block.rows - 4; r += 4) {\n      const int global_row = r + dst_block.start_row;\n      UnpackResultBlock<KernelFormat, Int32x4x1>')]),
 ('unpack-global-col',X,[(U,'''          UnpackResultBlock<KernelFormat, Int32x1x4>(
              src_map, output_pipeline_executor_1x4, dst,
              lhs_sums_of_each_slice, rhs_sums_of_each_slice, lhs_offset,
              rhs_offset, depth, r, c, global_row, global_col, global_row,
              global_col);''','''          UnpackResultBlock<KernelFormat, Int32x1x4>(
              src_map, output_pipeline_executor_1x4, dst,
              lhs_sums_of_each_slice, rhs_sums_of_each_slice, lhs_offset,
              rhs_offset, depth, r, c, global_row, c, global_row,
              global_col);''')]),
 ('st-offset-block',X,[(S,'lhs_offset.block(r, rs)','lhs_offset.block(0, rs)')]),
 ('mt-offset-block',X,[(T,'lhs_offset.block(curr_result_block.start_row, rs)','lhs_offset.block(r, rs)')]),
 ('mt-rowround',X,[(T,'rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));','n == task_count - 1 && task_count > 4 ? rows - 1 : rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));')]),
 ('mt-last',X,[(T,'next_start_row = std::min(\n          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));','next_start_row = std::min(\n          rows, start_row + RoundUp<KernelFormat::kRows>(rows / task_count));')]),
 ('seek-depth',X,[(P,'std::min<int>(params_.l1_depth, params_.l2_depth - start_depth);','params_.l1_depth;')]),
 ('compute-startdepth',X,[(C,'packed_rhs_.current_data(), start_depth, depth);','packed_rhs_.current_data(), start_depth > 64 ? 0 : start_depth, depth);')]),
 ('packrhs-once',X,[(S,'const bool pack_rhs_once = block_params.l2_cols >= cols;','const bool pack_rhs_once = block_params.l2_cols * 2 >= cols;')]),
 ('reserve-small',X,[(P,'allocator_->Reserve<std::uint8_t>(params_.l2_width * params_.l2_depth);','allocator_->Reserve<std::uint8_t>(params_.l2_width * (params_.l2_depth - 1));')]),
 ('align-off',X,[(A,'const std::size_t bytes = RoundUp<kAlignment>(n * sizeof(T));','const std::size_t bytes = RoundUp<kAlignment>(n);')]),
 ('memset-sums',(),[(P,'sizeof(std::int32_t) * packed_side_block_->params().l2_width);\n    for','sizeof(std::int32_t) * src_map_.width());\n    for')]),
 ('l2depth',X,[(BP,'l2_depth = RoundUp<kRegisterSize>(depth);','l2_depth = RoundUp<KernelFormat::kDepth>(depth);')]),
 ('refac-loop',(),[(S,'''  for (int r = 0; r < rows; r += block_params.l2_rows) {
    int rs = std::min(block_params.l2_rows, rows - r);
''','''  int remaining_rows = rows;
  for (int r = 0; remaining_rows > 0; r += block_params.l2_rows) {
    int rs = std::min(block_params.l2_rows, remaining_rows);
    remaining_rows -= rs;
''')]),
 ('refac-rows',(),[(T,'''      next_start_row = std::min(
          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));''','''      const int rounded =
          RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count);
      next_start_row = rounded < rows ? rounded : rows;''')]),
 ('refac-run',(),[(P,'''      const int register_aligned_depth = RoundDown<kRegisterSize>(depth);
      if (register_aligned_depth) {
        for (int d = 0; d < register_aligned_depth; d += kRegisterSize) {
          b.UseCompleteSrcInPlace(src_map_.block(start_width, start_depth + d,
                                                 width, kRegisterSize));
          b.Pack(packed_side_block_, start_width);
        }
      }
      if (register_aligned_depth < depth) {''','''      int register_aligned_depth = 0;
      while (depth - register_aligned_depth >= kRegisterSize) {
          b.UseCompleteSrcInPlace(src_map_.block(start_width, start_depth + register_aligned_depth,
                                                 width, kRegisterSize));
          b.Pack(packed_side_block_, start_width);
          register_aligned_depth += kRegisterSize;
      }
      if (register_aligned_depth != depth) {''')]),
]
