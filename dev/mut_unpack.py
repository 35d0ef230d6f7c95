CHECKS=['P19','P20']
U='internal/unpack.h'; O='internal/output.h'; N='internal/output_neon.h'; S='internal/output_sse.h'; MS='internal/output_msa.h'
SW='internal/simd_wrappers.h'; SC='internal/simd_wrappers_common_neon_sse.h'; SN='internal/simd_wrappers_neon.h'; SS='internal/simd_wrappers_sse.h'
X={'P19'}; Y={'P20'}
M=[
 ('off-depth',X,[(U,'Mul(rhs_offset_block.buf.reg[i], depth)','Mul(rhs_offset_block.buf.reg[i], depth - (depth & 0))')]) if 0 else
 ('off-zp-swap',X,[(U,'AddConstant<KernelLhsZeroPointInput>(&lhs_offset_block);\n  AddConstant<KernelRhsZeroPointInput>','AddConstant<KernelRhsZeroPointInput>(&lhs_offset_block);\n  AddConstant<KernelLhsZeroPointInput>')]),
 ('off-srcrow',X,[(U,'LoadForBroadcasting<RegisterBlockType>(rhs_offset, src_col)','LoadForBroadcasting<RegisterBlockType>(rhs_offset, src_row)')]),
 ('off-refactor',(),[(U,'''  BroadcastMulAdd(lhs_sums_of_each_slice_block, rhs_offset_block, &acc);
  for (int i = 0; i < decltype(rhs_offset_block)::kRegisterCount; i++) {
    rhs_offset_block.buf.reg[i] = Mul(rhs_offset_block.buf.reg[i], depth);
  }
  BroadcastMulAdd(BroadcastAdd(rhs_sums_of_each_slice_block, rhs_offset_block),
                  lhs_offset_block, &acc);''','''  auto scaled = rhs_offset_block;
  for (int i = 0; i < decltype(rhs_offset_block)::kRegisterCount; i++) {
    scaled.buf.reg[i] = Mul(scaled.buf.reg[i], depth);
  }
  BroadcastMulAdd(rhs_sums_of_each_slice_block, lhs_offset_block, &acc);
  BroadcastMulAdd(scaled, lhs_offset_block, &acc);
  BroadcastMulAdd(lhs_sums_of_each_slice_block, rhs_offset_block, &acc);''')]),
 ('st-neon-u8-8x1',Y,[(N,'vst1_lane_u8(dst_ptr + 7 * row_stride, src.buf.reg[0], 7);','vst1_lane_u8(dst_ptr + 7 * row_stride, src.buf.reg[0], 6);')]),
 ('st-neon-i16',Y,[(N,'vst1_s16(dst->data(row + 7, col + 4),\n               vget_high_s16(vreinterpretq_s16_s32(b[3].val[1])));','vst1_s16(dst->data(row + 7, col + 4),\n               vget_high_s16(vreinterpretq_s16_s32(b[3].val[0])));')]),
 ('st-neon-8x8',Y,[(N,'result.buf.reg[5] = vreinterpret_u8_u32(c[1].val[1]);\n  result.buf.reg[6] = vreinterpret_u8_u32(c[2].val[1]);','result.buf.reg[5] = vreinterpret_u8_u32(c[2].val[1]);\n  result.buf.reg[6] = vreinterpret_u8_u32(c[1].val[1]);')]),
 ('sat-u8-254',Y,[(O,'data > 255 ? 255 : data < 0 ? 0','data > 255 ? 255 : data < 1 ? 0')]) if 0 else
 ('sat-u8-neg',Y,[(O,'data > 255 ? 255 : data < 0 ? 0 : data','data > 255 ? 255 : data < -255 ? 0 : data')]),
 ('sat-refactor',(),[(O,'output.reg[i] = data > 255 ? 255 : data < 0 ? 0 : data;','if (data < 0) data = 0;\n      output.reg[i] = std::min(data, 255);')]),
 ('sat-i16-neon',Y,[(N,'output.reg[0] = vqmovn_s32(input.reg[0]);','output.reg[0] = vmovn_s32(input.reg[0]);')]),
 ('sat-u8-neon-i8',Y,[(N,'int16x4_t res_16 = vqmovn_s32(input.reg[0]);\n    uint8x8_t','int16x4_t res_16 = vmovn_s32(input.reg[0]);\n    uint8x8_t')]),
 ('pc-pos',Y,[(O,'const int pos = Shape == VectorShape::Row ? col : row;','const int pos = Shape == VectorShape::Row ? row : col;')]),
 ('pc-order',Y,[(O,'''        LoadForBroadcasting<InputType>(output_stage.result_offset, pos);
    const auto dividend = BroadcastMul<InputType>(
        BroadcastAdd<InputType>(input, result_offset), result_mult_int);''','''        LoadForBroadcasting<InputType>(output_stage.result_offset, pos);
    const auto dividend = BroadcastAdd<InputType>(
        BroadcastMul<InputType>(input, result_mult_int), result_offset);''')]),
 ('fixe-left',Y,[(O,'left_shift = std::max(0, output_stage.result_exponent);','left_shift = std::max(0, output_stage.result_exponent - 1);')]),
 ('clamp-swap',(),[(O,'output.reg[i] = Min(Max(input.reg[i], min), max);','output.reg[i] = Max(Min(input.reg[i], max), min);')]),
 ('clamp-bug',Y,[(O,'output.reg[i] = Min(Max(input.reg[i], min), max);','output.reg[i] = i == 3 ? Min(input.reg[i], max) : Min(Max(input.reg[i], min), max);')]),
 ('sse-stores',Y,[(S,'StoreInt16x8(dst->data(row + 6, col), _mm_unpacklo_epi64(u5, u7));\n      StoreInt16x8(dst->data(row + 7, col), _mm_unpackhi_epi64(u5, u7));','StoreInt16x8(dst->data(row + 6, col), _mm_unpacklo_epi64(u5, u7));\n      StoreInt16x8(dst->data(row + 7, col), _mm_unpackhi_epi64(u5, u6));')]),
 ('sse-refactor',(),[(S,'''    for (int i = 0; i < 4; i++) {
      *dst->data(row + i, col) = (src.buf.reg[0] >> (8 * i));
    }
    for (int i = 0; i < 4; i++) {
      *dst->data(row + 4 + i, col) = (src.buf.reg[1] >> (8 * i));
    }''','''    for (int i = 0; i < 8; i++) {
      *dst->data(row + i, col) =
          static_cast<std::uint8_t>(src.buf.reg[i / 4] >> (8 * (i % 4)));
    }''')]),
 ('add-const',X,[(SW,'block->buf.reg[i] = Add(block->buf.reg[i], dup);','if (i == 0) block->buf.reg[i] = Add(block->buf.reg[i], dup);')]),
 ('scale-stage-round',Y,[(O,'RoundingDivideByPOT(dividend.buf.reg[i], result_shift);','ShiftRight(dividend.buf.reg[i], result_shift);')]),
 ('fix-order',Y,[(O,'''          Add(RoundingDivideByPOT(mulhigh_val, output_stage.result_shift),
              result_offset_after_shift);''','''          RoundingDivideByPOT(Add(mulhigh_val, result_offset_after_shift), output_stage.result_shift);''')]),
]
