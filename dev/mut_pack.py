CHECKS=['P21']
P='internal/pack.h'; N='internal/pack_neon.h'; S='internal/pack_sse.h'; A='internal/pack_avx.h'; MS='internal/pack_msa.h'
X={'P21'}
M=[
 ('memset0',X,[(P,'memset(buf_, kZeroPointInputValue, kKernelWidth * kRegisterSize);','memset(buf_, 0, kKernelWidth * kRegisterSize);')]),
 ('sum-narrow',X,[(N,'''          sums_of_2_cells[cell][i] = vaddl_u8(
              vget_low_u8(
                  src_lines_intertwined_4x[2 * cell + outer].val[inner]),
              vget_high_u8(
                  src_lines_intertwined_4x[2 * cell + outer].val[inner]));''','''          sums_of_2_cells[cell][i] = vmovl_u8(vadd_u8(
              vget_low_u8(
                  src_lines_intertwined_4x[2 * cell + outer].val[inner]),
              vget_high_u8(
                  src_lines_intertwined_4x[2 * cell + outer].val[inner])));''')]),
 ('neon-movl-signed',X,[(N,'int32x4_t s = vreinterpretq_s32_u32(vmovl_u16(sums_of_16[cell]));','int32x4_t s = vmovl_s16(vreinterpret_s16_u16(vadd_u16(sums_of_16[cell], vdup_n_u16(0x8000))));')]),
 ('neon-movl-signed-ok',(),[(N,'int32x4_t s = vreinterpretq_s32_u32(vmovl_u16(sums_of_16[cell]));','int32x4_t s = vmovl_s16(vreinterpret_s16_u16(sums_of_16[cell]));')]),
 ('int8-sum16',X,[(N,'sum = vpadalq_s16(sum, sums8);\n      vst1q_s32(sums_ptr, sum);\n    } else {\n      assert(Width == 2);\n      int32x2_t sum = vld1_s32(sums_ptr);\n      int16x4_t sums8 =\n          vpadd_s16(vget_low_s16(sums4[0]), vget_high_s16(sums4[0]));\n      sum = vpadal_s16(sum, sums8);\n      vst1_s32(sums_ptr, sum);\n    }\n    dst->seek_forward_n_cells(1);\n  }\n};\n\ntemplate <int Width>\nusing Int8Inputs','sum = vpadalq_s16(sum, vqaddq_s16(sums8, vdupq_n_s16(32000)));\n      vst1q_s32(sums_ptr, sum);\n    } else {\n      assert(Width == 2);\n      int32x2_t sum = vld1_s32(sums_ptr);\n      int16x4_t sums8 =\n          vpadd_s16(vget_low_s16(sums4[0]), vget_high_s16(sums4[0]));\n      sum = vpadal_s16(sum, sums8);\n      vst1_s32(sums_ptr, sum);\n    }\n    dst->seek_forward_n_cells(1);\n  }\n};\n\ntemplate <int Width>\nusing Int8Inputs')]),
 ('sse-shuffle',X,[(S,'_mm_shuffle_epi32(xmm10, 0xee)','_mm_shuffle_epi32(xmm10, 0xea)')]),
 ('sse-adds',X,[(S,'xmm2 = _mm_madd_epi16(xmm1, one);','xmm2 = _mm_madd_epi16(_mm_min_epi16(xmm1, _mm_set1_epi16(254)), one);')]),
 ('avx-perm',X,[(A,'_mm256_permute4x64_epi64(ymm14, 0xd8)','_mm256_permute4x64_epi64(ymm14, 0x98)')]),
 ('seek',X,[(P,'dst->seek_forward_n_cells(kCells * kRegisterSize / kCellDepth);','dst->seek_forward_n_cells(kCells * (kRegisterSize / kCellDepth) - (kCells == 1 ? 0 : 1));')]),
 ('depthmajor-copy',X,[(P,'memcpy(buf_ + d * kKernelWidth, src.data(0, d), src.width());','memcpy(buf_ + d * kKernelWidth, src.data(0, d), std::min<int>(src.width(), 16));')]),
 ('refac-while',(),[(P,'''      for (int w = 0; w < src.width(); w++) {
        memcpy(buf_ + w * kRegisterSize, src.data(w, 0), src.depth());
      }''','''      std::uint8_t* out = buf_;
      const KernelInputScalar* in = src.data();
      for (int left = src.width(); left > 0; --left) {
        for (int k = 0; k < src.depth(); k++) out[k] = in[k];
        out += kRegisterSize;
        in += src.stride();
      }''')]),
 ('refac-sum',(),[(P,'''            sum += kernel_val_unwrapped;
          }
          cell_sums_of_each_slice_ptr[w] += sum;''','''            cell_sums_of_each_slice_ptr[w] += kernel_val_unwrapped;
          }''')]),
]
