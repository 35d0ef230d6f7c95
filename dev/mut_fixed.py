CHECKS=['P17']
F='fixedpoint/fixedpoint.h'; S='fixedpoint/fixedpoint_sse.h'; A='fixedpoint/fixedpoint_avx.h'; N='fixedpoint/fixedpoint_neon.h'; W='fixedpoint/fixedpoint_wasmsimd.h'; MS='fixedpoint/fixedpoint_msa.h'
X={'P17'}
M=[
 ('rdiv-threshold',X,[(F,'Add(ShiftRight(mask, 1), BitAnd(MaskIfLessThan(x, zero), one));','ShiftRight(mask, 1);')]),
 ('srdhm-nudge',X,[(F,'ab_64 >= 0 ? (1 << 30) : (1 - (1 << 30));','ab_64 >= 0 ? (1 << 30) : -(1 << 30);')]),
 ('srdhm-gt0',(),[(F,'ab_64 >= 0 ? (1 << 30)','ab_64 > 0 ? (1 << 30)')]),
 ('srdhm-nosat',X,[(F,'return overflow ? std::numeric_limits<std::int16_t>::max() : ab_x2_high16;','return ab_x2_high16;')]),
 ('srdhm-refactor',(),[(F,'  std::int32_t nudge = ab_64 >= 0 ? (1 << 30) : (1 - (1 << 30));\n  std::int32_t ab_x2_high32 =\n      static_cast<std::int32_t>((ab_64 + nudge) / (1ll << 31));\n  return overflow ?','  std::int32_t ab_x2_high32 =\n      static_cast<std::int32_t>((ab_64 + (1ll << 30)) >> 31);\n  return overflow ?')]),
 ('srdhm-refactor2',(),[(F,'  bool overflow = a == b && a == std::numeric_limits<std::int32_t>::min();\n',''),(F,'return overflow ? std::numeric_limits<std::int32_t>::max() : ab_x2_high32;','if (ab_64 == (1ll << 62)) { return std::numeric_limits<std::int32_t>::max(); }\n  return ab_x2_high32;')]),
 ('halfsum-refactor',(),[(F,'  std::int32_t sign = sum >= 0 ? 1 : -1;\n  return static_cast<std::int16_t>((sum + sign) / 2);','  return static_cast<std::int16_t>((sum + 1) >> 1);')]),
 ('halfsum-bug',X,[(F,'  std::int64_t sum = a64 + b64;\n  std::int64_t sign','  std::int64_t sum = a + b;\n  std::int64_t sign')]),
 ('rdiv-refactor',(),[(F,'  const IntegerType remainder = BitAnd(x, mask);\n  const IntegerType threshold =\n      Add(ShiftRight(mask, 1), BitAnd(MaskIfLessThan(x, zero), one));\n  return Add(ShiftRight(x, exponent),\n             BitAnd(MaskIfGreaterThan(remainder, threshold), one));','  const IntegerType negative = MaskIfLessThan(x, zero);\n  const IntegerType threshold = Sub(ShiftRight(mask, 1), negative);\n  const IntegerType remainder = BitAnd(x, mask);\n  return Sub(ShiftRight(x, exponent), MaskIfGreaterThan(remainder, threshold));')]),
 ('sat-threshold',X,[(F,'((1 << (ScalarIntegerTypeBits - 1 - Exponent)) - 1);','((1 << (ScalarIntegerTypeBits - 1 - Exponent)));')]),
 ('sat-neg-threshold',(),[(F,'MaskIfLessThan(x, Dup<IntegerType>(-threshold));','MaskIfLessThan(x, Dup<IntegerType>(-threshold - 1));')]),
 ('sse-halfsum',X,[(S,'rounded_half_sum = _mm_srai_epi32(Add(sum, one), 1);','rounded_half_sum = _mm_srai_epi32(sum, 1);')]),
 ('sse-lt16',X,[(S,'BitNot(MaskIfLessThan(a, b));\n}\n\ntemplate <>\ninline __m128i MaskIfLessThanOrEqual','MaskIfGreaterThan(a, b);\n}\n\ntemplate <>\ninline __m128i MaskIfLessThanOrEqual')]),
 ('sse-blend',X,[(S,'a1b1_a3b3_rounded_2x, 0xcc)','a1b1_a3b3_rounded_2x, 0xc0)')]),
 ('sse-or-refactor',(),[(S,'  return _mm_or_si128(_mm_and_si128(if_mask, then_val),\n                      _mm_andnot_si128(if_mask, else_val));','  return _mm_blendv_epi8(else_val, then_val, if_mask);')]),
 ('sse-adds-wide',X,[(S,'_mm_adds_epi16(a.v, b.v)','_mm_adds_epu16(a.v, b.v)')]),
 ('neon-rdiv',X,[(N,'const int16x8_t fixup = vshrq_n_s16(vandq_s16(x, shift_vec), 15);','const int16x8_t fixup = vshrq_n_s16(x, 15);')]),
 ('neon-qadd',X,[(N,'    const int32x4_t fixed_up_x = vqaddq_s32(x, fixup);','    const int32x4_t fixed_up_x = vaddq_s32(x, fixup);')]),
 ('neon-rhadd',X,[(N,'return vrhaddq_s32(a, b);','return vhaddq_s32(a, b);')]),
 ('neon-all',X,[(N,'  a = vandq_s16(a, vextq_s16(a, a, 4));\n','')]),
 ('avx-cmp',X,[(A,'return _mm256_cmpgt_epi32(b, a);','return _mm256_cmpgt_epi32(a, b);')]),
 ('avx-mulhrs',X,[(A,'_mm256_xor_si256(result_unsaturated, saturation_mask)','_mm256_or_si256(result_unsaturated, saturation_mask)')]),
 ('one-wrong',X,[(F,'kIntegerBits == 0\n            ? ScalarRawMax()','kIntegerBits == 0\n            ? ScalarRawMin()')]),
 ('rescale-sign',X,[(F,'kExponent = tIntegerBitsSrc - tIntegerBitsDst','kExponent = tIntegerBitsDst - tIntegerBitsSrc')]),
 ('shiftleft-nosat-ok',(),[(F,'  return wide_shifted < min\n             ? min\n             : wide_shifted > max ? max\n                                  : static_cast<tIntegerType>(wide_shifted);','  (void)min;\n  (void)max;\n  return static_cast<tIntegerType>(wide_shifted);')]),
 ('sse-neg',(),[(S,'return _mm_sign_epi32(a, _mm_set1_epi32(-1));','return _mm_sub_epi32(_mm_setzero_si128(), a);')]),
 ('msa-aver',X,[(MS,'__builtin_msa_mulr_q_h(a, b)','__builtin_msa_mul_q_h(a, b)')]),
 ('sat8',X,[(F,'std::max(static_cast<int16_t>(std::numeric_limits<int8_t>::min()), sum)','std::max(static_cast<int16_t>(std::numeric_limits<int8_t>::min() + 1), sum)')]),
 ('scalar-loop-refactor',(),[(F,'  return a >> offset;','  for (int i = 0; i < offset; i++) a = static_cast<tIntegerType>(a >> 1);\n  return a;')]),
]
