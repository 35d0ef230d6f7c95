CHECKS=['P24']
N='internal/kernel_neon.h'; S='internal/kernel_sse.h'; A='internal/kernel_avx.h'; MS='internal/kernel_msa.h'; R='internal/kernel_reference.h'
X={'P24'}
M=[
 ('sse-off',X,[(S,'"pmovzxbw 0x28(%[lhs_ptr]), %%xmm0','"pmovzxbw 0x20(%[lhs_ptr]), %%xmm0')]),
 ('sse-loop',X,[(S,'"ja outerLoop2%=\\n\\t"','"jnb outerLoop2%=\\n\\t"')]),
 ('neon64-swap',X,[(N,'"sadalp  v28.4s, v12.8h\\n"\n        "smull    v12.8h,  v0.8b,  v5.8b\\n"','"sadalp  v28.4s, v13.8h\\n"\n        "smull    v12.8h,  v0.8b,  v5.8b\\n"')]),
 ('neon64-unsigned-add',X,[(N,'"sadalp  v31.4s, v15.8h\\n"\n\n        // Reduce','"uadalp  v31.4s, v15.8h\\n"\n\n        // Reduce')]),
 ('dot-word',X,[(N,'".word 0x6f81e89e  // udot v30.4s, v4.16b, v1.4b[2]\\n"\n        ".word 0x6fa1e89f  // udot v31.4s, v4.16b, v1.4b[3]\\n"\n\n        "bne','".word 0x4f81e89e  // udot v30.4s, v4.16b, v1.4b[2]\\n"\n        ".word 0x6fa1e89f  // udot v31.4s, v4.16b, v1.4b[3]\\n"\n\n        "bne')]),
 ('neon12-more',X,[(N,"""        GEMMLOWP_LABEL_32
        ":\\n" GEMMLOWP_ACCUMULATE_8_LEVELS_OF_DEPTH""","""        GEMMLOWP_LABEL_32
        ":\\n" GEMMLOWP_ACCUMULATE_8_LEVELS_OF_DEPTH GEMMLOWP_ACCUMULATE_8_LEVELS_OF_DEPTH"""),(N,'"cmp %[run_depth], #32\\n"','"cmp %[run_depth], #40\\n"')]),
 ('neon32-start',X,[(N,'"cmp %[start_depth], #0\\n"\n\n        // Reduce 32bit','"cmp %[start_depth], #16\\n"\n\n        // Reduce 32bit')]),
 ('msa-hadd',X,[(MS,'"dotp_s.h   $w29, $w19, $w23\\n"\n        "ld.b       $w22','"dotp_u.h   $w29, $w19, $w23\\n"\n        "ld.b       $w22')]),
 ('ref-row',X,[(R,'*accumulator_coeff_ptr +=\n                    std::int32_t(*lhs_coeff_ptr) * std::int32_t(*rhs_coeff_ptr);','*accumulator_coeff_ptr +=\n                    std::int16_t(std::int32_t(*lhs_coeff_ptr) * std::int32_t(*rhs_coeff_ptr));')]),
 ('ref-refac',(),[(R,'std::int32_t(*lhs_coeff_ptr) * std::int32_t(*rhs_coeff_ptr);','static_cast<std::uint16_t>(*lhs_coeff_ptr * *rhs_coeff_ptr);')]),
 ('sse-jnz',('P24',),[(S,'"subq $2, %[run_depth_cells]\\n\\t"\n        "ja outerLoop2%=\\n\\t"','"subq $1, %[run_depth_cells]\\n\\t"\n        "decq %[run_depth_cells]\\n\\t"\n        "jnz outerLoop2%=\\n\\t"')]),
]
