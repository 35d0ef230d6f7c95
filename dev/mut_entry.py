CHECKS=['P13']
D='internal/dispatch_gemm_shape.h'; G='public/gemmlowp.h'; O='public/output_stages.h'; M_='public/map.h'; BD='public/bit_depth.h'; KD='internal/kernel_default.h'; OU='internal/output.h'
X={'P13'}
M=[
 ('swap-off',X,[(D,'Transpose(rhs_offset), Transpose(lhs_offset),','Transpose(lhs_offset), Transpose(rhs_offset),')]),
 ('tuple5',X,[(D,'''                         Transpose(std::get<4>(t)));
}''','''                         std::get<4>(t));
}''')]) if False else
 ('tuple6-swap',X,[(D,'''  return std::make_tuple(Transpose(std::get<0>(t)), Transpose(std::get<1>(t)),
                         Transpose(std::get<2>(t)), Transpose(std::get<3>(t)),
                         Transpose(std::get<4>(t)), Transpose(std::get<5>(t)));''','''  return std::make_tuple(Transpose(std::get<0>(t)), Transpose(std::get<1>(t)),
                         Transpose(std::get<2>(t)), Transpose(std::get<0>(t)),
                         Transpose(std::get<4>(t)), Transpose(std::get<5>(t)));''')]),
 ('tuple2',X,[(D,'  return std::make_tuple(Transpose(std::get<0>(t)), Transpose(std::get<1>(t)));','  return std::tuple<TransposeType<T0>, TransposeType<T1>>(Transpose(std::get<0>(t)), TransposeType<T1>(Pick2(t)));'),(D,'template <typename T0, typename T1>\nstd::tuple<TransposeType<T0>, TransposeType<T1>> TransposeTuple(','template <typename T>\nTransposeType<T> Pick2(const std::tuple<T, T>& t) { return Transpose(std::get<0>(t)); }\ntemplate <typename T0, typename T1>\nTransposeType<T1> Pick2(const std::tuple<T0, T1>& t) { return Transpose(std::get<1>(t)); }\ntemplate <typename T0, typename T1>\nstd::tuple<TransposeType<T0>, TransposeType<T1>> TransposeTuple(')]),
 ('shift-lost',X,[(D,'    dst.result_shift = src.result_shift;\n    dst.result_offset = Tr','    dst.result_shift = 0;\n    dst.result_offset = Tr')]),
 ('pc-swap',X,[(D,'dst.result_mult_int = Transpose(src.result_mult_int);','dst.result_mult_int = Transpose(src.result_offset);')]),
 ('expo',X,[(D,'dst.result_offset_after_shift = src.result_offset_after_shift;','dst.result_offset_after_shift = 0;')]),
 ('stride',X,[(D,'return DstType(src.data(), src.cols(), src.rows(), src.stride());','return DstType(src.data(), src.cols(), src.rows());')]),
 ('vacuous',(),[(D,'if (rows == 0 || cols == 0 || depth == 0) {','if (!(rows && cols && depth)) {')]),
 ('vacuous2',X,[(D,'if (rows == 0 || cols == 0 || depth == 0) {','if (rows == 0 || cols == 0 || depth <= 1) {')]),
 ('std-pipeline',X,[(O,'quantize_down_stage.result_mult_int = result_mult_int;','quantize_down_stage.result_mult_int = result_mult_int & 0xffff;')]),
 ('std-shift',X,[(O,'quantize_down_stage.result_shift = result_shift;','quantize_down_stage.result_shift = result_shift & 15;')]),
 ('dup-size',X,[(G,'const OffsetColDup lhs_offset_vector(lhs_offset, lhs.rows());','const OffsetColDup lhs_offset_vector(static_cast<std::int16_t>(lhs_offset), lhs.rows());')]),
 ('vec-size',(),[(D,'return DstType(src.data(), src.size());','DstType r(src.data(), src.size());\n    return r;')]),
 ('refac-le',(),[(D,'if (rows < cols) {','const bool wide = cols > rows;\n  if (wide) {')]),
 ('refac-dispatch',(),[(D,'''    auto transposed_result_map = Transpose(*result);
    return DispatchGemmShape<InputScalar, OutputScalar, BitDepthParams>(
        context, Transpose(rhs), Transpose(lhs), &transposed_result_map,
        Transpose(rhs_offset), Transpose(lhs_offset),
        TransposeTuple(output_pipeline));''','''    auto transposed_result_map = Transpose(*result);
    const auto tl = Transpose(rhs);
    const auto tr = Transpose(lhs);
    const auto pipeline = TransposeTuple(output_pipeline);
    DispatchGemmShape<InputScalar, OutputScalar, BitDepthParams>(
        context, tl, tr, &transposed_result_map,
        Transpose(rhs_offset), Transpose(lhs_offset),
        pipeline);
    return;''')]),
]
