PROPERTY='P15'
NEEDS='a caller of the AArch64 float kernel that keeps a live double in callee-saved register d13 across the call'
BREAKS='The kernel overwrites v13 without declaring it, so the caller\'s value in d13 is destroyed.'
EDITS=[]
import re
_s=open('/repo/internal/kernel_neon.h').read()
_i=_s.index('struct NEON_64bit_GEMM_Int8Operands_LhsNonzero')
_j=_s.index('"v13", ',_i)
_k=_s.rindex('\n',0,_s.rindex('\n',0,_j))
_seg=_s[_k:_j+len('"v13", ')]
assert _s.count(_seg)>=1
_e=_s.index(');',_j)
_full=_s[_s.rindex('clobber',0,_j):_e]
EDITS=[('internal/kernel_neon.h',_s[_i:_j+len('"v13", ')],_s[_i:_j])]
DEMO='''aarch64-linux-gnu-g++ -std=c++11 -O2 -I. "$D/demo.cc" -o "$T/demo" -static -lpthread
timeout 100 qemu-aarch64 "$T/demo"
'''
FILES={'demo.cc':r'''
#include "public/gemmlowp.h"
#include <cstdio>
#include <cstring>
using namespace gemmlowp;
alignas(64) static std::uint8_t lhs[4096], rhs[4096];
alignas(64) static std::int32_t dst[4096];
int main() {
  NEON_64bit_GEMM_Int8Operands_LhsNonzero k;
  KernelBase* volatile p = &k;
  const KernelBase* kernel = p;
  unsigned long long in = 0x0123456789abcdefull, out = 0;
  asm volatile("fmov d13, %0" : : "r"(in) : "v13");
  kernel->Run(dst, 1, 4, lhs, rhs, 0, 64);
  asm volatile("fmov %0, d13" : "=r"(out));
  printf("%llx %llx\n", in, out);
  return in == out ? 0 : 1;
}
'''}
