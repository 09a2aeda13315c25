// Stand-in for the AOCL-Utils CPU query header (AOCL-Utils is not installed here).
// Written from its use in source/core/dynamic_dispatch/context.hpp; queries the real CPU.
#pragma once
#include <cpuid.h>
#include <string>
namespace Au {
enum class EUarch { Unknown, Zen, ZenPlus, Zen2, Zen3, Zen4, Zen5, Zen6, Max };
enum class ECpuidFlag {
    avx2, avx512f, avx512dq, avx512vl, avx512ifma, avx512cd, avx512bw, avx512vbmi,
    avx512_4vnniw, avx512_vpopcntdq, avx512_fp16
};
class X86Cpu {
  public:
    X86Cpu(int = 0) {}
    EUarch getUarch() const { return EUarch::Unknown; }
    bool isAMD() const { return false; }
    bool hasFlag(ECpuidFlag f) const {
        __builtin_cpu_init();
        switch (f) {
        case ECpuidFlag::avx2: return __builtin_cpu_supports("avx2");
        case ECpuidFlag::avx512f: return __builtin_cpu_supports("avx512f");
        case ECpuidFlag::avx512dq: return __builtin_cpu_supports("avx512dq");
        case ECpuidFlag::avx512vl: return __builtin_cpu_supports("avx512vl");
        case ECpuidFlag::avx512ifma: return __builtin_cpu_supports("avx512ifma");
        case ECpuidFlag::avx512cd: return __builtin_cpu_supports("avx512cd");
        case ECpuidFlag::avx512bw: return __builtin_cpu_supports("avx512bw");
        case ECpuidFlag::avx512vbmi: return __builtin_cpu_supports("avx512vbmi");
        case ECpuidFlag::avx512_4vnniw: return false;
        case ECpuidFlag::avx512_vpopcntdq: return __builtin_cpu_supports("avx512vpopcntdq");
        case ECpuidFlag::avx512_fp16: {
            unsigned a, b, c, d;
            if (!__get_cpuid_count(7, 0, &a, &b, &c, &d)) return false;
            return (d >> 23) & 1u;
        }
        }
        return false;
    }
};
} // namespace Au
