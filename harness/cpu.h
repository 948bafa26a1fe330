// Probe of the processor state code is compiled to rely on.
#pragma once
#include "vf.h"
namespace vf {
struct CpuState { uint16_t cw, tag; uint32_t mxcsr; bool df; };
inline CpuState cpu_state (void)
{
    CpuState s; struct { uint32_t w [7]; } env; uint64_t fl;
    asm volatile ("fnstenv %0\n\tfldenv %0" : "+m"(env) :: "memory");
    asm volatile ("stmxcsr %0" : "=m"(s.mxcsr));
    asm volatile ("lea -128(%%rsp),%%rsp\n\tpushfq\n\tpopq %0\n\tlea 128(%%rsp),%%rsp" : "=r"(fl) :: "memory");
    s.cw = uint16_t (env.w[0]); s.tag = uint16_t (env.w[2]); s.df = fl & 0x400;
    s.mxcsr &= ~uint32_t (0x3F);	// without the sticky exception flags
    return s;
}
inline void cpu_check (const char* what)
{
    CpuState s = cpu_state();
    if (s.df) asm volatile ("cld");
    if (s.tag != 0xFFFF) asm volatile ("emms");
    VC (!s.df, "cpu-direction", "%s left the direction flag set", what);
    VC (s.tag == 0xFFFF, "cpu-fpu", "%s left the floating point stack in use (tag word %04x)", what, s.tag);
    VC (s.cw == 0x037F && s.mxcsr == 0x1F80, "cpu-control", "%s changed the floating point control words (%04x %08x)", what, s.cw, s.mxcsr);
}
}
