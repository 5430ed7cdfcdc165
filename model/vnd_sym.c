#include <stdint.h>
#include "vnd.h"
uint8_t  __VERIFIER_nondet_uchar (void);
uint16_t __VERIFIER_nondet_ushort (void);
uint32_t __VERIFIER_nondet_uint (void);
uint64_t __VERIFIER_nondet_ulong (void);
uint8_t  nd_u8 (void)  { uint8_t  v = __VERIFIER_nondet_uchar();  __CPROVER_input("nd", v); return v; }
uint16_t nd_u16 (void) { uint16_t v = __VERIFIER_nondet_ushort(); __CPROVER_input("nd", v); return v; }
uint32_t nd_u32 (void) { uint32_t v = __VERIFIER_nondet_uint();   __CPROVER_input("nd", v); return v; }
uint64_t nd_u64 (void) { uint64_t v = __VERIFIER_nondet_ulong();  __CPROVER_input("nd", v); return v; }
void v_obs (uint64_t v) { __CPROVER_output("obs", v); }
