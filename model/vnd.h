/* Nondeterministic choice, shared by the symbolic and the native (replay)
 * build of every harness. */
#ifndef VND_H
#define VND_H
#include <stdint.h>
#include <stddef.h>
uint8_t  nd_u8 (void);
uint16_t nd_u16 (void);
uint32_t nd_u32 (void);
uint64_t nd_u64 (void);
/* an observation: has to agree between a witness trace and its replay */
void v_obs (uint64_t v);
#define VOBS(v) v_obs((uint64_t)(v))
#ifdef VSYMBOLIC
#define VASSUME(c)  __CPROVER_assume(c)
#define VASSERT(c, msg) __CPROVER_assert((c), "PROP " msg)
#define VWITNESS(msg) __CPROVER_assert(0, "WITNESS " msg)
#else
void v_assume_fail (const char *c);
void v_prop_fail (const char *msg);
void v_witness (const char *msg);
#define VASSUME(c)  do { if (!(c)) v_assume_fail(#c); } while (0)
#define VASSERT(c, msg) do { if (!(c)) v_prop_fail(msg); } while (0)
#define VWITNESS(msg) v_witness(msg)
#endif
/* witness reached only under a condition */
#define VWITNESS_IF(c, msg) do { if (c) VWITNESS(msg); } while (0)
/* a string of n symbolic characters */
#ifdef VSYMBOLIC
void v_known_text (const char *p, size_t n);
void v_formatting (int on);
#else
#define v_formatting(on)
#define v_known_text(p, n)
#endif
static inline void nd_text (char *s, int n) { for (int i = 0; i < n; i++) { s[i] = nd_u8(); VASSUME(s[i]); } s[n] = 0; v_known_text(s, n); }
/* value in lo..hi */
static inline uint32_t nd_range (uint32_t lo, uint32_t hi) { uint32_t v = nd_u32(); VASSUME(v >= lo && v <= hi); return v; }
static inline int nd_bool (void) { return nd_u8() & 1; }
#endif
