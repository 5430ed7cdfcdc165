#include <stdio.h>
#include <stdlib.h>
#include "vnd.h"
static FILE *in;
static uint64_t next (void)
{
    unsigned long long v = 0;
    if (!in) { const char *p = getenv("VND_INPUT"); in = p ? fopen(p, "r") : NULL; if (!in) { fprintf(stderr, "VND: no input\n"); exit(3); } }
    if (fscanf(in, "%llu", &v) != 1) { return 0; }
    return v;
}
uint8_t  nd_u8 (void)  { return (uint8_t)next(); }
uint16_t nd_u16 (void) { return (uint16_t)next(); }
uint32_t nd_u32 (void) { return (uint32_t)next(); }
uint64_t nd_u64 (void) { return next(); }
void v_obs (uint64_t v) { printf("REPLAY-OBS %llu\n", (unsigned long long)v); }
void v_assume_fail (const char *c) { printf("REPLAY-ASSUME-FAILED %s\n", c); fflush(stdout); _Exit(4); }
void v_prop_fail (const char *m) { printf("REPLAY-PROP-FAILED %s\n", m); fflush(stdout); _Exit(1); }
/* a witness assertion is the end of its trace */
void v_witness (const char *m) { printf("REPLAY-WITNESS %s\n", m); fflush(stdout); }
void milter_init (void);
static void __attribute__((constructor)) start (void) { setvbuf(stdout, NULL, _IOLBF, 0); milter_init(); }
