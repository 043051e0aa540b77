/* Force-included before every translation unit: the cpu_set_t macros of <sched.h> expand to
 * bit arithmetic; the analyses want to see them as operations on sets.  The signatures are the
 * documented ones (CPU_SET(3)). */
#ifndef VERIF_CPUSET_MODEL_H
#define VERIF_CPUSET_MODEL_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <sched.h>
#undef CPU_SET
#undef CPU_CLR
#undef CPU_ISSET
#undef CPU_ZERO
#undef CPU_COUNT
#undef CPU_AND
#undef CPU_OR
#undef CPU_XOR
#undef CPU_EQUAL
#undef CPU_SET_S
#undef CPU_CLR_S
#undef CPU_ISSET_S
#undef CPU_ZERO_S
#undef CPU_COUNT_S
#undef CPU_AND_S
#undef CPU_OR_S
#undef CPU_XOR_S
#undef CPU_EQUAL_S
void CPU_SET(int cpu, cpu_set_t *set);
void CPU_CLR(int cpu, cpu_set_t *set);
int  CPU_ISSET(int cpu, const cpu_set_t *set);
void CPU_ZERO(cpu_set_t *set);
int  CPU_COUNT(const cpu_set_t *set);
void CPU_AND(cpu_set_t *dest, const cpu_set_t *a, const cpu_set_t *b);
void CPU_OR(cpu_set_t *dest, const cpu_set_t *a, const cpu_set_t *b);
void CPU_XOR(cpu_set_t *dest, const cpu_set_t *a, const cpu_set_t *b);
int  CPU_EQUAL(const cpu_set_t *a, const cpu_set_t *b);
void CPU_SET_S(int cpu, size_t size, cpu_set_t *set);
void CPU_CLR_S(int cpu, size_t size, cpu_set_t *set);
int  CPU_ISSET_S(int cpu, size_t size, const cpu_set_t *set);
void CPU_ZERO_S(size_t size, cpu_set_t *set);
int  CPU_COUNT_S(size_t size, const cpu_set_t *set);
void CPU_AND_S(size_t size, cpu_set_t *dest, const cpu_set_t *a, const cpu_set_t *b);
void CPU_OR_S(size_t size, cpu_set_t *dest, const cpu_set_t *a, const cpu_set_t *b);
void CPU_XOR_S(size_t size, cpu_set_t *dest, const cpu_set_t *a, const cpu_set_t *b);
int  CPU_EQUAL_S(size_t size, const cpu_set_t *a, const cpu_set_t *b);
#endif
