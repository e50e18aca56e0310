/* Shared declarations of the simulated OpenMP / allocator runtime. */
#ifndef SIMRT_H
#define SIMRT_H
#include <stddef.h>
#include <stdint.h>
void sim_yield(int kind, const void *addr);
#endif
