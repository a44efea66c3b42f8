// Supplied by the verification harness when chiavdf is built with -DCHIAVDF_VERIF_HOOKS.
#pragma once
#include <cstdint>
extern void chiavdf_verif_point(const char* name, uint64_t a, uint64_t b);
#define CHIAVDF_VERIF_POINT(name, arg1, arg2) chiavdf_verif_point(name, (uint64_t)(arg1), (uint64_t)(arg2))
#ifndef VERIF_SCALE
#define VERIF_SCALE 1
#endif
#define CHIAVDF_VERIF_UNSCALE(x) ((x) * VERIF_SCALE)
