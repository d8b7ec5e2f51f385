#pragma once
#include "common.h"
struct Geo { V3 A, B, C; };
// 0 A,B free; 1 B=C; 2 A=C; 3 A=B; 4 A=B=C; 5 B rational; 6 A rational; 7 one symbolic direction each (x / z), rest rational; 8 axis: all on z; 9 A on x, B on y axis
inline Geo geo(int pat, int seed) {
    if (pat >= 101 && pat <= 104) { Rnd r(seed); V3 z = {S(0), S(0), S(0)}, C = {r.any(), r.any(), r.any()}, a = {r.any(), r.any(), r.any()}, b = {r.any(), r.any(), r.any()}; if (pat == 101 || pat == 104) b = z; if (pat == 102 || pat == 104) a = z; if (pat == 103) b = a; return {C + a, C + b, C}; }      // coinciding rational centres
    Rnd r(seed); V3 C = vec("C"), a = vec("A"), b = vec("B"); V3 ra = {r.any(), r.any(), r.any()}, rb = {r.any(), r.any(), r.any()}; S z(0);
    switch (pat) { case 1: b = {z, z, z}; break; case 2: a = {z, z, z}; break; case 3: b = a; break; case 4: a = b = {z, z, z}; break; case 5: b = rb; break; case 6: a = ra; break;
        case 7: a = {a[0], ra[1], ra[2]}; b = {rb[0], rb[1], b[2]}; break; case 8: a = {z, z, a[2]}; b = {z, z, b[2]}; break; case 9: a = {a[0], z, z}; b = {z, b[1], z}; break; case 10: a = ra; b = rb; break; }
    if (pat >= 7 || pat == 10) C = {r.any(), r.any(), r.any()};
    return {C + a, C + b, C}; }
