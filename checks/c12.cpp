// C12: an integral call writes to its outputs and to memory of its own, and to nothing else
#include "calls.h"
static void declare() {
    bool th = hs::tier == "thorough"; rsh_cap = 16; hs::setup = [] { bool real = getenv("C12_REAL") != nullptr; if (hs::symbolic && real) { sym::exact_mode = false; sym::simplify_cond = true; sym::tiny = 0; } LG(libgrpp_init)(); if (hs::symbolic && !real) snap_rad_norms(); };
    bool real = getenv("C12_REAL") != nullptr;
    for (int s = 0; s <= 10; s++) for (int k = 0; k < NK; k++) for (int la = 0; la <= s; la++) for (int lb = 0; la + lb <= s; lb++) { int L = s - la - lb; if (L > 3) continue; bool grad = k >= GOV, oc = k == OC || k == FULL || k == GOC || k == GFULL, so = k == SO || k == GSO; if ((k < T2 || k == GOV || k == GT1) && L) continue; if (so && !L) continue;
        if (!real) { int cap = k <= MOM ? 4 : k <= N5 ? 3 : k < OC ? 3 : oc ? 2 : k == GOV ? 3 : 2; cap += th; if (s > cap) continue;
            for (int pat : {0, 1, 2, 3, 4}) { if (!th && s == cap && (pat + la + k) % 3) continue; if (oc && !th && s > 1 && (pat + la) % 2) continue; hs::add(string(nm[k]) + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat), [=] { run(k, L, la, lb, pat, 1, {(la + lb) % 3}, false, false); }, 48); }
            if (la == lb) hs::add(string(nm[k]) + "_L" + to_string(L) + "_" + to_string(la) + "_same", [=] { run(k, L, la, lb, 3, 2, {2}, false, true); }, 48);
        } else { int cap = k <= MOM ? 8 : k <= N0 ? 6 : k == N4 ? -3 : k <= N5 ? 1 : k < OC ? 4 : k == FULL || k == GFULL ? 1 : oc ? 3 : k == GOV || k == GT1 ? 4 : 2; cap += 2 * th; if (s > cap) continue; if (!th && s > 2 && (la * 5 + lb * 3 + L + k) % 3) continue;
            for (int pat : {10, 1, 2, 4}) { if (pat != 10 && (s > 3 || (!th && (la + lb + L + k + pat) % 2))) continue; hs::add(string("r_") + nm[k] + "_L" + to_string(L) + "_" + to_string(la) + "_" + to_string(lb) + "_g" + to_string(pat), [=] { run(k, L, la, lb, pat == 10 ? 10 : pat + 100, 2, {(la + lb) % 3, (la + k) % 3}, true, false); }, 16); } } }
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
