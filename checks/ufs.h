#pragma once
// Uninterpreted integrals. In the symbolic runs an integral routine below the one under test is replaced by atoms named after the
// content of everything it is given (bits of every number: equal values are equal DAG nodes), so the assembly built on top of it is
// decided for every value those integrals can take. In the concrete replays nothing is replaced.
#include "common.h"
#include "geo.h"
#include <sstream>
inline string kd(double d) { char b[24]; uint64_t u; memcpy(&u, &d, 8); if (u == 0x8000000000000000ull) u = 0; snprintf(b, 24, "%llx,", (unsigned long long) u); return b; }
inline string k3(const double *v) { return kd(v[0]) + kd(v[1]) + kd(v[2]) + ";"; }
inline string kpot(const libgrpp_potential_t *p) { if (!p) return "()"; string s = "(" + to_string(p->L) + "," + to_string(p->J) + ":"; for (int i = 0; i < p->num_primitives; i++) s += to_string(p->powers[i]) + "," + kd(p->coeffs[i]) + kd(p->alpha[i]); return s + ")"; }
inline string kshell(const libgrpp_shell_t *s, bool origin = true) { string r = "<" + to_string(s->L) + ":"; if (origin) r += k3(s->origin); for (int i = 0; i < s->num_primitives; i++) r += kd(s->coeffs[i]) + kd(s->alpha[i]); return r + ">"; }
inline string kcart(const libgrpp_shell_t *s, int i) { return to_string(s->cart_list[3 * i]) + "." + to_string(s->cart_list[3 * i + 1]) + "." + to_string(s->cart_list[3 * i + 2]) + "|"; }
inline string kgrpp(const libgrpp_grpp_t *g) { string s = "{" + kpot(g->U_L); for (int i = 0; i < g->n_arep; i++) s += "a" + kpot(g->U_arep[i]); for (int i = 0; i < g->n_esop; i++) s += "s" + kpot(g->U_esop[i]); for (int i = 0; i < g->n_oc_shells; i++) s += "o" + kpot(g->U_oc[i]) + kshell(g->oc_shells[i], false); return s + "}"; }
inline S uf(const string &key) { static std::map<string, S> m; auto it = m.find(key); if (it != m.end()) return it->second; S v = hs::var("u" + to_string(m.size())); return m[key] = v; }
