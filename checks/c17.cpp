// C17: values computed from shells and potentials
#include "common.h"
static void value(vector<int> pw) { S r = hs::var("r", true), v(0); vector<S> c, a; for (size_t i = 0; i < pw.size(); i++) { c.push_back(hs::var("d" + to_string(i), true)); a.push_back(hs::var("a" + to_string(i), true)); hs::assume_between(c[i], R(1, 4), R(4)); hs::assume_between(a[i], R(1, 4), R(4)); v += c[i] * S(__sym_pow(r.v, sym::rat(pw[i] - 2, 1))) * exp(-a[i] * r * r); }
    hs::assume_between(r, R(1, 8), R(3)); auto *p = hs::potential(1, 3, pw, c, a); hs::eq("U", LG(libgrpp_potential_value)(p, hs::in(r)), v); LG(libgrpp_delete_potential)(p); }
static void norm(int L, int np) { vector<S> c, a; for (int i = 0; i < np; i++) { c.push_back(hs::var("c" + to_string(i))); a.push_back(hs::var("a" + to_string(i), true)); hs::assume_between(a[i], R(1, 8), R(9)); }
    auto *s = hs::shell({S(0), S(1), S(2)}, L, c, a); LG(libgrpp_shell_mult_normcoef)(s); hs::expect(s->num_primitives == np, "number of primitives");
    for (int i = 0; i < np; i++) { hs::eq("c" + to_string(i), s->coeffs[i], c[i] * norm_code(L, a[i])); hs::eq("a" + to_string(i), s->alpha[i], a[i]); } LG(libgrpp_delete_shell)(s); }
static void declare() {
    vector<vector<int>> P = {{}, {0}, {1}, {2}, {3}, {4}, {6}, {2, 2}, {0, 1, 2}, {2, 1, 0, 3}}; int k = 0; for (auto &p : P) hs::add("value" + to_string(k++), [=] { value(p); });
    for (int L = 0; L <= 10; L++) hs::add("norm" + to_string(L), [=] { norm(L, 1 + L % 3); });
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
