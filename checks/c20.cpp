// C20: vector and matrix helpers over symbolic reals
#include "common.h"
extern "C" { void libgrpp_daxpy(int, double, double *, double *); void libgrpp_multiply_matrices(int, int, int, double *, double *, double *); double distance_squared(double *, double *); double distance(double *, double *); }
static vector<S> vv(const string &n, int k) { vector<S> r; for (int i = 0; i < k; i++) r.push_back(hs::var(n + to_string(i))); return r; }
static void daxpy(int n) { S a = hs::var("a"); auto x = vv("x", n + 1), y = vv("y", n + 1); auto xv = hs::inv(x), yv = hs::inv(y); LG(libgrpp_daxpy)(n, hs::in(a), xv.data(), yv.data());
    for (int i = 0; i <= n; i++) { hs::eq("y" + to_string(i), yv[i], i < n ? y[i] + a * x[i] : y[i]); hs::eq("x" + to_string(i), xv[i], x[i]); } }
static void mm(int M, int N, int K) { auto A = vv("A", M * K), B = vv("B", K * N), C = vv("C", M * N + 1); auto a = hs::inv(A), b = hs::inv(B), c = hs::inv(C); LG(libgrpp_multiply_matrices)(M, N, K, a.data(), b.data(), c.data());
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { S s = C[i * N + j]; for (int k = 0; k < K; k++) s += A[i * K + k] * B[k * N + j]; hs::eq("C" + to_string(i) + "," + to_string(j), c[i * N + j], s); }
    hs::eq("beyond", c[M * N], C[M * N]); for (size_t i = 0; i < a.size(); i++) hs::eq("A", a[i], A[i]); for (size_t i = 0; i < b.size(); i++) hs::eq("B", b[i], B[i]); }
static void dist() { V3 a = vec("a"), b = vec("b"); auto av = hs::inv(vs(a)), bv = hs::inv(vs(b)); V3 d = a - b; hs::eq("d2", LG(distance_squared)(av.data(), bv.data()), dot(d, d)); double r = LG(distance)(av.data(), bv.data());
    hs::eq("d", r, S(__sym_sqrt(dot(d, d).v))); }
static void declare() {
    bool th = hs::tier != "quick";
    for (int n = 0; n <= (th ? 66 : 12); n++) hs::add("daxpy" + to_string(n), [=] { daxpy(n); });
    for (auto [m, n, k] : {array<int, 3>{1, 1, 1}, {2, 3, 4}, {4, 3, 2}, {3, 1, 5}, {1, 5, 3}, {5, 4, 1}, {6, 6, 6}, {3, 7, 3}, {10, 3, 6}, {3, 3, 0}, {0, 2, 2}}) hs::add("mm" + to_string(m) + "x" + to_string(n) + "x" + to_string(k), [m = m, n = n, k = k] { mm(m, n, k); });
    if (th) for (auto [m, n, k] : {array<int, 3>{15, 15, 9}, {21, 10, 11}, {10, 21, 7}}) hs::add("mm" + to_string(m) + "x" + to_string(n) + "x" + to_string(k), [m = m, n = n, k = k] { mm(m, n, k); });
    hs::add("distance", dist);
}
int main(int c, char **v) { return hs::main_(c, v, declare); }
