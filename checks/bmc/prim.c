/* combinatorial primitives (C20); reference values in ref20.h are produced by exact integer arithmetic */
#include "nd.h"
#include <stdint.h>
#include "ref20.h"
double factorial(int n); double factorial_ratio(int n, int m); double double_factorial(int n); uint64_t binomial(uint64_t n, uint64_t k);
int points_are_equal(double *a, double *b); int int_max2(int, int); int int_max3(int, int, int);
#ifndef N0
#define N0 0
#define N1 20
#endif
static int close_to(double v, double ref, int exact) { if (exact) return v == ref; double d = v - ref; if (d < 0) d = -d; return d <= 1e-14 * ref; }
/* table part: any n */
void case_factorial_any(void)
{
    int n = in_range(0, 0, 20);
    double v = factorial(n);
    CHECK(v == ref_fact[n], "n! is exact");
    REACHED();
}
void case_double_factorial_any(void)
{
    int n = in_range(0, -1, 30);
    double v = double_factorial(n);
    CHECK(v == (n < 0 ? 1.0 : ref_dfact[n]), "n!! is exact or correctly rounded");
    REACHED();
}
void case_factorial_n(void) { for (int n = N0; n <= N1; n++) CHECK(close_to(factorial(n), ref_fact[n], ref_fact_exact[n]), "n!"); REACHED(); }
void case_double_factorial_n(void) { for (int n = N0; n <= N1; n++) CHECK(close_to(double_factorial(n), ref_dfact[n], ref_dfact_exact[n]), "n!!"); REACHED(); }
void case_ratio_n(void)
{
    for (int n = N0; n <= N1; n++) for (int m = 0; m <= n; m++) {
        double r = ref_ratio[n - N0][m];
        CHECK(close_to(factorial_ratio(n, m), r, r <= 9007199254740992.0), "n!/m!, n >= m");
        CHECK(close_to(factorial_ratio(m, n), 1.0 / r, 0), "m!/n!, n >= m");
    }
    REACHED();
}
void case_binomial_n(void)
{
    static uint64_t p[N1 + 2][N1 + 2];
    for (int n = 0; n <= N1; n++) for (int k = 0; k <= n; k++) p[n][k] = k == 0 || k == n ? 1 : p[n - 1][k - 1] + p[n - 1][k];
    for (int n = N0; n <= N1; n++) for (int k = 0; k <= n; k++) CHECK(binomial(n, k) == p[n][k], "binomial coefficient");
    REACHED();
}
void case_max(void)
{
    int a = in_range(0, -1000, 1000), b = in_range(1, -1000, 1000), c = in_range(2, -1000, 1000);
    int m = int_max2(a, b), m3 = int_max3(a, b, c);
    CHECK(m >= a && m >= b && (m == a || m == b), "larger of two");
    CHECK(m3 >= m && m3 >= c && (m3 == m || m3 == c), "largest of three");
    REACHED();
}
/* points: coordinates of the order used in calculations; one coordinate arbitrary, the others one of a few offsets */
#ifndef AX
#define AX 0
#endif
void case_points(void)
{
    static const double off[] = {0, 1e-14, -1e-14, 1e-9, -1e-9, 3, -3};
    double a[3], b[3]; int far = 0, near = 1;
    for (int i = 0; i < 3; i++) {
        if (i == AX) { a[i] = in_real(0); b[i] = in_real(1); ASSUME(a[i] >= -1000 && a[i] <= 1000 && b[i] >= -1000 && b[i] <= 1000); double d = a[i] - b[i]; if (d > 1e-10 || d < -1e-10) far = 1; if (d > 1e-13 || d < -1e-13) near = 0; }
        else { int k = in_range(i, 0, 6); a[i] = 0.25; b[i] = 0.25 + off[k]; if (k >= 3) far = 1, near = 0; }
    }
    int r = points_are_equal(a, b);
    CHECK(points_are_equal(b, a) == r, "symmetric");
    CHECK(!(far && r), "distinct points are told apart");
    CHECK(!(near && !r), "coinciding points are recognised");
    REACHED();
}
