/* component orders (C10) */
#include "nd.h"
#include "libgrpp.h"
#ifndef LV
#define LV 2
#endif
#define NC(L) (((L) + 1) * ((L) + 2) / 2)
/* the documented sequence: r descending, then s descending */
static int pos(int L, int r, int t) { return (L - r) * (L - r + 1) / 2 + t; }
static int custom(int L, int *l)
{
    int n = NC(L), c = n;
    for (int r = L; r >= 0; r--) for (int s = L - r; s >= 0; s--) { c--; l[3 * c] = r; l[3 * c + 1] = s; l[3 * c + 2] = L - r - s; }
    return n;
}
static void is_list(const int *l, int L, int rev, int k)
{
    int r = l[3 * k], s = l[3 * k + 1], t = l[3 * k + 2];
    CHECK(r >= 0 && s >= 0 && t >= 0 && r + s + t == L, "a component of the shell");
    CHECK(pos(L, r, t) == (rev ? NC(L) - 1 - k : k), "at its documented position");
}
static void choose(int op)
{
    if (op == 0) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC);
    else if (op == 1) libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE);
    else if (op == 2) libgrpp_set_cartesian_generator(custom);
    else libgrpp_set_default_parameters();
}
/* at every position k: the right component; so every (r,s,t) is listed exactly once */
void case_list(void)
{
    int op = in_range(0, 0, 3), k = in_range(1, 0, NC(LV) - 1);
    if (in_range(2, 0, 1)) choose(OP0);
    choose(op);
    int *l = libgrpp_generate_shell_cartesians(LV);
    is_list(l, LV, op == 2, k);
    free(l);
    REACHED();
}
/* shells keep the order they were made with; copies too */
void case_history(void)
{
    double o[3] = {0, 0, 0}, c = 1, a = 1; int o1 = in_range(0, 0, 3), o2 = in_range(1, 0, 3), o3 = in_range(2, 0, 3), k = in_range(3, 0, NC(LV) - 1);
    choose(o1); libgrpp_shell_t *s1 = libgrpp_new_shell(o, LV, 1, &c, &a);
    choose(o2); libgrpp_shell_t *c1 = libgrpp_shell_deep_copy(s1), *s2 = libgrpp_new_shell(o, LV, 1, &c, &a);
    choose(o3); libgrpp_shell_t *c2 = libgrpp_shell_deep_copy(s2);
    is_list(s1->cart_list, LV, o1 == 2, k); is_list(c1->cart_list, LV, o1 == 2, k); is_list(s2->cart_list, LV, o2 == 2, k); is_list(c2->cart_list, LV, o2 == 2, k);
    CHECK(s1->cart_size == NC(LV) && c1->cart_size == NC(LV) && s2->cart_size == NC(LV) && c2->cart_size == NC(LV), "number of components");
    libgrpp_shell_shrink(c1); libgrpp_shell_mult_normcoef(c1); is_list(c1->cart_list, LV, o1 == 2, k);
    libgrpp_delete_shell(s1); is_list(c1->cart_list, LV, o1 == 2, k);
    libgrpp_delete_shell(c1); libgrpp_delete_shell(s2); libgrpp_delete_shell(c2);
    REACHED();
}
