/* shells, potentials and GRPP containers (C17) */
#include "nd.h"
#include "libgrpp.h"
#ifndef NPV
#define NPV 2
#endif
#ifndef LV
#define LV 1
#endif
#ifndef STEPS
#define STEPS 4
#endif
#ifndef MANY
#define MANY 3
#endif
#ifndef NP
#define NP 3
#endif

static double org[3], co[NP + 1], al[NP + 1], co0[NP + 1], al0[NP + 1];
static int pw[NP + 1], pw0[NP + 1], np;

static void inputs(int base)
{
    np = NPV;
    for (int i = 0; i < 3; i++) org[i] = in_real(base + i);
    for (int i = 0; i < NP; i++) {
#ifdef ZM
        co0[i] = co[i] = ZM >> i & 1 ? 0 : 1.5 + i;
#else
        co0[i] = co[i] = in_real(base + 3 + i);
#endif
        al0[i] = al[i] = in_real(base + 3 + NP + i);
        pw0[i] = pw[i] = in_range(base + 1 + i, -4, 8);
        /* between the thresholds of "zero" in use (1e-14) nothing is promised */
        ASSUME(co[i] == 0 || co[i] > 3e-14 || co[i] < -3e-14);
    }
}
static void clobber(void) { for (int i = 0; i < NP; i++) { co[i] = 77; al[i] = 78; pw[i] = 79; } org[0] = org[1] = org[2] = 76; }

static void shell_is(libgrpp_shell_t *s, int L, const double *o)
{
    CHECK(s != NULL, "a shell is returned");
    CHECK(s->L == L && s->num_primitives == np, "L and the number of primitives");
    CHECK(s->cart_size == (L + 1) * (L + 2) / 2 && libgrpp_get_shell_size(s) == s->cart_size, "number of components");
    for (int i = 0; i < 3; i++) CHECK(s->origin[i] == o[i], "origin");
    for (int i = 0; i < np; i++) CHECK(s->coeffs[i] == co0[i] && s->alpha[i] == al0[i], "coefficients and exponents are copied in order");
}

void case_shell(void)
{
    inputs(0);
    int L = LV;
    double o[3] = {org[0], org[1], org[2]};
    libgrpp_shell_t *s = libgrpp_new_shell(org, L, np, co, al);
    for (int i = 0; i < NP; i++) CHECK(co[i] == co0[i] && al[i] == al0[i], "caller's arrays untouched");
    for (int i = 0; i < 3; i++) CHECK(org[i] == o[i], "caller's origin untouched");
    clobber();
    shell_is(s, L, o);
    CHECK(s->cart_list[0] == L && s->cart_list[1] == 0 && s->cart_list[2] == 0, "first component");
    REACHED();
    libgrpp_delete_shell(s);
}

void case_shell_copy(void)
{
    inputs(0);
    int L = LV;
    double o[3] = {org[0], org[1], org[2]};
    libgrpp_shell_t *s = libgrpp_new_shell(org, L, np, co, al);
    int n3 = 3 * s->cart_size, list[18];
    /* the source may have been made under any order of components */
    if (in_range(21, 0, 1)) { int t; for (int k = 0; k < 3; k++) { t = s->cart_list[k]; s->cart_list[k] = s->cart_list[n3 - 3 + k]; s->cart_list[n3 - 3 + k] = t; } }
    for (int k = 0; k < n3; k++) list[k] = s->cart_list[k];
    libgrpp_shell_t *c = libgrpp_shell_deep_copy(s);
    CHECK(c != s && c->cart_list != s->cart_list, "the copy is another object");
    shell_is(c, L, o); shell_is(s, L, o);
    for (int k = 0; k < n3; k++) CHECK(c->cart_list[k] == list[k] && s->cart_list[k] == list[k], "components of the copy");
    if (in_range(22, 0, 1)) {
        /* change and release the source: the copy stays */
        for (int i = 0; i < np; i++) { s->coeffs[i] = 5; s->alpha[i] = 6; }
        for (int k = 0; k < n3; k++) s->cart_list[k] = 9;
        s->origin[0] = s->origin[1] = s->origin[2] = 4; s->L = 7; s->num_primitives = 1;
        libgrpp_delete_shell(s);
        shell_is(c, L, o);
        for (int k = 0; k < n3; k++) CHECK(c->cart_list[k] == list[k], "components of the copy after the source is gone");
        REACHED();
        libgrpp_delete_shell(c);
    } else {
        for (int i = 0; i < np; i++) { c->coeffs[i] = 5; c->alpha[i] = 6; }
        for (int k = 0; k < n3; k++) c->cart_list[k] = 9;
        c->origin[0] = 4;
        libgrpp_delete_shell(c);
        shell_is(s, L, o);
        libgrpp_delete_shell(s);
    }
}

void case_shell_shrink(void)
{
    inputs(0);
    libgrpp_shell_t *s = libgrpp_new_shell(org, 1, np, co, al);
    libgrpp_shell_shrink(s);
    int n = 0;
    for (int i = 0; i < np; i++) {
        if (co0[i] == 0) continue;
        CHECK(n < s->num_primitives && s->coeffs[n] == co0[i] && s->alpha[n] == al0[i], "non-zero primitives are kept in order");
        n++;
    }
    CHECK(n == s->num_primitives, "zero primitives are removed");
    CHECK(s->L == 1 && s->cart_size == 3 && s->origin[0] == org[0] && s->origin[1] == org[1] && s->origin[2] == org[2], "the rest is unchanged");
    libgrpp_shell_t *c = libgrpp_shell_deep_copy(s);
    CHECK(c->num_primitives == n, "copy of a shrunk shell");
    REACHED();
    libgrpp_delete_shell(s); libgrpp_delete_shell(c);
}

static void pot_is(libgrpp_potential_t *p, int L, int J)
{
    CHECK(p != NULL && p->L == L && p->J == J, "quantum numbers");
    int n = 0;
    for (int i = 0; i < np; i++) {
        if (co0[i] == 0) continue;
        CHECK(n < p->num_primitives && p->coeffs[n] == co0[i] && p->alpha[n] == al0[i] && p->powers[n] == pw0[i], "non-zero terms in order");
        n++;
    }
    CHECK(n == p->num_primitives, "exactly the non-zero terms");
}

void case_potential(void)
{
    inputs(0);
    int L = in_range(20, 0, 10), J = in_range(21, 0, 21);
    libgrpp_potential_t *p = libgrpp_new_potential(L, J, np, pw, co, al);
    for (int i = 0; i < NP; i++) CHECK(co[i] == co0[i] && al[i] == al0[i] && pw[i] == pw0[i], "caller's arrays untouched");
    clobber();
    pot_is(p, L, J);
    REACHED();
    libgrpp_delete_potential(p);
    libgrpp_delete_potential(NULL);
}

void case_potential_shrink(void)
{
    inputs(0);
    int L = in_range(20, 0, 10), J = in_range(21, 0, 21);
    libgrpp_potential_t *p = libgrpp_new_potential(L, J, np, pw, co, al);
    clobber();
    int src = p->num_primitives;
    /* terms may have become zero after construction */
    int z = in_range(22, -1, NP - 1), k = 0;
    for (int i = 0; i < np; i++) {
        if (co0[i] == 0) continue;
        if (i == z) { p->coeffs[k] = 0; co0[i] = 0; }
        k++;
    }
    libgrpp_potential_t *q = libgrpp_shrink_potential(p);
    CHECK(q != p && p->num_primitives == src && p->L == L && p->J == J, "the source stays");
    pot_is(q, L, J);
    if (in_range(23, 0, 1)) { libgrpp_delete_potential(p); pot_is(q, L, J); REACHED(); libgrpp_delete_potential(q); }
    else { for (int i = 0; i < q->num_primitives; i++) q->coeffs[i] = 3; k = 0; libgrpp_delete_potential(q); for (int i = 0; i < np; i++) if (co0[i] != 0) { /* skip those zeroed later */ while (k < src && p->coeffs[k] == 0) k++; CHECK(k < src && p->coeffs[k] == co0[i] && p->alpha[k] == al0[i] && p->powers[k] == pw0[i], "source unchanged"); k++; } libgrpp_delete_potential(p); }
}

/* one-term potentials and shells told apart by L */
static libgrpp_potential_t *mkp(int L) { int n = 2; double c = 1, a = 1; return libgrpp_new_potential(L, 0, 1, &n, &c, &a); }
static libgrpp_shell_t *mks(int L) { double o[3] = {0, 0, 0}, c = 1, a = 1; return libgrpp_new_shell(o, L, 1, &c, &a); }

#ifdef OPS
static const int ops[] = {OPS};
#define OP(t) ops[t]
#else
#define OP(t) in_range(t, 0, 4)
#endif
void case_grpp_history(void)
{
    /* any sequence of operations, including replacement of the local potential and absent parts */
    libgrpp_grpp_t *g = libgrpp_new_grpp();
    CHECK(g->U_L == NULL && g->n_arep == 0 && g->n_esop == 0 && g->n_oc_shells == 0, "empty object");
    libgrpp_potential_t *loc = NULL, *ar[STEPS], *so[STEPS], *oc[STEPS]; libgrpp_shell_t *sh[STEPS];
    int na = 0, ns = 0, no = 0;
    for (int t = 0; t < STEPS; t++) {
        int op = OP(t);
        if (op == 0) { loc = mkp(t); libgrpp_grpp_set_local_potential(g, loc); }
        else if (op == 1) { libgrpp_potential_t *p = mkp(t); libgrpp_grpp_add_averaged_potential(g, p); ar[na++] = p; }
        else if (op == 2) { libgrpp_potential_t *p = mkp(t); libgrpp_grpp_add_spin_orbit_potential(g, p); so[ns++] = p; }
        else if (op == 3) { libgrpp_potential_t *p = mkp(t); libgrpp_shell_t *s = mks(t & 1); libgrpp_grpp_add_outercore_potential(g, p, s); oc[no] = p; sh[no++] = s; }
        else if (loc) libgrpp_grpp_set_local_potential(g, loc);
        CHECK(g->U_L == loc && g->n_arep == na && g->n_esop == ns && g->n_oc_shells == no, "numbers of components");
    }
    for (int i = 0; i < na; i++) CHECK(g->U_arep[i] == ar[i], "averaged potentials in order");
    for (int i = 0; i < ns; i++) CHECK(g->U_esop[i] == so[i], "spin-orbit potentials in order");
    for (int i = 0; i < no; i++) CHECK(g->U_oc[i] == oc[i] && g->oc_shells[i] == sh[i], "outercore potentials and shells in order");
    if (loc) CHECK(loc->num_primitives == 1 && loc->coeffs[0] == 1, "the local potential is alive");
    REACHED();
    libgrpp_delete_grpp(g);
    libgrpp_delete_grpp(NULL);
}

/* MANY components of one kind: the container grows and keeps them all in order */
#ifndef KIND
#define KIND 1
#endif
void case_grpp_many(void)
{
    static libgrpp_potential_t p[MANY]; static libgrpp_shell_t sh[MANY];
    libgrpp_grpp_t *g = libgrpp_new_grpp();
    for (int t = 0; t < MANY; t++) {
        if (KIND == 1) libgrpp_grpp_add_averaged_potential(g, &p[t]);
        if (KIND == 2) libgrpp_grpp_add_spin_orbit_potential(g, &p[t]);
        if (KIND == 3) libgrpp_grpp_add_outercore_potential(g, &p[t], &sh[t]);
    }
    CHECK(g->n_arep == (KIND == 1) * MANY && g->n_esop == (KIND == 2) * MANY && g->n_oc_shells == (KIND == 3) * MANY, "numbers of components");
    int i = in_range(0, 0, MANY - 1);
    libgrpp_potential_t **l = KIND == 1 ? g->U_arep : KIND == 2 ? g->U_esop : g->U_oc;
    CHECK(l[i] == &p[i], "potentials in order");
    if (KIND == 3) CHECK(g->oc_shells[i] == &sh[i], "shells in order");
    /* the components are not heap objects here: detach them before the container is released */
    for (int t = 0; t < MANY; t++) { l[t] = NULL; if (KIND == 3) g->oc_shells[t] = NULL; }
    REACHED();
    libgrpp_delete_grpp(g);
}
