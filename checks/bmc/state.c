/* initialisation state and parameters (C19); table builders are stand-ins that count */
#include "nd.h"
#include "libgrpp.h"
#ifndef STEPS
#define STEPS 5
#endif
static int rsh_built, bessel_built;
void create_real_spherical_harmonic_coeffs_tables(int Lmax) { rsh_built++; }
void pretabulate_bessel() { bessel_built++; }

void case_lifecycle(void)
{
    int on = 0;
    CHECK(libgrpp_is_initialized() == 0, "not initialised at start");
    for (int t = 0; t < STEPS; t++) {
        int op = in_range(t, 0, 2);
        if (op == 0) { libgrpp_init(); on = 1; }
        else if (op == 1) { libgrpp_finalize(); on = 0; }
        else libgrpp_set_default_parameters();
        CHECK((libgrpp_is_initialized() != 0) == on, "initialised exactly between init and finalize");
        CHECK(!on || (rsh_built && bessel_built), "the tables exist once the library is initialised");
    }
    REACHED();
}

static int calls;
static int custom(int L, int *l)
{
    int n = (L + 1) * (L + 2) / 2, c = n;
    calls++;
    for (int r = L; r >= 0; r--) for (int s = L - r; s >= 0; s--) { c--; l[3 * c] = r; l[3 * c + 1] = s; l[3 * c + 2] = L - r - s; }
    return n;
}
static void check_generator(int want_custom)
{
    calls = 0;
    int *l = libgrpp_generate_shell_cartesians(1);
    CHECK(calls == want_custom, "the chosen generator is used");
    CHECK(l[want_custom ? 6 : 0] == 1 && l[4] == 1 && l[want_custom ? 2 : 8] == 1, "order of p components");
    free(l);
}
void case_setters(void)
{
    double rt = 1e-16, at = 1e-16, bt = 1e-16; int cust = 0;
    for (int t = 0; t <= STEPS; t++) {
        CHECK(libgrpp_params.radial_tolerance == rt, "radial tolerance");
        CHECK(libgrpp_params.angular_screening_tolerance == at, "angular screening tolerance");
        CHECK(libgrpp_params.modified_bessel_tolerance == bt, "Bessel tolerance");
        if (t == STEPS) break;
        int op = in_range(t, 0, 8); double v = in_real(t);
        if (op == 0) { libgrpp_set_radial_tolerance(v); rt = v; }
        else if (op == 1) { libgrpp_set_angular_screening_tolerance(v); at = v; }
        else if (op == 2) { libgrpp_set_modified_bessel_tolerance(v); bt = v; }
        else if (op == 3) { libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_DIRAC); cust = 0; }
        else if (op == 4) { libgrpp_set_cartesian_order(LIBGRPP_CART_ORDER_TURBOMOLE); cust = 0; }
        else if (op == 5) { libgrpp_set_cartesian_generator(custom); cust = 1; }
        else if (op == 6) { libgrpp_set_default_parameters(); rt = at = bt = 1e-16; cust = 0; }
        else if (op == 7) libgrpp_init();
        else libgrpp_finalize();
    }
    check_generator(cust);
    REACHED();
}
