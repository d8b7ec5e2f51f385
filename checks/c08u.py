STUBS = ("libgrpp_overlap_integrals", "libgrpp_full_grpp_integrals", "pretabulate_bessel", "create_real_spherical_harmonic_coeffs_tables")
