#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <memory>
#include <numeric>
#include <string>
// exact rational with a machine-word fast path
struct Rat {
    int64_t n = 0, d = 1;
    std::unique_ptr<mpq_class> b;
    Rat() {}
    Rat(long v) : n(v) {}
    Rat(int v) : n(v) {}
    Rat(const Rat &o) : n(o.n), d(o.d), b(o.b ? new mpq_class(*o.b) : nullptr) {}
    Rat(Rat &&o) noexcept : n(o.n), d(o.d), b(std::move(o.b)) {}
    Rat &operator=(const Rat &o) { n = o.n; d = o.d; b.reset(o.b ? new mpq_class(*o.b) : nullptr); return *this; }
    Rat &operator=(Rat &&o) noexcept { n = o.n; d = o.d; b = std::move(o.b); return *this; }
    Rat(const mpq_class &q) { set(q); }
    void set(const mpq_class &q) {
        if (mpz_fits_slong_p(q.get_num().get_mpz_t()) && mpz_fits_slong_p(q.get_den().get_mpz_t()) && q.get_num() != INT64_MIN) {
            n = q.get_num().get_si(); d = q.get_den().get_si(); b.reset();
        } else { b.reset(new mpq_class(q)); n = 0; d = 1; }
    }
    mpq_class q() const { if (b) return *b; mpq_class r((long)n, (long)d); return r; }
    bool zero() const { return !b && n == 0; }
    bool one() const { return !b && n == 1 && d == 1; }
    int sgn() const { if (b) return ::sgn(*b); return n > 0 ? 1 : n < 0 ? -1 : 0; }
    static bool fit(__int128 x) { return x <= INT64_MAX && x > INT64_MIN; }
    static __int128 gcd128(__int128 a, __int128 c) { if (a < 0) a = -a; if (c < 0) c = -c; while (c) { __int128 t = a % c; a = c; c = t; } return a; }
    static bool mk(__int128 nn, __int128 dd, Rat &r) {
        if (dd < 0) { nn = -nn; dd = -dd; }
        if (fit(nn) && fit(dd)) { int64_t g = std::gcd((int64_t)nn, (int64_t)dd); r.n = (int64_t)nn / g; r.d = (int64_t)dd / g; r.b.reset(); return true; }
        __int128 g = gcd128(nn, dd); nn /= g; dd /= g;
        if (fit(nn) && fit(dd)) { r.n = (int64_t)nn; r.d = (int64_t)dd; r.b.reset(); return true; }
        return false;
    }
    friend Rat operator*(const Rat &x, const Rat &y) {
        Rat r; if (!x.b && !y.b && mk((__int128)x.n * y.n, (__int128)x.d * y.d, r)) return r;
        r.set(x.q() * y.q()); return r;
    }
    friend Rat operator+(const Rat &x, const Rat &y) {
        Rat r;
        if (!x.b && !y.b) {
            if (x.d == y.d) { if (mk((__int128)x.n + y.n, x.d, r)) return r; }
            else { __int128 a = (__int128)x.n * y.d, c = (__int128)y.n * x.d; __int128 s; if (!__builtin_add_overflow(a, c, &s) && mk(s, (__int128)x.d * y.d, r)) return r; }
        }
        r.set(x.q() + y.q()); return r;
    }
    Rat operator-() const { Rat r(*this); if (r.b) *r.b = -*r.b; else r.n = -r.n; return r; }
    friend Rat operator-(const Rat &x, const Rat &y) { return x + (-y); }
    Rat inv() const { Rat r; if (!b) { if (n < 0) { r.n = -d; r.d = -n; } else { r.n = d; r.d = n; } return r; } r.set(1 / *b); return r; }
    friend Rat operator/(const Rat &x, const Rat &y) { return x * y.inv(); }
    bool operator==(const Rat &o) const { if (!b && !o.b) return n == o.n && d == o.d; if (!b != !o.b) return false; return *b == *o.b; }
    bool operator!=(const Rat &o) const { return !(*this == o); }
    std::string str() const { return q().get_str(); }
    bool isint() const { return b ? b->get_den() == 1 : d == 1; }
};
