#pragma once
// real solid harmonics, independent of the library: S_lm(r) = sqrt(N/pi) r^l-homogeneous polynomial, from Re/Im (x+iy)^|m| and
// the |m|-th derivative of the Legendre polynomial (no Condon-Shortley phase; m<0: sin type, m>0: cos type)
#include "common.h"
typedef array<int, 3> E3; typedef std::map<E3, mpq_class> QPoly;
struct RSH { mpq_class N; QPoly p; };
inline const RSH &rsh(int l, int m) {
    static std::map<std::pair<int, int>, RSH> memo; auto it = memo.find({l, m}); if (it != memo.end()) return it->second;
    RSH r; int am = abs(m); r.N = mpq_class(factz(l - am) * (2 * l + 1) * (m ? 2 : 1), factz(l + am) * 4); r.N.canonicalize();
    for (int k = 0; 2 * k <= l - am; k++) { // t^{l-2k} differentiated am times, homogenised with (x^2+y^2+z^2)^k
        mpq_class c(binomz(l, k) * binomz(2 * l - 2 * k, l), mpz_class(1) << l); c.canonicalize(); if (k % 2) c = -c; int e = l - 2 * k; for (int j = 0; j < am; j++) c *= e - j; e -= am;
        for (int i = 0; i <= k; i++) for (int j = 0; i + j <= k; j++) { mpq_class c2 = c * mpq_class(binomz(k, i) * binomz(k - i, j));
            for (int s = 0; s <= am; s++) { // (x+iy)^am = sum C(am,s) x^(am-s) (iy)^s
                if ((s % 2 == 1) != (m < 0)) continue; mpq_class c3 = c2 * mpq_class(binomz(am, s)); if ((s / 2) % 2) c3 = -c3; r.p[{2 * i + am - s, 2 * j + s, 2 * (k - i - j) + e}] += c3; } } }
    for (auto i = r.p.begin(); i != r.p.end();) if (i->second == 0) i = r.p.erase(i); else ++i;
    return memo[{l, m}] = r; }
inline S rsh_norm(int l, int m) { return sqrt(Q(rsh(l, m).N) / hs::pi()); }
inline S qeval(const QPoly &p, const V3 &k) { S s(0); for (auto &t : p) s += Q(t.second) * ipow(k[0], t.first[0]) * ipow(k[1], t.first[1]) * ipow(k[2], t.first[2]); return s; }
inline S solid(int l, int m, const V3 &k) { return rsh_norm(l, m) * qeval(rsh(l, m).p, k); }
// int over the unit sphere of x^i y^j z^k, divided by 4 pi
inline mpq_class sphere(int i, int j, int k) { if (i % 2 || j % 2 || k % 2) return 0; mpq_class q(dfactz(i - 1) * dfactz(j - 1) * dfactz(k - 1), dfactz(i + j + k + 1)); q.canonicalize(); return q; }
inline QPoly qmul(const QPoly &a, const QPoly &b) { QPoly r; for (auto &x : a) for (auto &y : b) r[{x.first[0] + y.first[0], x.first[1] + y.first[1], x.first[2] + y.first[2]}] += x.second * y.second; return r; }
inline mpq_class qsphere(const QPoly &p) { mpq_class s = 0; for (auto &t : p) s += t.second * sphere(t.first[0], t.first[1], t.first[2]); return s; }
inline QPoly qdiff(const QPoly &p, int d) { QPoly r; for (auto &t : p) if (t.first[d]) { E3 e = t.first; e[d]--; r[e] += t.second * t.first[d]; } return r; }
inline QPoly qmono(int a, int b, int c) { return {{{a, b, c}, 1}}; }
inline QPoly qadd(const QPoly &a, const QPoly &b, int sg = 1) { QPoly r = a; for (auto &t : b) r[t.first] += sg * t.second; return r; }
// rotation generator: (r x grad)_k p
inline QPoly qrot(const QPoly &p, int k) { int i = (k + 1) % 3, j = (k + 2) % 3; E3 ei{}, ej{}; ei[i] = 1; ej[j] = 1; return qadd(qmul({{ei, 1}}, qdiff(p, j)), qmul({{ej, 1}}, qdiff(p, i)), -1); }
