// C20: homomorphic Chebyshev evaluation and coefficient conversion.
#include "hef.h"
#include "HEAAN/poly.h"
#include "cap.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
static LD nested(const double *u, int n, LD x) { LD s = 0; std::vector<LD> T; LD t = x; for (int m = 1; m < n; m *= 2) { T.push_back(t); t = 2 * t * t - 1; } for (int i = 0; i < n; i++) if (u[i] != 0) { LD p = u[i]; for (size_t b = 0; b < T.size(); b++) if (i >> b & 1) p *= T[b]; s += p; } return s; }
template <int DEG, int N, int D, int L> struct T {
    static const int K_ = DEG == 3 ? 2 : DEG == 7 ? 3 : DEG == 15 ? 4 : DEG == 31 ? 5 : DEG == 63 ? 6 : 7, M = N / 2, U = DEG + 1; typedef R_Q_square<L, N> C; C ct; R_Q_square<L - K_ * D, N> p; K s; int sk[N], n = 0; LD worst = 0;
    R_Q_square<2 * L, N> e1; R_Q_square<2 * (L - D), N> e2; R_Q_square<2 * (L - (K_ > 2 ? 2 * D : D)), N> e3; R_Q_square<2 * (L - (K_ > 3 ? 3 * D : D)), N> e4; R_Q_square<2 * (L - (K_ > 4 ? 4 * D : D)), N> e5; R_Q_square<2 * (L - (K_ > 5 ? 5 * D : D)), N> e6; R_Q_square<2 * (L - (K_ > 6 ? 6 * D : D)), N> e7;
    u64 kh() { return hash(chash(e1), chash(e2), chash(e3), chash(e4), chash(e5), chash(e6), chash(e7), hbytes(sk, sizeof sk)); } u64 kh0;
    void key(const K &k) { s = k; memcpy(sk, s.data(), sizeof sk); int q[N]; conv<N>(sk, sk, q); HEAAN<L, N>::swkgen(q, sk, e1); HEAAN<L - D, N>::swkgen(q, sk, e2); if constexpr (K_ > 2) HEAAN<L - 2 * D, N>::swkgen(q, sk, e3); if constexpr (K_ > 3) HEAAN<L - 3 * D, N>::swkgen(q, sk, e4); if constexpr (K_ > 4) HEAAN<L - 4 * D, N>::swkgen(q, sk, e5); if constexpr (K_ > 5) HEAAN<L - 5 * D, N>::swkgen(q, sk, e6); if constexpr (K_ > 6) HEAAN<L - 6 * D, N>::swkgen(q, sk, e7); kh0 = kh(); }
    void call(const double *u) { if constexpr (DEG == 3) eval_poly_deg3<L, N, D>(u, ct, e1, e2, p); else if constexpr (DEG == 7) eval_poly_deg7<L, N, D>(u, ct, e1, e2, e3, p); else if constexpr (DEG == 15) eval_poly_deg15<L, N, D>(u, ct, e1, e2, e3, e4, p); else if constexpr (DEG == 31) eval_poly_deg31<L, N, D>(u, ct, e1, e2, e3, e4, e5, p); else if constexpr (DEG == 63) eval_poly_deg63<L, N, D>(u, ct, e1, e2, e3, e4, e5, e6, p); else eval_poly_deg127<L, N, D>(u, ct, e1, e2, e3, e4, e5, e6, e7, p); }
    void one(const std::vector<double> &uu, const V &x, u64 seed) {
        double u[U + 2]; for (int i = 0; i < U; i++) u[i] = uu[i]; u[U] = u[U + 1] = 1e9; Z z(M); z.r = x; renc(ct, zpoly(z, D), s, seed, seed % 3 == 0 ? 8 : 0); Z in = zslots(rdec(ct, s), D); u64 h = hash(chash(ct), hbytes(u, sizeof u)); state(hash(h, kh0)); junk(p, n++ & 1 ? 0xff : 0);
        at("eval_poly", DEG, N, D, L, n); std::string out = capture([&] { call(u); }); step(); trace();
        auto US = [&] { std::string r; for (int i = 0; i < U && r.size() < 300; i++) if (u[i] != 0) r += fmt("u[%d]=%.17g ", i, u[i]); return r; };
        MC_CHECK(out.empty(), "eval_poly_deg%d prints: %.200s", DEG, out.c_str()); MC_CHECK(h == hash(chash(ct), hbytes(u, sizeof u)) && kh() == kh0, "eval_poly_deg%d changed an input", DEG); MC_CHECK(pcanon(p[0]) && pcanon(p[1]), "eval_poly_deg%d wrote a non-canonical coefficient", DEG);
        Z got = zslots(rdec(p, s), D); LD su = 1, d = 0; for (int i = 0; i < U; i++) su += fabsl(u[i]); std::string gs, ws; for (int i = 0; i < M; i++) { LD w = nested(u, U, in.r[i]), e = fabsl(got.r[i] - w) + fabsl(got.i[i]); gs += fmt("%.12Lg ", got.r[i]); ws += fmt("%.12Lg ", w); if (!(e <= d)) d = e; }
        LD t = powl(4, K_) * N * (20 + wt(s)) * exp2l(-D) * su; worst = std::max(worst, d / t);
        MC_CHECK(d <= t, "eval_poly_deg%d<%d,%d,%d> %s at slots %s key %s: %s want %s (off by %Lg, bound %Lg)", DEG, L, N, D, US().c_str(), ZS(in).c_str(), KS(s).c_str(), gs.c_str(), ws.c_str(), d, t); MC_CHECK(t < 1e-2L * su, "harness: tolerance %Lg for degree %d", t, DEG);
    }
    V slots(int q) { static const double g[] = {1, -1, 0, 0.5, -0.5, 0.75, -0.25, 0.99, -0.99, 0.123456789, 0.7071067811865476, -0.3333333333333333, 0.0001, -0.0001, 0.9, -0.62}; V v(M); for (int i = 0; i < M; i++) v[i] = g[(q * M + i + (q / std::max(1, 16 / M)) * 3) % 16]; return v; }
    const double lim = std::min(1000.0, ldexp(0.75, 64 - D));   // a coefficient times the scale fits a word
    void all(int reps) {
        auto ks = keys(N, 0); env().reset(DEG); key(ks[ks.size() - 1]); int c = 0;
        for (int rep = 0; rep < reps; rep++) for (int i = 0; i < U; i++) for (double v : {1.0, -1.0}) { std::vector<double> u(U, 0); u[i] = v; one(u, slots(c), c); c++; if (rep == 0 && (U <= 16 || i % 5 == 0)) { u[i] = v * (i % 3 == 0 ? lim : i % 3 == 1 ? 0.3 : 1e-4); one(u, slots(c), c); c++; } if (rep == 0) for (double b : {ldexp(0.5, 64 - D), ldexp(0.99, 64 - D), ldexp(0.49, 64 - D)}) if (64 < L - K_ * D - 2 && (U <= 8 || (i + c) % (U / 8) < 2)) { u[i] = v * b; one(u, slots(c), c); c++; } }
        for (int q = 0; q < 8 + U / 4; q++) { if (q % 4 == 0) key(ks[(q / 4 + 3) % ks.size()]); std::vector<double> u(U); for (int i = 0; i < U; i++) u[i] = q == 0 ? 1 : q == 1 ? -1 : q == 2 ? (i % 2 ? 1 : -1) : q == 3 ? 0 : q == 4 ? (i % 2 ? 0.5 : 0) : q == 5 ? (i % 2 ? 0 : -0.5) : ((int)(hash(i, q) % 20001) - 10000) / (q % 2 ? 10000.0 : 10000.0 / lim); for (int k = 0; k < 2; k++) one(u, slots(q * 2 + k), q * 2 + k); }
        bound("degree %d LOGQ=%d N=%d LOGDELTA=%d: every signed unit coefficient vector, %d dense ones, slot grid incl. +-1 and 0 (largest error/bound %.3Lf)", DEG, L, N, D, 8 + U / 4, worst);
    }
    void big(int cases) { auto ks = keys(N, 0); env().reset(DEG); for (int q = 0; q < cases; q++) { if (q % 3 == 0) key(ks[q % 2 ? ks.size() - 1 - q : 1 + q]); std::vector<double> u(U); for (int i = 0; i < U; i++) u[i] = q == 0 ? ((int)(hash(i, q) % 20001) - 10000) / 10000.0 : q == 1 ? i == U - 1 : q == 2 ? (i % 2 ? -1 : 1) : q % 2 ? i == (q * 5) % U : ((int)(hash(i, q) % 20001) - 10000) / (10000.0 / lim); one(u, slots(q * 3 + 1), q); } bound("degree %d LOGQ=%d N=%d LOGDELTA=%d: %d coefficient vectors (largest error/bound %.3Lf)", DEG, L, N, D, cases, worst); }
    void allkeys() { auto ks = keys(N, 0); env().reset(3); int c = 0; for (auto &k : ks) { key(k); for (int q = 0; q < 3; q++) { std::vector<double> u(U); for (int i = 0; i < U; i++) u[i] = ((int)(hash(i, q, c) % 20001) - 10000) / 10000.0; one(u, slots(c), c); c++; } } bound("degree %d N=%d: all %zu keys", DEG, N, ks.size()); }
};
#define BIG(DEG, N, D, L, R) { auto t = std::make_unique<T<DEG, N, D, L>>(); t->big(R); }
#define GO(DEG, N, D, L, R) { auto t = std::make_unique<T<DEG, N, D, L>>(); t->all(R); }
static void conv_one(const std::vector<double> &c) {
    int n = c.size(); std::vector<double> a(c), u(n + 4, 777); at("convert_frc_tou", n); convert_frc_tou(a.data(), u.data(), n); step(); trace(); state(hbytes(c.data(), 8 * n, n)); MC_CHECK(a == c, "convert_frc_tou(%d) changed its input", n); for (int i = 0; i < 4; i++) MC_CHECK(u[n + i] == 777, "convert_frc_tou(%d) writes past the output", n);
    LD sc = 0; for (double x : c) sc += fabsl(x); std::vector<LD> xs; for (int k = 0; k <= 2 * n; k++) xs.push_back(cosl(PIL * k / (2 * n))); 
    for (LD x : xs) { LD w = 0, t0 = 1, t1 = x; for (int i = 0; i < n; i++) { w += c[i] * t0; LD t2 = 2 * x * t1 - t0; t0 = t1; t1 = t2; } LD g = nested(u.data(), n, x); MC_CHECK(fabsl(g - w) <= 1e-11L * n * (sc + 1e-300L), "convert_frc_tou(%d) of %s: value at %Lg is %Lg, want %Lg", n, [&] { std::string s; for (int i = 0; i < n && s.size() < 300; i++) if (c[i] != 0) s += fmt("c[%d]=%g ", i, c[i]); return s; }().c_str(), x, g, w); }
}
#if PART == 0
SCEN(convert, 0) {
    for (int n = 4; n <= (tier() ? 1024 : 256); n *= 2) { for (int i = 0; i < n; i++) for (double v : {1.0, -1.0, 0.7}) { std::vector<double> c(n, 0); c[i] = v; conv_one(c); } for (int q = 0; q < 6; q++) { std::vector<double> c(n); for (int i = 0; i < n; i++) c[i] = q == 0 ? 1 : q == 1 ? (i % 2 ? -1 : 1) : ((int)(hash(i, q) % 2001) - 1000) / 1000.0; conv_one(c); } bound("convert_frc_tou N=%d: every unit vector and 6 dense ones at 2N+1 Chebyshev points", n); }
    { double g[5] = {0, 1, -1, 0.5, -2}; for (int x = 0; x < 625; x++) { std::vector<double> c(4); int t = x; for (int i = 0; i < 4; i++) { c[i] = g[t % 5]; t /= 5; } conv_one(c); } } sample("c = e_37 of 64");
}
SCEN(deg3, 0) { GO(3, 4, 50, 200, 3) GO(3, 8, 45, 192, 3) GO(3, 16, 55, 220, 2) GO(3, 4, 40, 137, 2) { auto t = std::make_unique<T<3, 4, 50, 200>>(); t->allkeys(); } sample("degree 3: u=-e_2 at slots (1,-1)"); }
SCEN(deg7, 0) { GO(7, 4, 50, 250, 3) GO(7, 8, 45, 230, 3) GO(7, 16, 60, 320, 1) { auto t = std::make_unique<T<7, 4, 50, 250>>(); t->allkeys(); } }
#elif PART == 1
SCEN(deg15, 0) { GO(15, 4, 50, 300, 3) GO(15, 8, 45, 270, 2) GO(15, 16, 40, 256, 1) { auto t = std::make_unique<T<15, 4, 50, 300>>(); t->allkeys(); } }
#elif PART == 2
SCEN(deg31, 0) { GO(31, 4, 50, 350, 2) GO(31, 8, 45, 320, 1) { auto t = std::make_unique<T<31, 4, 50, 350>>(); t->allkeys(); } }
#elif PART == 3
SCEN(deg63, 0) { GO(63, 4, 50, 400, 2) { auto t = std::make_unique<T<63, 4, 50, 400>>(); t->allkeys(); } }
#elif PART == 4
SCEN(deg127, 0) { GO(127, 4, 50, 450, 1) }
#elif PART == 5
SCEN(deg127b, 0) { GO(127, 8, 45, 410, 1) }
#elif PART == 6
SCEN(deep31, 1) { GO(31, 32, 55, 400, 4) GO(31, 64, 50, 350, 1) }
SCEN(deep15, 1) { GO(15, 64, 50, 300, 4) GO(7, 64, 50, 260, 4) GO(3, 128, 50, 200, 8) }
#elif PART == 7
SCEN(deep63, 1) { GO(63, 32, 50, 400, 2) }
#elif PART == 8
SCEN(large_a, 0) { BIG(3, 64, 50, 200, 12) BIG(7, 128, 50, 260, 8) BIG(15, 64, 50, 300, 10) BIG(31, 64, 50, 350, 8) BIG(3, 1024, 50, 200, 4) BIG(7, 512, 50, 260, 4) }
#elif PART == 9
SCEN(large_b, 0) { BIG(15, 256, 50, 300, 5) BIG(15, 1024, 50, 300, 2) BIG(31, 512, 50, 350, 3) BIG(3, 512, 60, 1450, 2) }
#elif PART == 10
SCEN(large_c, 0) { BIG(63, 64, 50, 400, 5) BIG(63, 512, 50, 400, 2) BIG(31, 1024, 50, 350, 2) }
#elif PART == 11
SCEN(large_d, 0) { BIG(127, 32, 50, 450, 6) BIG(127, 256, 50, 450, 2) }
#endif
}
MC_MAIN
