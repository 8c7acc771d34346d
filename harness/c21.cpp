// C21: homomorphic modular reduction over every integer part below the period bound.
#include "hef.h"
#include "HEAAN/bootstrap.h"
#include "cap.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
static LD g3(LD e) { LD s = sinl(2 * PIL * e); return (s + s * s * s / 6) / (2 * PIL); }   // cubic arcsine of the sine
template <int N, int D, int L> struct T {
    static const int M = N / 2; typedef R_Q_square<L, N> C; C ct; R_Q_square<L - 12 * D, N> p; K s; int sk[N], n = 0; LD worst = 0;
    R_Q_square<2 * (L - 1 * D), N> k1; R_Q_square<2 * (L - 2 * D), N> k2; R_Q_square<2 * (L - 3 * D), N> k3; R_Q_square<2 * (L - 4 * D), N> k4; R_Q_square<2 * (L - 5 * D), N> k5; R_Q_square<2 * (L - 6 * D), N> k6; R_Q_square<2 * (L - 7 * D), N> k7; R_Q_square<2 * (L - 8 * D), N> k8; R_Q_square<2 * (L - 9 * D), N> k9; R_Q_square<2 * (L - 10 * D), N> k10; R_Q_square<2 * (L - 11 * D), N> k11;
    u64 kh() { return hash(chash(k1), chash(k2), chash(k3), chash(k4), chash(k5), chash(k6), chash(k7), chash(k8), chash(k9), chash(k10), chash(k11), hbytes(sk, sizeof sk)); } u64 kh0;
    template <int L2> void gen(R_Q_square<2 * L2, N> &k, const int *q) { HEAAN<L2, N>::swkgen(q, sk, k); }
    void key(const K &k) { s = k; memcpy(sk, s.data(), sizeof sk); int q[N]; conv<N>(sk, sk, q); gen<L - D>(k1, q); gen<L - 2 * D>(k2, q); gen<L - 3 * D>(k3, q); gen<L - 4 * D>(k4, q); gen<L - 5 * D>(k5, q); gen<L - 6 * D>(k6, q); gen<L - 7 * D>(k7, q); gen<L - 8 * D>(k8, q); gen<L - 9 * D>(k9, q); gen<L - 10 * D>(k10, q); gen<L - 11 * D>(k11, q); kh0 = kh(); }
    void one(const std::vector<int> &k, const V &e, u64 seed, bool derived) {
        Z z(M); for (int i = 0; i < M; i++) z.r[i] = k[i] + e[i]; renc(ct, zpoly(z, D), s, seed, seed % 4 == 3 ? 8 : 0); Z in = zslots(rdec(ct, s), D); u64 h = chash(ct); state(hash(h, kh0, derived)); junk(p, n++ & 1 ? 0xff : 0); at(derived ? "EvalMod deriving keys" : "EvalMod with keys", L, N, D, n);
        std::string o = capture([&] { if (derived) EvalMod<L, N, D, 24>(ct, sk, p); else EvalMod<L, N, D, 24>(ct, k1, k2, k3, k4, k5, k6, k7, k8, k9, k10, k11, p); }); step(); trace();
        MC_CHECK(o.empty(), "EvalMod prints %.100s", o.c_str()); MC_CHECK(chash(ct) == h && kh() == kh0, "EvalMod<%d,%d,%d> changed an input", L, N, D); MC_CHECK(pcanon(p[0]) && pcanon(p[1]), "EvalMod wrote a non-canonical coefficient");
        Z got = zslots(rdec(p, s), D); LD tol = powl(4, 9) * N * (20 + wt(s)) * exp2l(-D) / 256 + 1e-11L;
        for (int i = 0; i < M; i++) { LD x = in.r[i] - k[i], d = fabsl(got.r[i] - x) + fabsl(got.i[i]), t = fabsl(g3(x) - x) * 1.001L + tol; worst = std::max(worst, fabsl(got.r[i] - g3(x)) / tol);
            MC_CHECK(d <= t, "EvalMod<%d,%d,%d>%s key %s slot %d of %s: %d%+.10Lg reduced to (%.12Lg,%.3Lg) (off by %Lg, bound %Lg)", L, N, D, derived ? " deriving keys" : "", KS(s).c_str(), i, ZS(in).c_str(), k[i], x, got.r[i], got.i[i], d, t); }
    }
    void all(int stride, int off) {
        auto ks = keys(N, 0); env().reset(L + N); static const LD es[] = {0, 1e-6L, -1e-6L, 0.001L, -0.001L, 0.01L, -0.01L, 0.025L, -0.025L}; int c = 0; key(ks[1 % ks.size()]); std::vector<int> k(M); V e(M); int m = 0, tot = 0;
        for (int q = off; q < 47 * 9; q += stride) { int r = (int)((long)q * 211 % (47 * 9)); k[m] = r % 47 - 23; e[m] = es[r / 47]; m++; tot++; if (m == M) { if (c % 10 == 9) key(ks[(c / 10 + 2) % ks.size()]); one(k, e, c, c % 6 == 5); c++; m = 0; } }
        for (int x : {-23, -22, -12, -1, 0, 1, 11, 22, 23}) { for (int i = 0; i < M; i++) { k[i] = x; e[i] = 0.005L; } one(k, e, x + 50, x % 2); for (int i = 0; i < M; i++) { k[i] = i % 2 ? -x : x; e[i] = i % 2 ? 0.02L : -0.02L; } one(k, e, x + 90, x % 3 == 0); }
        bound("LOGQ=%d N=%d LOGDELTA=%d: %d of the 423 combinations of k=-23..23 and nine e, spread over the slots (largest error/bound %.3Lf)", L, N, D, tot, worst);
    }
    void big(int cases) { auto ks = keys(N, 0); env().reset(9); for (int c = 0; c < cases; c++) { key(ks[c % 2 ? ks.size() - 1 - c : 1 + c]); std::vector<int> k(M); V e(M); for (int i = 0; i < M; i++) { k[i] = (i * 11 + c * 5) % 47 - 23; e[i] = ((int)(hash(i, c, 3) % 501) - 250) / 10000.0L; } one(k, e, c, c % 2); } bound("LOGQ=%d N=%d LOGDELTA=%d: %d keys, every k=-23..23 over the slots (largest error/bound %.3Lf)", L, N, D, cases, worst); }
    // keys without a zero coefficient: the key's square has the largest coefficients there are
    void dense() { env().reset(9); for (int c = 0; c < 2; c++) { K kk(N); for (int i = 0; i < N; i++) kk[i] = c == 0 ? 1 : i % 2 ? -1 : 1; if (c == 1) kk[0] = -1; key(kk); std::vector<int> k(M); V e(M); for (int i = 0; i < M; i++) { k[i] = (i * 11 + c * 5) % 47 - 23; e[i] = ((int)(hash(i, c, 3) % 501) - 250) / 10000.0L; } one(k, e, c, true); } bound("LOGQ=%d N=%d LOGDELTA=%d: keys of full weight, keys derived (largest error/bound %.3Lf)", L, N, D, worst); }
    void allkeys() { auto ks = keys(N, 0); env().reset(9); int c = 0; for (auto &kk : ks) { key(kk); for (int q = 0; q < 3; q++) { std::vector<int> k(M); V e(M); for (int i = 0; i < M; i++) { k[i] = (int)(hash(i, c) % 47) - 23; e[i] = ((int)(hash(i, c, 3) % 401) - 200) / 10000.0L; } one(k, e, c, q == 2); c++; } } bound("LOGQ=%d N=%d LOGDELTA=%d: all %zu keys", L, N, D, ks.size()); }
};
#define GO(N, D, L) auto t = std::make_unique<T<N, D, L>>();
#if PART == 0
SCEN(n4d50, 0) { GO(4, 50, 720) t->all(1, 0); t->allkeys(); sample("slots (-23-0.01, 7+0.001)"); }
#elif PART == 1
SCEN(n8d50, 0) { GO(8, 50, 700) t->all(1, 0); }
#elif PART == 2
SCEN(n4d60, 0) { GO(4, 60, 850) t->all(2, 0); t->allkeys(); }
#elif PART == 3
SCEN(n8d55, 0) { GO(8, 55, 768) t->all(1, 0); }
#elif PART == 4
SCEN(n2d45, 0) { GO(2, 45, 640) t->all(1, 0); t->allkeys(); }
#elif PART == 5
SCEN(n16d60, 0) { GO(16, 60, 832) t->all(1, 0); }
#elif PART == 6
SCEN(n64, 1) { GO(64, 55, 760) t->all(1, 0); t->allkeys(); }
#elif PART == 7
SCEN(n16, 1) { GO(16, 50, 1450) t->all(1, 0); t->allkeys(); }
#elif PART == 8
SCEN(large64, 0) { GO(64, 55, 760) t->big(3); }
SCEN(large128, 0) { GO(128, 50, 680) t->big(2); }
SCEN(dense256, 0) { GO(256, 50, 680) t->dense(); }
#elif PART == 9
SCEN(large512, 0) { GO(512, 60, 830) t->big(2); }
#elif PART == 10
SCEN(large1024, 0) { GO(1024, 55, 760) t->big(2); }
#endif
}
MC_MAIN
