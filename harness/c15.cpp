// C15: FFTs against the canonical embedding, on every basis vector and structured dense vectors, every size.
#include "fref.h"
#include "HEAAN/matrix/DFT.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int G> struct F {
    static const int N = 1 << G, M = N / 2; static inline double m[N], m2[N], zr[M], zi[M], wr[M], wi[M]; static inline double tol; static inline int n = 0;
    static void dirty() { memset(zr, n & 1 ? 0xff : 0, sizeof zr); memset(zi, n & 1 ? 0 : 0xff, sizeof zi); n++; }
    static void cmp(const V &re, const V &im, LD sc, const char *what, bool nr) { LD t = tol * sc; for (int i = 0; i < M; i++) { LD a = re[i], b = im[i]; MC_CHECK(fabsl(zr[i] - a) <= t && fabsl(zi[i] - b) <= t, "%s<%d>: slot %d is (%.17g,%.17g), want (%.17Lg,%.17Lg) (l1 norm %Lg)", what, G, i, zr[i], zi[i], a, b, sc); } (void)nr; }
    static void fwd(const V &v, bool direct) {
        V re, im; emb(v, re, im); LD sc = l1(v); for (int i = 0; i < N; i++) m[i] = (double)v[i]; memcpy(m2, m, sizeof m); state(dhash(m, N, G));
        dirty(); at("fft", G, n); fft<G>(m, zr, zi); step(); trace(); MC_CHECK(!memcmp(m, m2, sizeof m), "fft<%d> changed its input", G); cmp(re, im, sc, "fft", false);
        for (int i = 0; i < M; i++) { int r = brev(i, G - 1); m[r] = (double)v[i]; m[r + M] = (double)v[i + M]; } memcpy(m2, m, sizeof m); dirty(); at("fftNR", G, n); fftNR<G>(m, zr, zi); step(); MC_CHECK(!memcmp(m, m2, sizeof m), "fftNR<%d> changed its input", G); cmp(re, im, sc, "fftNR of the bit-reversed input", true);
        if (direct) { for (int i = 0; i < N; i++) m[i] = (double)v[i]; memcpy(m2, m, sizeof m); dirty(); at("dft", G, n); dft<N>(m, zr, zi); step(); MC_CHECK(!memcmp(m, m2, sizeof m), "dft<%d> changed its input", N); cmp(re, im, sc, "dft", false); }
    }
    static void cmpm(const V &w, LD sc, const char *what, bool nr) { LD t = tol * sc; for (int i = 0; i < N; i++) { int j = nr ? brev(i % M, G - 1) + (i / M) * M : i; MC_CHECK(fabsl(m[j] - w[i]) <= t, "%s<%d>: coefficient %d is %.17g, want %.17Lg (scale %Lg)", what, G, i, m[j], w[i], sc); } }
    static void inv(const V &re, const V &im, bool direct) {
        V w = iemb(re, im); LD sc = (l1(re) + l1(im)) * 2 / N; for (int i = 0; i < M; i++) { wr[i] = zr[i] = (double)re[i]; wi[i] = zi[i] = (double)im[i]; } state(dhash(zr, M, dhash(zi, M, G + 100)));
        auto same = [&](const char *what) { MC_CHECK(!memcmp(wr, zr, sizeof wr) && !memcmp(wi, zi, sizeof wi), "%s<%d> changed its input", what, G); };
        memset(m, n++ & 1 ? 0xff : 0, sizeof m); at("ifft", G, n); ifft<G>(zr, zi, m); step(); trace(); same("ifft"); cmpm(w, sc, "ifft", false);
        V back(m, m + N); memset(m, 0xff, sizeof m); at("ifftNR", G, n); ifftNR<G>(zr, zi, m); step(); same("ifftNR"); cmpm(w, sc, "ifftNR", true);
        if (direct) { memset(m, 0xff, sizeof m); at("idft", G, n); idft<N>(zr, zi, m); step(); same("idft"); cmpm(w, sc, "idft", false); }
        for (int i = 0; i < N; i++) m[i] = (double)back[i]; dirty(); fft<G>(m, zr, zi); step(); LD s2 = l1(re) + l1(im); for (int i = 0; i < M; i++) MC_CHECK(fabsl(zr[i] - re[i]) <= 2 * tol * s2 && fabsl(zi[i] - im[i]) <= 2 * tol * s2, "fft<%d>(ifft(z)) slot %d = (%.17g,%.17g) want (%.17Lg,%.17Lg)", G, i, zr[i], zi[i], re[i], im[i]);
    }
    static std::vector<V> dense(int n) { std::vector<V> r; r.push_back(V(n, 1)); r.push_back(V(n, 0)); V v(n); u64 s = 99; for (int q = 0; q < 5; q++) { for (int i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; double x = (double)((int64_t)s >> 11) / 9007199254740992.0; v[i] = q == 0 ? x : q == 1 ? (i % 2 ? -1 : 1) : q == 2 ? (double)x * 1e200 : q == 3 ? (double)(x * 1e-200) : (i % 7 ? 0.0 : i + 0.5); } r.push_back(v); } return r; }
    static void factors() { // product of the sparse factors, expanded densely, is the embedding matrix on bit-reversed columns
        static SparseDiagonal<M, 3> Ar[G - 1], Ai[G - 1]; memset((void *)Ar, 0x5a, sizeof Ar); memset((void *)Ai, 0x5a, sizeof Ai); at("splitU0NR", G); splitU0NR<G>(Ar, Ai); step(); trace(); const Root &R = root(N);
        for (int c = 0; c < M; c++) { V x(M, 0), y(M, 0); x[c] = 1; for (int d = G - 2; d >= 0; d--) { V a(M, 0), b(M, 0); for (int s = 0; s < 3; s++) for (int i = 0; i < M; i++) { MC_CHECK(Ar[d].off[s] == Ai[d].off[s] && Ar[d].off[s] >= 0 && Ar[d].off[s] < M, "factor %d<%d> has offsets %d and %d", d, G, Ar[d].off[s], Ai[d].off[s]); if (Ar[d].zero[s]) MC_CHECK(Ar[d].vec[s][i] == 0, "factor %d<%d>: nonempty diagonal %d marked empty", d, G, s); if (Ai[d].zero[s]) MC_CHECK(Ai[d].vec[s][i] == 0, "factor %d<%d>: nonempty imaginary diagonal %d marked empty", d, G, s); int j = (i + Ar[d].off[s]) % M; LD p = Ar[d].vec[s][i], q = Ai[d].vec[s][i]; a[i] += p * x[j] - q * y[j]; b[i] += p * y[j] + q * x[j]; } x = a; y = b; }
            long f = 1; for (int i = 0; i < M; i++, f = f * 5 % (2 * N)) { long e = f * brev(c, G - 1) % (2 * N); MC_CHECK(fabsl(x[i] - R.c[e]) <= tol && fabsl(y[i] - R.s[e]) <= tol, "factors<%d> multiply to (%.17Lg,%.17Lg) at (%d,%d), want (%.17Lg,%.17Lg)", G, x[i], y[i], i, c, R.c[e], R.s[e]); } state(hash(G, c, 5)); }
    }
    // vectors that cancel to a zero sum: pairs e_i - e_j of neighbours, of mirrored and of inner positions, alternating blocks with zero ends, the same in one or both components
    static void cancelling(int cap) {
        std::set<std::pair<int, int>> pr; auto pairs = [&](int n) { pr.clear(); for (int i : {0, 1, 2, n / 4, n / 2 - 1, n / 2, n - 2, n - 1}) for (int j : {1, 3, n / 4 + 1, n / 2 - 2, n / 2, n - 3, n - 1}) if (i >= 0 && j >= 0 && i < n && j < n && i < j) pr.insert({i, j}); int st = std::max<int>(1, pr.size() / cap), q = 0; std::set<std::pair<int, int>> r; for (auto &x : pr) if (q++ % st == 0) r.insert(x); pr = r; };
        pairs(N); int q = 0; for (auto &[i, j] : pr) { V v(N, 0); v[i] = q % 2 ? -2.5 : 1; v[j] = -v[i]; q++; fwd(v, false); }
        pairs(M); for (auto &[i, j] : pr) { V a(M, 0), b(M, 0); int k = q++ % 4; if (k != 1) a[i] = 3, a[j] = -3; if (k == 1 || k == 2) b[i] = 1.5, b[j] = -1.5; if (k == 3) b[i] = -3, b[j] = 3; inv(a, b, false); }
    }
    static void all(int stride, bool direct) {
        tol = 1e-13L * G; int k0 = 0;
        for (int k = 0; k < N; k += k0++ % 2 ? stride : 1) { V v(N, 0); v[k] = k % 3 == 0 ? 1 : k % 3 == 1 ? -2.5 : 0.125; fwd(v, direct); if (stride == 1 && k % 2) k0 = 0; }
        k0 = 0; for (int k = 0; k < N; k += k0++ % 2 ? stride : 1) { V a(M, 0), b(M, 0); (k < M ? a : b)[k % M] = k % 3 == 0 ? 1 : k % 3 == 1 ? -3 : 0.375; inv(a, b, direct); }
        for (auto &v : dense(N)) fwd(v, direct); auto d = dense(M); for (size_t i = 0; i < d.size(); i++) { inv(d[i], d[(i == 4 || i == 5) ? i : i == 2 ? 3 : i == 3 ? 2 : 0], direct); }
        cancelling(G <= 8 ? 99 : G <= 11 ? 12 : 5);
        if (G <= 9) factors();
        bound("LOGN=%d: %s basis vectors both ways, dense vectors at scales 1e-200..1e200%s", G, stride == 1 ? "all" : "strided", direct ? ", direct formulas" : "");
    }
};
#if PART == 0
SCEN(small, 0) { F<2>::all(1, true); F<3>::all(1, true); F<4>::all(1, true); F<5>::all(1, true); F<6>::all(1, true); F<7>::all(1, true); sample("all 128 basis vectors at LOGN=7, fft, fftNR, dft, ifft, ifftNR, idft"); }
SCEN(interleaved, 0) { for (int q = 0; q < 3; q++) { F<5>::all(3, false); F<2>::all(1, false); F<4>::all(1, false); F<3>::all(1, false); F<6>::all(9, false); } bound("three rounds alternating LOGN=5,2,4,3,6"); }
// complete grid of small inputs: every vector over {-1,0,1}
template <int G> static void grid() { F<G>::tol = 1e-13L * G; const int N = 1 << G; u64 n = 1; for (int i = 0; i < N; i++) n *= 3; for (u64 c = 0; c < n; c++) { V v(N); u64 t = c; for (int i = 0; i < N; i++) { v[i] = (int)(t % 3) - 1; t /= 3; } F<G>::fwd(v, true); V a(v.begin(), v.begin() + N / 2), b(v.begin() + N / 2, v.end()); F<G>::inv(a, b, true); } bound("LOGN=%d: every vector over {-1,0,1}", G); }
SCEN(grids, 0) { grid<2>(); grid<3>(); }
#elif PART == 1
SCEN(medium, 0) { F<8>::all(1, true); F<9>::all(3, false); sample("all 256 basis vectors at LOGN=8"); }
SCEN(medium10, 0) { F<10>::all(37, false); F<9>::all(101, true); }
#else
SCEN(large, 0) { F<11>::all(301, false); F<12>::all(1801, false); F<13>::all(8191, false); }
// the largest sizes: single coefficients and slots, whose reference costs only O(N)
template <int G> static void huge() { typedef F<G> X; X::tol = 1e-13L * G; const int N = X::N, M = X::M; int q = 0;
    for (int k : {0, 1, M / 2 + 3, M - 1, M, M + 1, M + M / 2 + 5, N - 1, 65535 % N, 65536 % N, 65537 % N, M / 3}) { V v(N, 0); v[k] = q % 2 ? -2.5 : 1; X::fwd(v, false); V a(M, 0), b(M, 0); (q % 2 ? a : b)[k % M] = 3; X::inv(a, b, false); q++; } X::cancelling(6); bound("LOGN=%d: twelve unit coefficients and slots, cancelling pairs", G); }
SCEN(huge14, 0) { huge<14>(); huge<15>(); }
SCEN(huge16, 0) { huge<16>(); huge<17>(); }
SCEN(huge18, 0) { huge<18>(); sample("LOGN=18: unit coefficient 65536"); }
SCEN(complete_medium, 1) { F<9>::all(1, true); F<10>::all(1, true); F<11>::all(5, false); }
SCEN(complete_large, 1) { F<13>::all(401, false); F<14>::all(3001, false); F<15>::all(12007, false); F<16>::all(40009, false); }
#endif
}
MC_MAIN
