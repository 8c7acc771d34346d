// C07: polynomial products against schoolbook products of integers.
#include "zref.h"
#include "HEAAN/arith/R_Q_square.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int L, int N> struct M {
    typedef R_Q<L, N> R; std::unique_ptr<R> A{new R}, B{new R}, C{new R}, K{new R};
    I Q = pow2(L);
    void chk(const R &c, const P &w, const char *how, const P &a, const P &b) {
        for (int i = 0; i < N; i++) { Z_Q<L> e; zset<L>(e, w[i]); if (memcmp(e.data, c[i].data, sizeof e.data)) fail("%s<%d,%d>: coefficient %d of %s * %s is %s, want %s", how, L, N, i, PS(a).c_str(), PS(b).c_str(), S(uval(c[i])).c_str(), S(uval(e)).c_str()); }
    }
    u64 n = 0;
    void go(const P &a, const P &b, const P *ref = nullptr) {
        P w = ref ? *ref : pmul(a, b); at("conv", L, N, n);
        pset(*A, a); pset(*B, b); u64 ha = phash(*A), hb = phash(*B); state(hash(L, N, ha, hb));
        for (int i = 0; i < N; i++) memset((*C)[i].data, n & 1 ? 0xff : 0, sizeof (*C)[i].data);
        conv<L, N>(*A, *B, *C); step(); trace(); chk(*C, w, "conv", a, b);
        MC_CHECK(phash(*A) == ha && phash(*B) == hb, "conv<%d,%d> changed an operand", L, N);
        if (n % 5 == 0) { *K = *A; conv<L, N>(*K, *B, *K); step(); chk(*K, w, "conv over left operand", a, b); }
        if (n % 5 == 1) { *K = *B; conv<L, N>(*A, *K, *K); step(); chk(*K, w, "conv over right operand", a, b); }
        if (n % 5 == 2) { auto c = std::make_unique<R_Q_square<L, N>>(); (*c)[0] = *A; (*c)[1] = *B; *c *= *B; step(); chk((*c)[0], w, "ciphertext part 0 times polynomial", a, b); if (N <= 64) chk((*c)[1], pmul(b, b), "ciphertext part 1 times polynomial", b, b); MC_CHECK(phash(*B) == hb, "ciphertext * polynomial changed the polynomial"); }
        n++;
    }
    void sq(const P &a) { pset(*A, a); P w = pmul(a, a); conv<L, N>(*A, *A, *C); step(); chk(*C, w, "square", a, a); *K = *A; conv<L, N>(*K, *K, *K); step(); chk(*K, w, "square in place", a, a); trace(); }
};
static std::vector<P> polys(int L, int N, int lvl) {
    I h = pow2(L - 1), Q = pow2(L); std::vector<I> v = {-h, h - 1, I(1), I(-1)}; if (L > 70) { v.push_back(pow2(64)); v.push_back(-pow2(L - 2) - 1); }
    std::vector<P> r; auto P0 = [&] { return P(N, I(0)); };
    for (auto &x : v) { P p = P0(); p[0] = x; r.push_back(p); p = P0(); p[N - 1] = x; r.push_back(p); if (N > 2) { p = P0(); p[N / 2] = x; r.push_back(p); } p = P(N, x); r.push_back(p); }
    { P p(N); for (int i = 0; i < N; i++) p[i] = i % 2 ? I(-h) : I(h - 1); r.push_back(p); for (int i = 0; i < N; i++) p[i] = i < N / 2 ? I(-h) : I(h - 1); r.push_back(p); for (int i = 0; i < N; i++) p[i] = i % 3 == 0 ? I(0) : i % 3 == 1 ? I(-h) : I(1); r.push_back(p); }
    if (lvl) { auto z = zalpha(L, 0); for (size_t k = 0; k < z.size(); k += N) { P p(N); for (int i = 0; i < N; i++) p[i] = center(z[(k + i) % z.size()], Q); r.push_back(p); } }
    u64 s = 0x9E3779B97F4A7C15ull + L; for (int k = 0; k < 2; k++) { P p(N); for (int i = 0; i < N; i++) { I x = 0; for (int j = 0; j * 64 < L; j++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; x = (x << 64) + s; } p[i] = center(x, Q); } r.push_back(p); }
    return r;
}
template <int L, int N> static void pairs(int lvl, size_t cap) {
    M<L, N> m; auto p = polys(L, N, lvl); size_t st = 1; while ((p.size() / st) * p.size() > cap) st++;
    for (size_t i = 0; i < p.size(); i++) for (size_t j = i % st; j < p.size(); j += st) m.go(p[i], p[j]);
    for (size_t i = 0; i < p.size(); i += 1 + p.size() / 20) m.sq(p[i]);
    // extremes against everything are never skipped
    P e(N, -pow2(L - 1)); m.go(e, e); for (size_t i = 0; i < p.size(); i += st) m.go(e, p[i]);
}
// operands of growing magnitude: every coefficient 2^k-1, and next to it, of one sign or alternating, against the same, another magnitude and a unit
template <int L, int N> static void magnitudes(int step) {
    M<L, N> m; auto mk = [&](int k, int t) { P p(N); for (int i = 0; i < N; i++) { I x = pow2(k) - 1 - (t == 3 ? i % 3 : 0); p[i] = t == 1 ? I(-x) : t == 2 && i % 2 ? I(-x) : t == 4 && i % 2 ? I(0) : x; } return p; };
    int c = 0; for (int k = 1; k < L; k += k % 64 > 26 && k % 64 < 35 ? 1 : k % 64 > 60 || k % 64 < 3 ? 1 : step) for (int t = 0; t < 5; t++) for (int u = 0; u < 3; u++) { int k2 = u == 0 ? k : u == 1 ? std::max(1, k - 1 - (c * 5) % 40) : std::min(L - 1, 62 - k > 0 ? 62 - k + (c & 1) : 1); if (k2 >= L) continue; m.go(mk(k, t), mk(k2, (t + c) % 5 == t ? t : u == 0 ? t : (t + c) % 5)); if (u == 0 && t < 2) m.sq(mk(k, t)); c++; }
    bound("LOGQ=%d N=%d: dense operands of every magnitude class, all signs: %d products", L, N, c);
}
template <int L> struct Each4 { static void go() { pairs<L, 4>(1, 600); } };
#if PART < 8
// every precision 1..192
SCEN(all_precisions, 0) { each_t<Each4>(Range<1 + 24 * PART, 24 + 24 * PART>()); bound("N=4, every LOGQ=%d..%d, pairs of extreme/basis/limb-pattern/dense polynomials, in-place variants", 1 + 24 * PART, 24 + 24 * PART); sample("LOGQ=%d N=4: all coefficients -2^(LOGQ-1) times the same", 24 + 24 * PART); }
#elif PART < 16
// every number of primes L=1..102 at the largest and smallest precision using that many
template <int K> struct PerL { static void go() { const int hi = (60 * K - 17) / 2, lo = K == 1 ? 1 : (60 * (K - 1) - 17) / 2 + 1; pairs<hi, 8>(0, K < 20 ? 60 : 8); if (K % 4 == 1) pairs<lo, 4>(0, K < 20 ? 60 : 8); } };
SCEN(all_prime_counts, 0) { constexpr int p = PART - 8; each_t<PerL>(List<1 + p, 16 - p, 17 + p, 32 - p, 33 + p, 48 - p, 49 + p, 64 - p, 65 + p, 80 - p, 81 + p, 96 - p>()); bound("L=%d,%d,...: maximal precision for each prime count, N=8", 1 + p, 16 - p); }
#if PART >= 10
SCEN(top_counts, 0) { each_t<PerL>(List<97 + PART - 10>()); bound("L=%d", 97 + PART - 10); }
#endif
#elif PART == 16
template <int L, int N> static void complete() { M<L, N> m; u64 n = 1ull << (L * N); auto mk = [&](u64 c) { P p(N); for (int i = 0; i < N; i++) p[i] = center(I(c >> (L * i) & ((1ull << L) - 1)), pow2(L)); return p; };
    for (u64 a = 0; a < n; a++) for (u64 b = 0; b < n; b++) m.go(mk(a), mk(b)); for (u64 a = 0; a < n; a++) m.sq(mk(a)); bound("LOGQ=%d N=%d: all %llu x %llu operand pairs", L, N, (unsigned long long)n, (unsigned long long)n); }
SCEN(complete_tiny, 0) { complete<1, 2>(); complete<2, 2>(); complete<3, 2>(); complete<1, 4>(); complete<2, 4>(); complete<4, 2>(); sample("LOGQ=2, N=4: all 65536 pairs of polynomials"); }
SCEN(complete_tiny8, 0) { complete<1, 8>(); if (tier()) complete<3, 4>(); }
// ternary key times polynomial
template <int L, int N> static void key_one(const int *s, const P &a, R_Q<L, N> &A, R_Q<L, N> &C) {
    pset(A, a); u64 h = phash(A); at("key product", L, N); for (int i = 0; i < N; i++) memset(C[i].data, 0xff, sizeof C[i].data);
    int k[N]; memcpy(k, s, sizeof k); conv<L, N>(k, A, C); step(); trace(); state(hash(L, N, h, hbytes(s, sizeof(int) * N)));
    P sp = pint(s, N), w = pmul(sp, a); for (int i = 0; i < N; i++) MC_CHECK(uval(C[i]) == modp(w[i], pow2(L)), "ternary conv<%d,%d> %s * %s coefficient %d = %s", L, N, PS(sp).c_str(), PS(a).c_str(), i, S(uval(C[i])).c_str());
    MC_CHECK(phash(A) == h && !memcmp(k, s, sizeof k), "ternary conv<%d,%d> changed an operand", L, N);
}
template <int L, int N> static void key_all(int m) { R_Q<L, N> A, C; auto p = polys(L, N, 0); int n = 1; for (int i = 0; i < N; i++) n *= 3; for (int c = 0; c < n; c++) { int s[N], t = c; for (int i = 0; i < N; i++) { s[i] = t % 3 - 1; t /= 3; } for (size_t k = c % m; k < p.size(); k += m) key_one<L, N>(s, p[k], A, C); } bound("LOGQ=%d N=%d: all %d ternary keys", L, N, n); }
template <int L, int N> static void key_some(int every = 3) { static R_Q<L, N> A, C; auto p = polys(L, N, 0); std::vector<std::vector<int>> ks; for (int sg : {1, -1}) { if (N < 10000) ks.push_back(std::vector<int>(N, sg)); for (int pos : {0, 1, N / 2, N - 1}) { std::vector<int> k(N, 0); k[pos] = sg; ks.push_back(k); } } { std::vector<int> k(N); for (int i = 0; i < N; i++) k[i] = i % 3 - 1; if (N < 10000) ks.push_back(k); for (int i = 0; i < N; i++) k[i] = i * (long)i % 67 == 3 ? (i & 1 ? 1 : -1) : 0; ks.push_back(k); } for (auto &k : ks) for (size_t j = 0; j < p.size(); j += every) key_one<L, N>(k.data(), p[j], A, C); bound("LOGQ=%d N=%d: unit, constant and alternating keys", L, N); }
SCEN(ternary, 0) { key_all<5, 2>(1); key_all<64, 2>(1); key_all<65, 4>(1); key_all<60, 4>(1); key_all<128, 4>(1); key_all<130, 8>(7); key_all<640, 4>(3); key_some<60, 64>(); key_some<192, 32>(); key_some<1450, 16>(); key_some<64, 256>(); key_some<2900, 8>(); sample("all 6561 ternary keys of N=8 at LOGQ=130"); }
SCEN(ternary_large, 0) { key_some<60, 1024>(7); key_some<65, 2048>(9); key_some<130, 1024>(9); key_some<64, 4096>(23); key_some<1450, 512>(23); bound("N=512..4096"); }
SCEN(ternary_huge, 0) { key_some<60, 16384>(23); key_some<40, 65536>(100); key_some<1450, 2048>(100); bound("N=2048..65536"); }
// products of small-integer polynomials
template <int N> static void ints(int lo, int hi) { int b = hi - lo + 1; u64 n = 1; for (int i = 0; i < N; i++) n *= b;
    for (u64 x = 0; x < n; x++) for (u64 y = 0; y < n; y++) { int s[N], t[N], r[N]; u64 c = x, d = y; for (int i = 0; i < N; i++) { s[i] = lo + c % b; c /= b; t[i] = lo + d % b; d /= b; r[i] = 77; } conv<N>(s, t, r); step(); trace(); state(hash(N, x, y, b)); for (int i = 0; i < N; i++) { int w = 0; for (int k = 0; k < N; k++) { int j = i - k; w += j >= 0 ? s[k] * t[j] : -s[k] * t[j + N]; } MC_CHECK(r[i] == w, "integer conv<%d> pair (%llu,%llu) coefficient %d = %d want %d", N, x, y, i, r[i], w); } } bound("integer conv N=%d: all pairs with coefficients in [%d,%d]", N, lo, hi); }
template <int N> static void ints_big(int every = 1) { for (int q = 0; q < 60; q += every) { static int s[N], t[N], r[N], s0[N]; for (int i = 0; i < N; i++) { s[i] = q < 8 ? (i == (q & 3) * (N - 1) / 3 ? (q & 4 ? -1 : 1) : 0) : ((i * 7 + q * 3) % 5) - 2; t[i] = ((i * i + q) % 7) - 3; } memcpy(s0, s, sizeof s); conv<N>(s, q % 3 == 0 ? s : t, r); step(); trace(); state(hash(N, q, 99)); const int *tt = q % 3 == 0 ? s0 : t; for (int i = 0; i < N; i++) { long w = 0; for (int k = 0; k < N; k++) { int j = i - k; w += j >= 0 ? (long)s0[k] * tt[j] : -(long)s0[k] * tt[j + N]; } MC_CHECK(r[i] == w, "integer conv<%d> case %d coefficient %d = %d want %ld", N, q, i, r[i], w); } MC_CHECK(!memcmp(s, s0, sizeof s), "integer conv changed its input"); } }
SCEN(integers, 0) { ints<2>(-3, 3); ints<4>(-1, 1); ints<4>(-2, 2); if (tier()) ints<8>(0, 1); ints_big<8>(); ints_big<64>(); ints_big<256>(); ints_big<1024>(); }
SCEN(integers_large, 0) { ints_big<2048>(3); ints_big<4096>(7); ints_big<8192>(13); bound("integer conv at N=2048,4096,8192"); }
#elif PART == 17
SCEN(medium, 0) { pairs<60, 64>(0, 60); pairs<64, 128>(0, 40); pairs<330, 32>(0, 60); pairs<640, 16>(0, 100); pairs<1450, 16>(0, 60); pairs<2900, 8>(0, 30); pairs<3051, 4>(0, 20); pairs<192, 2>(1, 3000); pairs<61, 2>(1, 3000); bound("further (LOGQ,N): 60x64 64x128 330x32 640x16 1450x16 2900x8 3051x4"); }
SCEN(magnitudes_a, 0) { magnitudes<60, 8>(7); magnitudes<64, 4>(7); magnitudes<65, 8>(7); magnitudes<128, 16>(11); magnitudes<130, 8>(11); magnitudes<129, 2>(5); magnitudes<100, 32>(11); sample("N=8 LOGQ=65: all coefficients 2^31-1 squared"); }
SCEN(magnitudes_b, 0) { magnitudes<120, 64>(17); magnitudes<200, 4>(13); magnitudes<640, 8>(29); magnitudes<64, 64>(17); magnitudes<66, 128>(17); magnitudes<1450, 4>(61); magnitudes<80, 256>(37); }
SCEN(medium_large, 0) { pairs<60, 1024>(0, 60); pairs<64, 2048>(0, 30); pairs<120, 1024>(0, 40); bound("all-dense references at N=1024,2048"); }
SCEN(medium_large_b, 0) { pairs<60, 4096>(0, 30); pairs<130, 2048>(0, 20); bound("all-dense references at N=4096"); }
SCEN(medium_large_c, 0) { pairs<1450, 512>(0, 12); pairs<640, 1024>(0, 12); pairs<300, 2048>(0, 12); }
SCEN(medium_large_d, 0) { pairs<1450, 1024>(0, 8); pairs<60, 16384>(0, 8); }
#else
// large N, where the modulus product must cover N*2^(2*LOGQ-2); closed forms for the reference
template <int L, int N> static void large() {
    M<L, N> m; I h = pow2(L - 1); P a(N, -h), b(N, h - 1), w(N);
    for (int k = 0; k < N; k++) w[k] = h * h * (2 * k + 2 - N); m.go(a, a, &w); m.n = 3;
    for (int k = 0; k < N; k++) w[k] = -h * (h - 1) * (2 * k + 2 - N); m.go(a, b, &w); m.n = 3; m.go(b, a, &w); m.n = 3;
    for (int k = 0; k < N; k++) w[k] = (h - 1) * (h - 1) * (2 * k + 2 - N); m.go(b, b, &w);
    // sparse times ramp
    P s(N, I(0)), r(N); s[0] = 1; s[1] = -h; s[N / 2] = h - 1; s[N - 1] = -1; for (int i = 0; i < N; i++) r[i] = center(I(i) * 0x9E3779B97F4A7C15ull * 3 - (i % 2 ? h : I(0)), pow2(L));
    for (int k = 0; k < N; k++) w[k] = 0; for (int j : {0, 1, N / 2, N - 1}) for (int i = 0; i < N; i++) { int k = i + j; if (k < N) w[k] += s[j] * r[i]; else w[k - N] -= s[j] * r[i]; }
    m.n = 0; m.go(s, r, &w); m.n = 1; m.go(r, s, &w);
    bound("LOGQ=%d N=%d: constant extremes (all sign combinations), sparse x dense", L, N);
}
#if PART == 18
SCEN(large_a, 0) { large<21, 131072>(); large<22, 131072>(); }
SCEN(large_b, 0) { large<51, 131072>(); }
SCEN(large_c, 0) { large<52, 131072>(); }
SCEN(large_d, 0) { large<81, 131072>(); }
#elif PART == 19
SCEN(large_e, 0) { large<82, 65536>(); sample("LOGQ=82 N=65536: all coefficients -2^81 squared; product magnitude N*2^162"); }
SCEN(large_f, 0) { large<141, 32768>(); large<142, 32768>(); large<171, 16384>(); large<60, 65536>(); }
SCEN(large_g, 0) { large<292, 8192>(); large<291, 4096>(); large<640, 2048>(); large<64, 32768>(); }
SCEN(large_h, 0) { large<1450, 512>(); large<621, 1024>(); large<2901, 64>(); large<772, 512>(); }
#elif PART == 20
SCEN(huge_a, 1) { large<111, 131072>(); large<112, 131072>(); }
SCEN(huge_b, 1) { large<591, 131072>(); }
SCEN(huge_c, 1) { large<1450, 16384>(); }
SCEN(huge_d, 1) { large<3051, 8192>(); }
SCEN(huge_e, 1) { large<1342, 65536>(); }
#endif
#endif
}
MC_MAIN
