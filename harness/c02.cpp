// C02: shift_right / shift_left / resize / RS / mod_raise against integer arithmetic.
#include "zref.h"
#ifdef POLY
#include "HEAAN/bootstrap.h"
#endif
namespace mc {
#ifndef PART
#define PART 0
#endif
typedef void (*Fn)(const u64 *, u64 *);
enum { SR, SL, RZ };
static const char *OPN[] = {"shift_right", "shift_left", "resize"};
template <int F, int T, int OP> static void callop(const u64 *a, u64 *b) {
    Z_Q<F> A; Z_Q<T> B; memcpy(A.data, a, sizeof A.data); memcpy(B.data, b, sizeof B.data);
    if constexpr (OP == SR) shift_right<F, T>(A, B); else if constexpr (OP == SL) shift_left<F, T>(A, B); else resize<F, T>(A, B);
    if (memcmp(A.data, a, sizeof A.data)) fail("%s<%d,%d> changed its input", OPN[OP], F, T);
    memcpy(b, B.data, sizeof B.data);
}
static I want(int F, int T, int op, const I &x) {
    if (op == SR) return F == T ? x : modp((x + pow2(F - T - 1)) >> (F - T), pow2(T));
    if (op == SL) return x << (T - F);
    return modp(center(x, pow2(F)), pow2(T));
}
static void one(int F, int T, int op, Fn fn, const I &x) {
    static u64 a[64], b[64]; int nf = (F + 63) / 64, nt = (T + 63) / 64;
    I2limb(x, a, nf); at(OPN[op], F, T);
    for (int g = 0; g < 2; g++) {     // whatever the output held before
        for (int i = 0; i < nt; i++) b[i] = g ? ~0ull : 0;
        fn(a, b); step();
        I r = limb2I(b, nt), w = want(F, T, op, x);
        MC_CHECK(r == w, "%s<%d,%d>(%s) = %s, want %s (output held %s before)", OPN[op], F, T, S(x).c_str(), S(r).c_str(), S(w).c_str(), g ? "ones" : "zeros");
    }
    state(hash(F, T, op, hbytes(a, 8 * nf)));
}
static std::vector<I> vals(int F, int T, int op, int level) {
    std::set<I> s; I Q = pow2(F);
    auto add = [&](const I &x) { s.insert(modp(x, Q)); };
    for (int d = -2; d <= 2; d++) { add(I(d)); add(Q / 2 + d); }
    int lo = F < T ? F : T, k = F - T;
    std::vector<int> cut = {0, 1, 62, 63, 64, 65, 127, 128, F - 65, F - 64, F - 63, F - 2, F - 1, lo - 1, lo, k - 1, k, k + 1, k + 63, k + 64, lo - 63, lo - 64};
    for (int c : cut) if (c >= 0 && c < F) { add(pow2(c)); add(pow2(c) - 1); add(-pow2(c)); add(-pow2(c) - 1); if (level) add(Q / 2 + pow2(c)); }
    if (op == SR && k > 0) {
        I h = pow2(k - 1), m = pow2(k);
        std::vector<I> lows = {I(0), I(1), h - 1, h, h + 1, m - 1}, highs = {I(0), I(1), pow2(T) - 1, pow2(T - 1) - 1, pow2(T - 1)};
        for (int c : {63, 64, 127, 128, 191, 192}) if (c < T) { highs.push_back(pow2(c) - 1); highs.push_back(pow2(T) - pow2(c)); if (level) highs.push_back(pow2(T) - 1 - pow2(c)); }
        for (auto &x : highs) for (auto &y : lows) if (y < m && y >= 0) add(x * m + y);
    }
    if (op == RZ) for (int d = -1; d <= 1; d++) { add(pow2(lo - 1) + d); add(-pow2(lo - 1) + d); if (lo < F) { add(pow2(lo) + d); add(-pow2(lo) + d); } }
    return std::vector<I>(s.begin(), s.end());
}
template <int F, int T, int OP> static void pair_(int level) { auto v = vals(F, T, OP, level); for (auto &x : v) one(F, T, OP, callop<F, T, OP>, x); trace(); }
template <int F, int T> static void both(int level) {   // T <= F
    pair_<F, T, SR>(level); pair_<T, F, SL>(level); pair_<F, T, RZ>(level); if (F != T) pair_<T, F, RZ>(level);
}
template <int F, int... Ts> static void row(std::integer_sequence<int, Ts...>) { (both<F, Ts>(1), ...); }
#ifndef POLY
template <int F> struct Row { static void go() { row<F>(Range<1, F>()); } };
#if PART < 8
// rows PART, PART+8, ... of all pairs T<=F<=120 (balanced by pairing small with large F)
SCEN(all_pairs, 0) {
    each_t<Row>(List<1 + PART, 16 - PART, 17 + PART, 32 - PART, 33 + PART, 48 - PART, 49 + PART, 64 - PART, 65 + PART, 80 - PART, 81 + PART, 96 - PART>());
    bound("every pair T<=F with F in the rows congruent to shard %d of 1..96; every boundary value; outputs pre-filled with zeros and ones", PART);
    sample("shift_right<96,%d>, values hi*2^k+lo with lo around the rounding bit, hi around ripple carries", PART + 1);
}
// rows around one and two and three limbs
template <int F> struct Row2 { static void go() { row<F>(List<1, 2, 31, 32, 33, 62, 63, 64, 65, 66, 67, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 126, 127>()); } };
SCEN(rows_128, 0) { each_t<Row2>(List<127 + PART, 142 - PART>()); each_t<Row2>(List<185 + PART, 192 + PART, 250 + PART>()); bound("F=%d,%d,%d,%d,%d against 38 target sizes", 127 + PART, 142 - PART, 185 + PART, 192 + PART, 250 + PART); }
#if PART == 0
template <int F, int T, int OP> static void complete() { for (u64 x = 0; x < (1ull << F); x++) one(F, T, OP, callop<F, T, OP>, I(x)); trace(); }
template <int F, int... Ts> static void crow(std::integer_sequence<int, Ts...>) { ((Ts <= F ? (complete<F, (Ts <= F ? Ts : F), SR>(), complete<(Ts <= F ? Ts : F), F, SL>(), complete<F, (Ts <= F ? Ts : F), RZ>(), complete<(Ts <= F ? Ts : F), F, RZ>()) : void()), ...); }
template <int F> struct CRow { static void go() { crow<F>(Range<1, F>()); } };
SCEN(tiny_complete, 0) { each_t<CRow>(Range<1, 9>()); bound("every value for every pair T<=F<=9"); sample("resize<9,4> and resize<4,9> on all values"); }
#endif
#else
// large sizes: every small and mid drop from the sizes used by the library, and doubling
template <int F, int... Ks> static void drops(std::integer_sequence<int, Ks...>) { ((both<F, F - Ks>(0)), ...); }
template <int L> struct Dbl { static void go() { both<2 * L, L>(1); } };
#if PART == 8
SCEN(large_drops, 0) { drops<1450>(Range<0, 66>()); bound("1450 -> 1450-k, k=0..66"); }
SCEN(large_far, 0) { drops<1450>(List<127, 128, 129, 600, 640, 1000, 1300, 1322, 1385, 1386, 1387, 1390, 1440, 1448, 1449>()); drops<2900>(List<1, 50, 63, 64, 65, 1449, 1450, 2839, 2840>()); bound("far drops from 1450 and 2900"); }
#else
SCEN(doubling, 0) { each_t<Dbl>(Range<1, 70>()); each_t<Dbl>(List<95, 96, 97, 127, 128, 129, 160, 191, 192, 193, 255, 256, 300, 333, 449, 450, 550, 638, 640, 850, 1000, 1024, 1350, 1450, 1525>()); bound("2L <-> L for L=1..70 and 25 larger L"); }
SCEN(levels, 0) { drops<640>(List<50, 100, 150, 200, 250, 300, 350, 400, 450, 500, 550, 580>()); drops<1270>(List<40, 45, 55, 60, 1210>()); bound("level drops from 640 and 1270"); }
#endif
#endif
#else
// polynomials and ciphertexts: coefficientwise, with distinct values in every position
template <int F, int T, int N> static void poly(size_t most = 1 << 30) {
    auto a = vals(F, T, SR, 0); auto rzv = vals(F, T, RZ, 0); a.insert(a.end(), rzv.begin(), rzv.end()); auto b = vals(T, F, RZ, 0);
    static R_Q_square<F, N> A, A0; static R_Q_square<T, N> B, B2; 
    for (size_t r = 0; r * 2 * N < a.size() + 2 * N && r < most; r++) {
        for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) { zset(A[c][i], a[(r * 2 * N + c * N + i) % a.size()]); zset(B[c][i], I(r % 2 ? -1 : 0)); B2[c][i] = B[c][i]; }
        A0 = A; at("poly", F, T, N, r);
        RS<F, T, N>(A, B); resize(A, B2); step(2);
        for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) {
            MC_CHECK(uval(B[c][i]) == want(F, T, SR, uval(A0[c][i])), "RS<%d,%d,%d> part %d coefficient %d of %s gives %s", F, T, N, c, i, S(uval(A0[c][i])).c_str(), S(uval(B[c][i])).c_str());
            MC_CHECK(uval(B2[c][i]) == want(F, T, RZ, uval(A0[c][i])), "resize<%d,%d,%d> part %d coefficient %d of %s gives %s", F, T, N, c, i, S(uval(A0[c][i])).c_str(), S(uval(B2[c][i])).c_str());
            MC_CHECK(uval(A[c][i]) == uval(A0[c][i]), "RS/resize<%d,%d,%d> changed the input", F, T, N);
        }
        R_Q<T, N> p; resize(A[1], p); step(); for (int i = 0; i < N; i++) MC_CHECK(uval(p[i]) == want(F, T, RZ, uval(A0[1][i])), "resize R_Q<%d,%d,%d> coefficient %d", F, T, N, i);
        state(hash(F, T, N, r));
    }
    static R_Q_square<T, N> C, C0; static R_Q_square<F, N> D;
    for (size_t r = 0; r * 2 * N < b.size() + 2 * N && r < most; r++) {
        for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) { zset(C[c][i], b[(r * 2 * N + c * N + i) % b.size()]); zset(D[c][i], I(r % 2 ? -1 : 0)); }
        C0 = C; mod_raise<T, F, N>(C, D); step();
        for (int c = 0; c < 2; c++) for (int i = 0; i < N; i++) MC_CHECK(uval(D[c][i]) == want(T, F, RZ, uval(C0[c][i])) && uval(C[c][i]) == uval(C0[c][i]), "mod_raise<%d,%d,%d> part %d coefficient %d of %s gives %s", T, F, N, c, i, S(uval(C0[c][i])).c_str(), S(uval(D[c][i])).c_str());
        state(hash(T, F, N, r, 7));
    }
    trace();
}
SCEN(polynomials_large, 0) { poly<90, 60, 1024>(2); poly<130, 65, 2048>(2); poly<1450, 1390, 2048>(1); poly<1450, 60, 4096>(1); poly<64, 60, 8192>(2); poly<61, 60, 16384>(2); poly<30, 29, 32768>(1); poly<40, 39, 65536>(1); poly<66, 60, 131072>(1); bound("RS, resize, mod_raise at N=1024..131072"); }
SCEN(polynomials, 0) { poly<64, 60, 1>(); poly<128, 64, 2>(); poly<130, 65, 4>(); poly<100, 37, 8>(); poly<640, 590, 4>(); poly<640, 60, 8>(); poly<1450, 60, 4>(); poly<1450, 1390, 8>(); poly<192, 128, 16>(); poly<61, 60, 32>(); poly<90, 90, 4>(); poly<330, 165, 512>(); bound("RS, resize, mod_raise on 12 (F,T,N) triples, N=1..512"); sample("mod_raise<60,1450,4> of values around +-2^59"); }
#endif
}
MC_MAIN
