// C01: ring arithmetic of Z_Q / R_Q / R_Q_square.
#include "zref.h"
#include "HEAAN/arith/R_Q_square.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
#ifndef NPART
#define NPART 1
#endif

static const u64 WORDS[] = {0, 1, 2, 3, 5, 7, 10, 0xFF, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0x100000000ull, 0x100000001ull, 0xFFFFFFFF00000000ull,
                            0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFEull, 0xFFFFFFFFFFFFFFFFull, 0x123456789ABCDEFull, 0xAAAAAAAAAAAAAAAAull, 1ull << 50, 1ull << 60};

// ---- complete transition relation for tiny rings -------------------------------------------------
template <int L> struct Tiny { static void go() {
    const u64 Q = 1ull << L; const int NW = sizeof WORDS / sizeof *WORDS;
    std::vector<std::pair<u64, u64>> fr; HashSet seen;
    fr.push_back({0, 0}); fr.push_back({1, 0}); fr.push_back({1, 1}); fr.push_back({0, Q - 1});
    for (auto &p : fr) { seen.insert(hash(L, p.first, p.second)); }
    auto mk = [&](Z_Q<L> &z, u64 v) { z.data[0] = v; };
    u64 n = 0, leaves = 0;
    for (size_t h = 0; h < fr.size(); h++) {
        u64 a = fr[h].first, b = fr[h].second; n++; state(hash(L, a, b)); size_t before = fr.size();
        for (int op = 0; op < 10 + NW; op++) {
            Z_Q<L> x, y; mk(x, a); mk(y, b); u64 ea = a, eb = b;
            at("tiny", L, a, b, op);
            switch (op) {
            case 0: x += y; ea = a + b; break;
            case 1: x -= y; ea = a - b; break;
            case 2: x *= y; ea = a * b; break;
            case 3: x += x; ea = 2 * a; break;
            case 4: x -= x; ea = 0; break;
            case 5: x *= x; ea = a * a; break;
            case 6: x.negate(); ea = 0 - a; break;
            case 7: y = x; eb = a; break;
            case 8: x.setzero(); ea = 0; break;
            case 9: { Z_Q<L> t(x); x = y; y = t; ea = b; eb = a; break; }
            default: x *= (uint64_t)WORDS[op - 10]; ea = a * WORDS[op - 10]; }
            ea &= Q - 1; step();
            MC_CHECK(x.data[0] == ea && y.data[0] == eb, "LOGQ=%d x=%llu y=%llu op=%d word=%llu: got x=%llu y=%llu, want %llu %llu", L, a, b, op, op >= 10 ? WORDS[op - 10] : 0, x.data[0], y.data[0], ea, eb);
            if (seen.insert(hash(L, ea, eb))) fr.push_back({ea, eb});
        }
        if (fr.size() == before) leaves++;
    }
    trace(leaves); bound("LOGQ=%d: all %llu reachable (x,y) states closed under %d operations", L, n, 10 + NW);
    if (n != Q * Q) fail("LOGQ=%d: only %llu of %llu states reachable", L, n, Q * Q);
} };
#if PART == 0
SCEN(tiny_complete, 0) { each_t<Tiny>(Range<1, 8>()); sample("LOGQ=1..8: every (x,y) in Z_Q^2 x every operation, fixpoint reached"); }
#endif

// ---- structured operands for every precision ------------------------------------------------------
template <int L> static void binops(const std::vector<I> &A, const std::vector<I> &B, int mulstride) {
    const I Q = pow2(L);
    std::vector<Z_Q<L>> za(A.size()), zb(B.size());
    for (size_t i = 0; i < A.size(); i++) zset<L>(za[i], A[i]);
    for (size_t i = 0; i < B.size(); i++) zset<L>(zb[i], B[i]);
    const int n = (L + 63) / 64;
    auto same = [&](const Z_Q<L> &z, const I &w) { Z_Q<L> e; zset<L>(e, w); return !memcmp(e.data, z.data, sizeof(u64) * n); };
    static int ctr = 0;
    for (size_t i = 0; i < A.size(); i++) {
        state(zhash(za[i]));
        { Z_Q<L> x(za[i]); x += x; step(); MC_CHECK(same(x, 2 * A[i]), "LOGQ=%d x+=x for x=%s gives %s", L, S(A[i]).c_str(), S(uval(x)).c_str()); }
        { Z_Q<L> x(za[i]); x -= x; step(); MC_CHECK(same(x, 0), "LOGQ=%d x-=x for x=%s gives %s", L, S(A[i]).c_str(), S(uval(x)).c_str()); }
        { Z_Q<L> x(za[i]); x *= x; step(); MC_CHECK(same(x, A[i] * A[i]), "LOGQ=%d x*=x for x=%s gives %s", L, S(A[i]).c_str(), S(uval(x)).c_str()); }
        { Z_Q<L> x(za[i]); x.negate(); step(); MC_CHECK(same(x, -A[i]), "LOGQ=%d -x for x=%s gives %s", L, S(A[i]).c_str(), S(uval(x)).c_str()); }
        for (u64 w : WORDS) { Z_Q<L> x(za[i]); x *= (uint64_t)w; step(); MC_CHECK(same(x, A[i] * I(w)), "LOGQ=%d x*=%llu for x=%s gives %s", L, (unsigned long long)w, S(A[i]).c_str(), S(uval(x)).c_str()); }
        for (size_t j = 0; j < B.size(); j++) {
            at("binop", L, i, j);
            // addition and subtraction: reference on limbs with 128-bit arithmetic
            u64 s[(L + 63) / 64], d[(L + 63) / 64]; U128 c = 0; __int128 br = 0;
            for (int k = 0; k < n; k++) { c += (U128)za[i].data[k] + zb[j].data[k]; s[k] = (u64)c; c >>= 64; __int128 t = (__int128)za[i].data[k] - zb[j].data[k] + br; d[k] = (u64)t; br = t < 0 ? -1 : 0; }
            if (L % 64) { s[n - 1] &= (~0ull >> (64 - L % 64)); d[n - 1] &= (~0ull >> (64 - L % 64)); }
            Z_Q<L> x(za[i]), y(zb[j]);
            x += y; MC_CHECK(!memcmp(x.data, s, sizeof s) && !memcmp(y.data, zb[j].data, sizeof s), "LOGQ=%d %s + %s gives %s (right operand %s)", L, S(A[i]).c_str(), S(B[j]).c_str(), S(uval(x)).c_str(), S(uval(y)).c_str());
            Z_Q<L> x2(za[i]);
            x2 -= y; MC_CHECK(!memcmp(x2.data, d, sizeof d) && !memcmp(y.data, zb[j].data, sizeof s), "LOGQ=%d %s - %s gives %s (right operand %s)", L, S(A[i]).c_str(), S(B[j]).c_str(), S(uval(x2)).c_str(), S(uval(y)).c_str());
            step(2);
            if (mulstride && (ctr++ % mulstride) == 0) {
                Z_Q<L> x3(za[i]); x3 *= y; step();
                MC_CHECK(same(x3, A[i] * B[j]) && !memcmp(y.data, zb[j].data, sizeof s), "LOGQ=%d %s * %s gives %s (right operand %s)", L, S(A[i]).c_str(), S(B[j]).c_str(), S(uval(x3)).c_str(), S(uval(y)).c_str());
            }
        }
    }
    trace(A.size() * B.size());
}
template <int L> struct Sizes { static void go() {
    auto A = zalpha(L, L <= 130 || tier());
    binops<L>(A, A, 1 + (int)(A.size() * A.size() / 20000));
} };
#define PCAT(a, b) a##b
// LOGQ = 1..200 is cut into parts of 25
SCEN(all_sizes, 0) { each_t<Sizes>(Range<1 + 25 * PART, 25 + 25 * PART>()); bound("LOGQ=%d..%d, all pairs of structured operands", 1 + 25 * PART, 25 + 25 * PART); sample("e.g. LOGQ=%d x,y over 0,+-1..3,Q/2+-3,2^k,2^k-1,-2^k,limb patterns", 1 + 25 * PART); }
template <int L> struct Big { static void go() {
    auto A = zalpha(L, 0); std::vector<I> B; for (size_t i = 0; i < A.size(); i += 1 + A.size() / (tier() ? 4000 : 400)) B.push_back(A[i]); for (int d = -2; d <= 2; d++) { B.push_back(modp(I(d), pow2(L))); B.push_back(pow2(L - 1) + d); }
    binops<L>(A, B, 1 + (int)(A.size() * B.size() / 4000));
} };
#if PART == 0
SCEN(big_sizes_a, 0) { each_t<Big>(List<255, 256, 257, 319, 320, 321, 384, 442, 512, 513>()); bound("LOGQ=255..513 selection"); }
#elif PART == 1
SCEN(big_sizes_b, 0) { each_t<Big>(List<640, 730, 1024, 1025, 1270, 1300>()); bound("LOGQ=640..1300 selection"); }
#elif PART == 2
SCEN(big_sizes_c, 0) { each_t<Big>(List<1450, 1472, 2048>()); bound("LOGQ=1450,1472,2048"); }
#elif PART == 3
SCEN(big_sizes_d, 0) { each_t<Big>(List<2900, 3051>()); bound("LOGQ=2900,3051"); }
#endif

// ---- every local carry configuration: all limb patterns on 1..4 limbs, sliding windows above -------
template <int L, int NA, int M> static void carry() {
    const u64 al[] = {0, ~0ull, 1, ~0ull - 1, 1ull << 63};
    const int n = (L + 63) / 64; std::vector<I> A; u64 tot = 1; for (int i = 0; i < n; i++) tot *= NA;
    for (u64 c = 0; c < tot; c++) { u64 d[8]; u64 t = c; for (int i = 0; i < n; i++) { d[i] = al[t % NA]; t /= NA; } A.push_back(modp(limb2I(d, n), pow2(L))); }
    std::sort(A.begin(), A.end()); A.erase(std::unique(A.begin(), A.end()), A.end());
    binops<L>(A, A, M);
    bound("LOGQ=%d: all %zu x %zu operand pairs with limbs in {0,~0,1,~0-1,2^63}[0..%d)", L, A.size(), A.size(), NA);
}
template <int L> static void windows() {
    const u64 al[] = {0, ~0ull, 1}; const int n = (L + 63) / 64;
    for (int bg = 0; bg < 2; bg++) for (int p = 0; p + 2 < n; p++) {
        std::vector<I> A;
        for (int c = 0; c < 27; c++) { std::vector<u64> d(n, bg ? ~0ull : 0); int t = c; for (int i = 0; i < 3; i++) { d[p + i] = al[t % 3]; t /= 3; } A.push_back(modp(limb2I(d.data(), n), pow2(L))); }
        std::vector<I> B = A; B.push_back(I(1)); B.push_back(pow2(L) - 1); B.push_back(pow2(64 * (p + 1)));
        binops<L>(A, B, 5);
    }
    bound("LOGQ=%d: all 3-limb windows {0,~0,1}^3 x same over zero and all-ones background at every limb position", L);
}
#if PART == 4
SCEN(carry_limbs, 0) { carry<64, 5, 1>(); carry<100, 5, 1>(); carry<128, 5, 1>(); carry<129, 5, 2>(); carry<192, 5, 2>(); carry<193, 4, 8>(); }
#elif PART == 5
SCEN(carry_limbs4, 0) { carry<256, 4, 16>(); carry<200, 4, 16>(); carry<320, 3, 16>(); }
#elif PART == 6
SCEN(carry_windows, 0) { windows<1450>(); }
#elif PART == 7
SCEN(carry_windows2, 0) { windows<640>(); windows<1000>(); }
SCEN(carry_windows3, 1) { windows<2900>(); }
#endif

// ---- operation sequences on multi-limb registers ------------------------------------------------------
template <int L> static void seqs(int depth, size_t cap) {
    struct St { I x, y; }; std::vector<St> fr, nx; const I Q = pow2(L); HashSet seen;
    for (I s : std::vector<I>{I(0), I(1), I(Q - 1), I(Q / 2), I(Q / 3)}) fr.push_back({s, I(1)});
    u64 tr = 0;
    for (int d = 0; d < depth; d++) { nx.clear();
        for (auto &s : fr) for (int op = 0; op < 12; op++) {
            Z_Q<L> x, y; zset<L>(x, s.x); zset<L>(y, s.y); I ex = s.x, ey = s.y; at("seq", L, d, op);
            switch (op) {
            case 0: x += y; ex += ey; break; case 1: x -= y; ex -= ey; break; case 2: x *= y; ex *= ey; break;
            case 3: x += x; ex += s.x; break; case 4: x *= x; ex *= s.x; break; case 5: x.negate(); ex = -ex; break;
            case 6: { Z_Q<L> t(y); y = x; x = t; std::swap(ex, ey); break; }
            case 7: x *= (uint64_t)(~0ull); ex *= I(~0ull); break; case 8: x *= (uint64_t)(1ull << 63); ex *= I(1ull << 63); break;
            case 9: y += y; ey += s.y; break; case 10: y -= x; ey -= s.x; break; case 11: y.negate(); ey = -ey; break; }
            ex = modp(ex, Q); ey = modp(ey, Q); step();
            MC_CHECK(uval(x) == ex && uval(y) == ey, "LOGQ=%d depth %d x=%s y=%s op=%d: got x=%s y=%s want %s %s", L, d, S(s.x).c_str(), S(s.y).c_str(), op, S(uval(x)).c_str(), S(uval(y)).c_str(), S(ex).c_str(), S(ey).c_str());
            u64 h = hash(zhash(x), zhash(y));
            if (seen.insert(h)) { state(h); nx.push_back({ex, ey}); }
        }
        tr = nx.size(); if (nx.size() > cap) { bound("LOGQ=%d: breadth-first over 12 operations, complete to depth %d (%zu frontier states), stopped there", L, d + 1, nx.size()); fr.clear(); break; }
        fr.swap(nx); if (d == depth - 1) bound("LOGQ=%d: breadth-first over 12 operations, complete to depth %d", L, depth);
    }
    trace(tr);
}
#if PART == 5
SCEN(sequences, 0) { int d = tier() ? 9 : 6; size_t c = tier() ? 400000 : 12000; seqs<65>(d, c); seqs<128>(d, c); seqs<130>(d, c); seqs<192>(d, c); }
#elif PART == 6
SCEN(sequences_b, 0) { int d = tier() ? 9 : 6; size_t c = tier() ? 400000 : 12000; seqs<60>(d, c); seqs<64>(d, c); seqs<250>(d, c); seqs<1450>(d - 2, c); }
#endif

// ---- polynomials and pairs -------------------------------------------------------------------------------
template <int L, int N> static void ring(const int rounds = 40) {
    const I Q = pow2(L); auto A = zalpha(L, 0);
    typedef R_Q_square<L, N> C2; static C2 a, b; static R_Q<L, N> p, q;
    size_t k = A.size();
    for (int r = 0; r < rounds; r++) for (int op = 0; op < 9; op++) {
        P ea[2], eb[2];
        for (int c = 0; c < 2; c++) { ea[c].resize(N); eb[c].resize(N); for (int i = 0; i < N; i++) { ea[c][i] = A[(i * 7 + r * 3 + c * 11) % k]; eb[c][i] = A[(i * 5 + r * 13 + c + (i * i) / 3) % k]; } pset<L, N>(a[c], ea[c]); pset<L, N>(b[c], eb[c]); }
        pset<L, N>(p, ea[0]); pset<L, N>(q, eb[1]); P ep = ea[0], eq = eb[1];
        u64 w = WORDS[r % (sizeof WORDS / sizeof *WORDS)]; u64 hb = phash(b[0], phash(b[1])), hq = phash(q);
        at("ring", L, N, r, op);
        switch (op) {
        case 0: a += b; p += q; ep = padd(ep, eq); for (int c = 0; c < 2; c++) ea[c] = padd(ea[c], eb[c]); break;
        case 1: a -= b; p -= q; ep = psub(ep, eq); for (int c = 0; c < 2; c++) ea[c] = psub(ea[c], eb[c]); break;
        case 2: a *= (uint64_t)w; p *= (uint64_t)w; for (auto &x : ep) x *= w; for (int c = 0; c < 2; c++) for (auto &x : ea[c]) x *= w; break;
        case 3: a += a; p += p; ep = padd(ep, ep); for (int c = 0; c < 2; c++) ea[c] = padd(ea[c], ea[c]); break;
        case 4: a -= a; p -= p; ep = P(N, I(0)); ea[0] = ea[1] = ep; break;
        case 5: a.setzero(); p.setzero(); ep = P(N, I(0)); ea[0] = ea[1] = ep; break;
        case 6: a = b; p = q; ep = eq; ea[0] = eb[0]; ea[1] = eb[1]; break;
        case 7: { C2 t(b); a = t; R_Q<L, N> u(q); p = u; ep = eq; ea[0] = eb[0]; ea[1] = eb[1]; break; }
        case 8: a[0] += b[1]; a[1] -= b[0]; p[N - 1] += q[0]; ep[N - 1] += eq[0]; ea[0] = padd(ea[0], eb[1]); ea[1] = psub(ea[1], eb[0]); break;
        }
        step(2); state(hash(L, N, r, phash(p), phash(a[0]), phash(a[1])));
        for (int i = 0; i < N; i++) {
            MC_CHECK(uval(p[i]) == modp(ep[i], Q), "R_Q<%d,%d> op %d round %d coefficient %d: got %s want %s", L, N, op, r, i, S(uval(p[i])).c_str(), S(modp(ep[i], Q)).c_str());
            for (int c = 0; c < 2; c++) MC_CHECK(uval(a[c][i]) == modp(ea[c][i], Q), "R_Q_square<%d,%d> op %d round %d part %d coefficient %d: got %s want %s", L, N, op, r, c, i, S(uval(a[c][i])).c_str(), S(modp(ea[c][i], Q)).c_str());
        }
        MC_CHECK(phash(b[0], phash(b[1])) == hb && phash(q) == hq, "R_Q<%d,%d> op %d changed its right operand", L, N, op);
    }
    trace(rounds);
}
#if PART == 7
SCEN(polynomials, 0) { ring<1, 2>(); ring<7, 4>(); ring<60, 8>(); ring<64, 2>(); ring<65, 8>(); ring<128, 4>(); ring<130, 16>(); ring<192, 1>(); ring<1450, 8>(); ring<64, 512>(); ring<250, 64>(); ring<127, 1024>(); bound("R_Q/R_Q_square over 12 (LOGQ,N) pairs, N=1..1024, 9 operations, 40 coefficient assignments each"); }
SCEN(polynomials_large, 0) { int t = tier() ? 8 : 1; ring<60, 2048>(6 * t); ring<64, 4096>(3 * t); ring<65, 8192>(2 * t); ring<130, 16384>(2 * t); ring<20, 32768>(t); ring<63, 65536>(t); ring<64, 131072>(1); ring<1450, 1024>(2 * t); ring<640, 2048>(2 * t); bound("R_Q/R_Q_square at N=1024..65536, 9 operations, 1..6 coefficient assignments each"); }
#endif
}
MC_MAIN
