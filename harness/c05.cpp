// C05: NTT<N> for enumerated (N, q).
#include "zref.h"
#include "HEAAN/arith/conv/ntt.h"
#include "primes.h"
#include <memory>
namespace mc {
#ifndef PART
#define PART 0
#endif
typedef std::vector<u64> V;
static u64 mm(u64 a, u64 b, u64 q) { return (u64)((U128)a * b % q); }
static u64 am(u64 a, u64 b, u64 q) { return (u64)(((U128)a + b) % q); }
static V nconv(const V &a, const V &b, u64 q) { int n = a.size(); V c(n, 0); std::vector<int> nz; for (int j = 0; j < n; j++) if (b[j] % q) nz.push_back(j); for (int i = 0; i < n; i++) if (a[i] % q) for (int j : nz) { u64 p = mm(a[i] % q, b[j] % q, q); int k = i + j; if (k < n) c[k] = am(c[k], p, q); else c[k - n] = am(c[k - n], q - p, q); } return c; }
static std::string VS(const V &v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 16; i++) s += fmt("%s%llu", i ? "," : "", (unsigned long long)v[i]); return s + (v.size() > 16 ? ",...]" : "]"); }
static std::string DIFF(const V &a, const V &b) { for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return fmt("index %zu: %llu != %llu", i, (unsigned long long)a[i], (unsigned long long)b[i]); return "same"; }
template <int N> struct T {
    std::unique_ptr<NTT<N>> p; u64 q;
    T(u64 q_) : q(q_) { at("NTT constructor", N, (long)q_); p = std::make_unique<NTT<N>>(q_); }
    V f(const V &x) { V y(x); p->ntt(y.data()); step(); return y; }
    V g(const V &x) { V y(x); p->intt(y.data()); step(); return y; }
    V red(const V &x) { V y(x); for (auto &c : y) c %= q; return y; }
    void trip(const V &x) {
        at("roundtrip", N, (long)q); if (!state(hbytes(x.data(), 8 * N, q))) return;
        V r = red(x), y = f(x), z = g(y); trace();
        for (u64 c : y) MC_CHECK(c < q, "NTT<%d>(q=%llu): forward transform of %s not reduced: %llu", N, (unsigned long long)q, VS(x).c_str(), (unsigned long long)c);
        MC_CHECK(z == r, "NTT<%d>(q=%llu): inverse of forward of %s differs at %s", N, (unsigned long long)q, VS(x).c_str(), DIFF(z, r).c_str());
        V w = g(x), v = f(w);
        for (u64 c : w) MC_CHECK(c < q, "NTT<%d>(q=%llu): inverse transform of %s not reduced: %llu", N, (unsigned long long)q, VS(x).c_str(), (unsigned long long)c);
        MC_CHECK(v == r, "NTT<%d>(q=%llu): forward of inverse of %s differs at %s", N, (unsigned long long)q, VS(x).c_str(), DIFF(v, r).c_str());
        V y2 = f(r); MC_CHECK(y2 == y, "NTT<%d>(q=%llu): forward transform of %s depends on the representative at %s", N, (unsigned long long)q, VS(x).c_str(), DIFF(y, y2).c_str());
    }
    void prod(const V &a, const V &b) {
        at("product", N, (long)q); V x = f(a), y = f(b), z(N); for (int i = 0; i < N; i++) z[i] = mm(x[i], y[i], q);
        V c = g(z), w = nconv(a, b, q); trace(); state(hbytes(a.data(), 8 * N, hbytes(b.data(), 8 * N, q)));
        MC_CHECK(c == w, "NTT<%d>(q=%llu): product of %s and %s differs at %s", N, (unsigned long long)q, VS(a).c_str(), VS(b).c_str(), DIFF(c, w).c_str());
    }
};
template <int N> static V digits(u64 c, u64 base) { V x(N); for (int i = 0; i < N; i++) { x[i] = c % base; c /= base; } return x; }
template <int N> static void complete(u64 q) {      // every vector (and every pair when few)
    T<N> t(q); u64 n = 1; for (int i = 0; i < N; i++) n *= q;
    for (u64 c = 0; c < n; c++) t.trip(digits<N>(c, q));
    if (n <= 700) for (u64 c = 0; c < n; c++) for (u64 d = 0; d < n; d++) t.prod(digits<N>(c, q), digits<N>(d, q));
    bound("N=%d q=%llu: all %llu vectors%s", N, (unsigned long long)q, (unsigned long long)n, n <= 700 ? " and all pairs" : "");
}
static V alpha(u64 q) { return V{0, 1, 2, q / 2, q / 2 + 1, q - 2, q - 1, q, q + 1, ~0ull, ~0ull - 1, 1ull << 63, (~0ull / q) * q, (~0ull / q) * q - 1}; }
// basis vectors, all-equal vectors, alternating, every value of the alphabet at every position, pairs of basis vectors
template <int N> static void structured(u64 q, int lvl) {
    T<N> t(q); V al = alpha(q); std::vector<V> S; const int stride = N > 8192 ? N / 4 : lvl >= 2 ? 1 : lvl == 1 ? (N > 64 ? N / 32 : 1) : (N > 8 ? N / 8 : 1);
    for (int i = 0; i < N; i += stride) for (u64 v : al) if (v % q || i == 0) { V x(N, 0); x[i == 0 ? 0 : (i % 3 == 1 && i + 1 < N && stride > 1 ? i + 1 : i)] = v; S.push_back(x); }
    { V x(N, 0); x[N - 1] = 1; S.push_back(x); x[N - 1] = ~0ull; S.push_back(x); }
    for (u64 v : al) { V x(N, v); S.push_back(x); for (u64 w : V{0, 1, q - 1, ~0ull}) { V y(N); for (int i = 0; i < N; i++) y[i] = i % 2 ? v : w; S.push_back(y); V z(N); for (int i = 0; i < N; i++) z[i] = i < N / 2 ? v : w; S.push_back(z); } }
    { u64 s = 88172645463325252ull ^ q; V x(N); for (int r = 0; r < 4; r++) { for (auto &c : x) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; c = s; } S.push_back(x); } }
    for (auto &x : S) t.trip(x);
    size_t m = S.size(), ps = N <= 16 ? 1 : N <= 64 ? 3 : N <= 1024 ? 1 + m / 12 : 1 + m / 5;
    if ((long)m * m / (ps * ps) * N * N > 400000000L && N <= 64) ps = 1 + m / 40;
    for (size_t i = 0; i < m; i += ps) for (size_t j = i % 2; j < m; j += ps) {
        if (N > 1024) { int nz = 0; for (u64 c : S[j]) nz += c % q != 0; int ni = 0; for (u64 c : S[i]) ni += c % q != 0; if ((long)nz * ni > 40000) continue; }
        t.prod(S[i], S[j]); }
    // linearity on the enumerated vectors
    for (size_t i = 0; i + 1 < m; i += 1 + m / 40) { V a = t.f(S[i]), b = t.f(S[i + 1]), s(N); for (int k = 0; k < N; k++) s[k] = am(S[i][k] % q, S[i + 1][k] % q, q); V c = t.f(s); for (int k = 0; k < N; k++) MC_CHECK(c[k] == am(a[k], b[k], q), "NTT<%d>(q=%llu) not additive at %d", N, (unsigned long long)q, k); }
    bound("N=%d q=%llu: %zu structured vectors (every basis position stride %d x 14 words), product pairs stride %zu", N, (unsigned long long)q, m, stride, ps);
}
template <int N> static void slim(u64 q) {
    T<N> t(q); std::vector<V> S;
    for (int i : {0, 1, N / 2 - 1, N / 2, N - 1}) { V x(N, 0); x[i] = i == N - 1 ? ~0ull : q - 1 - i; if (i == 1) x[N - 2] = 5; S.push_back(x); }
    { V x(N, q - 1); S.push_back(x); V y(N); for (int i = 0; i < N; i++) y[i] = i % 3 == 0 ? ~0ull - i : i; S.push_back(y); }
    for (auto &x : S) t.trip(x);
    t.prod(S[1], S[6]); t.prod(S[6], S[4]); t.prod(S[4], S[4]); if (tier()) for (int i = 0; i < 5; i++) for (auto &y : S) t.prod(S[i], y);
    bound("N=%d q=%llu: %zu vectors, sparse x dense products", N, (unsigned long long)q, S.size());
}
#if PART == 0
SCEN(complete_tiny, 0) { complete<2>(5); complete<2>(13); complete<2>(17); complete<2>(29); complete<4>(17); complete<2>(97); if (tier()) { complete<4>(41); complete<4>(73); } sample("q=5,N=2: all 25 vectors, all 625 products; q=17,N=4: all 83521 vectors"); }
SCEN(small_fields, 0) {
    for (u64 q : {41ull, 73ull, 89ull}) structured<4>(q, 2); for (u64 q : {17ull, 97ull, 113ull, 193ull}) structured<8>(q, 2); for (u64 q : {97ull, 193ull, 257ull}) structured<16>(q, 2);
    structured<32>(193, 2); structured<64>(257, 2); structured<128>(257, 1); structured<128>(769, 1);
}
// interleaved use of several transforms: no table is shared between sizes or moduli
SCEN(interleaved, 0) {
    const u64 Q[] = {TABLE_PRIMES[0], TABLE_PRIMES[2], 12289, BIG_PRIMES[0], TABLE_PRIMES[101]};
    std::vector<std::unique_ptr<T<8>>> a; std::vector<std::unique_ptr<T<32>>> b; 
    for (u64 q : Q) { a.push_back(std::make_unique<T<8>>(q)); b.push_back(std::make_unique<T<32>>(q)); }
    std::map<int, V> first; V x8 = digits<8>(0x123456789abcull, 61), x32 = digits<32>(0x3123456789abcull, 7);
    for (int i = 0; i < 5; i++) { first[i] = a[i]->f(x8); first[10 + i] = b[i]->f(x32); first[20 + i] = a[i]->g(x8); first[30 + i] = b[i]->g(x32); }
    for (int i = 0; i < 20; i++) for (int j = 0; j < 20; j++) for (int k : {i, j}) { int o = k / 5, m = k % 5; V r = o == 0 ? a[m]->f(x8) : o == 1 ? b[m]->f(x32) : o == 2 ? a[m]->g(x8) : b[m]->g(x32); MC_CHECK(r == first[o * 10 + m], "transform %d of modulus %d changed after other transforms ran (history %d,%d)", o, m, i, j); state(hash(i, j, k)); trace(); }
    bound("all histories of length 2 over 20 (direction,size,modulus) operations");
}
#elif PART == 1
SCEN(table_primes, 0) { for (u64 q : TABLE_PRIMES) structured<8>(q, 0); bound("all 102 primes of the convolution table at N=8"); }
SCEN(big_primes, 0) { for (u64 q : BIG_PRIMES) { structured<2>(q, 2); structured<8>(q, 2); structured<32>(q, 2); } sample("q=0xfffe400000000001 with inputs ~0 (unreduced 64-bit words)"); }
SCEN(table_primes32, 0) { for (int i = 0; i < 102; i += tier() ? 1 : 5) structured<32>(TABLE_PRIMES[i], 1); }
#elif PART == 2
SCEN(mid, 0) { structured<64>(TABLE_PRIMES[0], 2); structured<128>(TABLE_PRIMES[1], 2); structured<256>(TABLE_PRIMES[2], 1); structured<512>(TABLE_PRIMES[3], 1); structured<1024>(TABLE_PRIMES[4], 1); structured<1024>(BIG_PRIMES[0], 1); structured<512>(12289, 1); structured<2048>(TABLE_PRIMES[3], 0);}
SCEN(n4096, 0) { structured<4096>(TABLE_PRIMES[5], 0); structured<8192>(TABLE_PRIMES[7], 0); }
#elif PART == 3
SCEN(n16k, 0) { structured<16384>(TABLE_PRIMES[101], 0); }
SCEN(n32k, 0) { slim<32768>(TABLE_PRIMES[2]); }
SCEN(n64k, 0) { slim<65536>(TABLE_PRIMES[0]); }
SCEN(n128k, 0) { slim<131072>(TABLE_PRIMES[3]); }
#endif
}
MC_MAIN
