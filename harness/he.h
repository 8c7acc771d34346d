// Shared helpers for the encryption-level harnesses.
#pragma once
#include "zref.h"
#include "HEAAN/core.h"
namespace mc {
typedef std::vector<int> K;
inline int wt(const K &s) { int h = 0; for (int x : s) h += x != 0; return h; }
inline K tern(int N, u64 c) { K s(N); for (int i = 0; i < N; i++) { s[i] = (int)(c % 3) - 1; c /= 3; } return s; }
// keys: zero, units, constants, alternating, sparse pseudo-random
inline std::vector<K> keys(int N, int lvl) {
    std::vector<K> r; std::set<K> seen; auto add = [&](const K &k) { if (seen.insert(k).second) r.push_back(k); };
    if (N <= 2 || (N <= 4 && lvl >= 1)) { u64 n = 1; for (int i = 0; i < N; i++) n *= 3; for (u64 c = 0; c < n; c++) add(tern(N, c)); return r; }
    add(K(N, 1)); add(K(N, -1)); add(K(N, 0)); K k(N, 0);
    for (int p : {0, 1, N / 2, N - 1}) for (int s : {1, -1}) { K u(N, 0); u[p] = s; add(u); }
    for (int i = 0; i < N; i++) k[i] = i % 2 ? 1 : -1; add(k); for (int i = 0; i < N; i++) k[i] = i % 3 - 1; add(k);
    u64 s = 12345; for (int t = 0; t < 3; t++) { for (int i = 0; i < N; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; k[i] = (int)((s >> 40) % 3) - 1; } add(k); }
    return r;
}
// message / ciphertext polynomials: zero, extremes everywhere, extremes at one place, alternating, ramps, dense
inline std::vector<P> polys(int L, int N, int lvl) {
    I h = pow2(L - 1); std::vector<P> r;
    for (const I &x : std::vector<I>{I(0), I(-h), I(h - 1), I(1), I(-1)}) { r.push_back(P(N, x)); if (x != 0) { P p(N, I(0)); p[0] = x; r.push_back(p); p[0] = 0; p[N - 1] = x; r.push_back(p); if (lvl) { p[N - 1] = 0; p[N / 2] = x; r.push_back(p); } } }
    P p(N); for (int i = 0; i < N; i++) p[i] = i % 2 ? I(-h) : I(h - 1); r.push_back(p);
    for (int i = 0; i < N; i++) p[i] = center(I(i + 1) * I(0x9E3779B97F4A7C15ull) * (i % 3 ? 1 : -1), pow2(L)); r.push_back(p);
    u64 s = 0xD1B54A32D192ED03ull + L; for (int t = 0; t < 1 + lvl; t++) { for (int i = 0; i < N; i++) { I x = 0; for (int j = 0; j * 64 < L; j++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; x = (x << 64) + s; } p[i] = center(x, pow2(L)); } r.push_back(p); }
    return r;
}
// reference decryption of a pair
template <int L, int N> P rdec(const R_Q_square<L, N> &c, const K &s) { return pmod(padd(pval(c[0]), pmul(pint(s.data(), N), pval(c[1]))), pow2(L)); }
template <int L, int N> u64 chash(const R_Q_square<L, N> &c, u64 h = 3) { return phash(c[1], phash(c[0], h)); }
template <int L, int N> void cset(R_Q_square<L, N> &c, const P &a, const P &b) { pset(c[0], a); pset(c[1], b); }
template <int L, int N> void junk(R_Q_square<L, N> &c, int b) { for (int k = 0; k < 2; k++) for (int i = 0; i < N; i++) { memset(c[k][i].data, b, sizeof c[k][i].data); } }
inline I maxdiff(const P &a, const P &b, const I &q) { I m = 0; for (size_t i = 0; i < a.size(); i++) { I d = center(a[i] - b[i], q); if (d < 0) d = -d; if (d > m) m = d; } return m; }
inline std::string KS(const K &k) { std::string s = "("; for (size_t i = 0; i < k.size() && i < 24; i++) s += fmt("%s%d", i ? "," : "", k[i]); return s + (k.size() > 24 ? ",...)" : ")"); }
}
