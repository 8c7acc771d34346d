// Reference integers <-> Z_Q and polynomial references.
#pragma once
#include "mc.h"
#include "HEAAN/arith/R_Q.h"
namespace mc {
inline I pow2(int k) { I x = 1; x <<= k; return x; }
inline I limb2I(const u64 *d, int n) { I x = 0; for (int i = n - 1; i >= 0; i--) { x <<= 64; x += d[i]; } return x; }
inline void I2limb(I x, u64 *d, int n) { for (int i = 0; i < n; i++) { d[i] = (u64)(x & I(~0ull)); x >>= 64; } }
template <class Z> inline I uval(const Z &z) { return limb2I(z.data, z.get_length()); }
inline I modp(const I &x, const I &q) { I r = x % q; if (r < 0) r += q; return r; }
inline I center(const I &x, const I &q) { I r = modp(x, q); if (2 * r >= q) r -= q; return r; }
template <int L> inline I sval(const Z_Q<L> &z) { return center(uval(z), pow2(L)); }
template <int L> inline void zset(Z_Q<L> &z, const I &x) { I2limb(modp(x, pow2(L)), z.data, (L + 63) / 64); }
template <int L> inline bool canon(const Z_Q<L> &z) { int n = (L + 63) / 64, r = 64 * n - L; return r == 0 || (z.data[n - 1] >> (64 - r)) == 0; }
template <int L> inline u64 zhash(const Z_Q<L> &z, u64 h = 5) { return hbytes(z.data, sizeof(u64) * ((L + 63) / 64), mix(h, L)); }
inline std::string S(const I &x) { std::string s; I a = x < 0 ? I(-x) : x; s = a.str(0, std::ios_base::hex); return (x < 0 ? "-0x" : "0x") + s; }
typedef std::vector<I> P;   // polynomial with integer coefficients
template <int L, int N> inline P pval(const R_Q<L, N> &a) { P p(N); for (int i = 0; i < N; i++) p[i] = sval<L>(a.coeff[i]); return p; }
template <int L, int N> inline void pset(R_Q<L, N> &a, const P &p) { for (int i = 0; i < N; i++) zset<L>(a.coeff[i], p[i]); }
template <int L, int N> inline bool pcanon(const R_Q<L, N> &a) { for (int i = 0; i < N; i++) if (!canon(a.coeff[i])) return false; return true; }
template <int L, int N> inline u64 phash(const R_Q<L, N> &a, u64 h = 9) { for (int i = 0; i < N; i++) h = zhash(a.coeff[i], h); return h; }
inline P pmul_school(const P &a, const P &b) { int n = a.size(); P c(n, I(0)); for (int i = 0; i < n; i++) if (a[i] != 0) for (int j = 0; j < n; j++) if (b[j] != 0) { int k = i + j; if (k < n) c[k] += a[i] * b[j]; else c[k - n] -= a[i] * b[j]; } return c; }
// big dense products: one integer product of the values at 2^k (k wide enough that coefficients cannot meet)
inline int pbits(const P &a) { int b = 0; for (auto &x : a) if (x != 0) b = std::max(b, (int)msb(x < 0 ? I(-x) : x) + 1); return b; }
inline I ppack(const P &a, int k) { int n = a.size(), w = k / 64; std::vector<u64> p((size_t)n * w + 1, 0), m(p); for (int i = 0; i < n; i++) if (a[i] != 0) { I x = a[i] < 0 ? I(-a[i]) : a[i]; I2limb(x, (a[i] < 0 ? m : p).data() + (size_t)i * w, w); } I x, y; import_bits(x, p.begin(), p.end(), 64, false); import_bits(y, m.begin(), m.end(), 64, false); return x - y; }
inline P pmul(const P &a, const P &b) {
    int n = a.size(); size_t za = 0, zb = 0; for (int i = 0; i < n; i++) { za += a[i] != 0; zb += b[i] != 0; }
    if (n < 128 || za * zb < 40 * (size_t)n) return pmul_school(a, b);
    int lg = 0; while ((1 << lg) < n) lg++; int k = (pbits(a) + pbits(b) + lg + 2 + 63) / 64 * 64, w = k / 64;
    I z = ppack(a, k) * ppack(b, k); { P h(2 * n, pow2(k - 1)); z += ppack(h, k); }   // every digit moved up by half: no borrows
    std::vector<u64> d; export_bits(z, std::back_inserter(d), 64, false); d.resize((size_t)2 * n * w + 2, 0);
    P c(n); I half = pow2(k - 1); for (int i = 0; i < n; i++) c[i] = limb2I(d.data() + (size_t)i * w, w) - limb2I(d.data() + (size_t)(i + n) * w, w); return c; }
inline P padd(const P &a, const P &b) { P c(a); for (size_t i = 0; i < a.size(); i++) c[i] += b[i]; return c; }
inline P psub(const P &a, const P &b) { P c(a); for (size_t i = 0; i < a.size(); i++) c[i] -= b[i]; return c; }
inline P pmod(const P &a, const I &q) { P c(a); for (auto &x : c) x = center(x, q); return c; }
inline bool peqmod(const P &a, const P &b, const I &q) { for (size_t i = 0; i < a.size(); i++) if (modp(a[i] - b[i], q) != 0) return false; return true; }
inline I pnorm(const P &a) { I m = 0; for (auto &x : a) { I y = x < 0 ? I(-x) : x; if (y > m) m = y; } return m; }
inline P pint(const int *s, int n) { P p(n); for (int i = 0; i < n; i++) p[i] = s[i]; return p; }
inline std::string PS(const P &a) { std::string s = "["; for (size_t i = 0; i < a.size() && i < 16; i++) s += (i ? "," : "") + S(a[i]); return s + (a.size() > 16 ? ",...]" : "]"); }

// Structured values below 2^L: powers, neighbours, runs of ones, sign boundaries, limb patterns.
inline std::vector<I> zalpha(int L, int level) {
    std::set<I> s; I Q = pow2(L);
    auto add = [&](const I &x) { s.insert(modp(x, Q)); };
    for (int d = -3; d <= 3; d++) { add(I(d)); add(Q / 2 + d); }
    std::vector<int> ks;
    for (int k = 0; k < L; k++) { int r = k % 64; bool b = r <= 1 || r >= 62 || r == 31 || r == 32 || r == 33 || k >= L - 2; if (b || level >= 2) ks.push_back(k); }
    for (int k : ks) { add(pow2(k)); add(pow2(k) - 1); add(-pow2(k)); if (level) { add(pow2(k) + 1); add(Q - pow2(k) - 1); } }
    if (level) for (int k : ks) for (int j : ks) if (j < k) add(pow2(k) - pow2(j));
    std::vector<u64> lp = {0, 1, ~0ull, ~0ull - 1, 1ull << 63, 0xFFFFFFFFull, 0x100000000ull, 0xAAAAAAAAAAAAAAAAull};
    int n = (L + 63) / 64, na = level ? 8 : 4;
    if (n <= 2 || (n == 3 && level >= 1)) { u64 tot = 1; for (int i = 0; i < n; i++) tot *= na;
        for (u64 c = 0; c < tot; c++) { u64 d[3]; u64 t = c; for (int i = 0; i < n; i++) { d[i] = lp[t % na]; t /= na; } add(limb2I(d, n)); } }
    u64 d2 = 0x0123456789ABCDEFull; I x = 0; for (int i = 0; i < n; i++) { x = (x << 64) + d2; d2 = d2 * 6364136223846793005ull + 1442695040888963407ull; } add(x); add(-x); add(x / 3);
    return std::vector<I>(s.begin(), s.end());
}
}
