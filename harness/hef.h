// Slot-level helpers for the approximate-arithmetic harnesses.
#pragma once
#include "he.h"
#include "fref.h"
namespace mc {
inline LD toLD(const I &x) { I a = x < 0 ? I(-x) : x; int sh = 0; int b = a == 0 ? 0 : (int)msb(a); if (b > 100) { sh = b - 100; a >>= sh; } LD r = ldexpl(a.convert_to<LD>(), sh); return x < 0 ? -r : r; }
struct Z { V r, i; Z(int M = 0) : r(M, 0), i(M, 0) {} };
inline Z zslots(const P &m, LD lgscale) { V c(m.size()); for (size_t k = 0; k < m.size(); k++) c[k] = toLD(m[k]) * exp2l(-lgscale); Z z; emb(c, z.r, z.i); return z; }
inline P zpoly(const Z &z, LD lgscale) { V m = iemb(z.r, z.i); P p(m.size()); for (size_t k = 0; k < m.size(); k++) p[k] = I(roundl(m[k] * exp2l(lgscale))); return p; }
inline LD zdiff(const Z &a, const Z &b) { LD m = 0; for (size_t k = 0; k < a.r.size(); k++) { LD d = fabsl(a.r[k] - b.r[k]) + fabsl(a.i[k] - b.i[k]); if (!(d <= m)) m = d; } return m; }
inline LD zmax(const Z &a) { LD m = 0; for (size_t k = 0; k < a.r.size(); k++) m = std::max(m, fabsl(a.r[k]) + fabsl(a.i[k])); return m; }
inline std::string ZS(const Z &z) { std::string s; for (size_t k = 0; k < z.r.size() && k < 8; k++) s += fmt("(%.9Lg,%.9Lg)", z.r[k], z.i[k]); return s; }
inline LD pl1(const P &p) { LD s = 0; for (auto &x : p) s += fabsl(toLD(x)); return s; }
// an encryption made by the reference: mask from a fixed generator, noise e
template <int L, int N> void renc(R_Q_square<L, N> &c, const P &m, const K &s, u64 seed, int e = 0) { P a(N); u64 x = seed * 0x9E3779B97F4A7C15ull + 1; for (int i = 0; i < N; i++) { I v = 0; for (int j = 0; j * 32 < L; j++) { x = x * 6364136223846793005ull + 1442695040888963407ull; v = (v << 32) + (x >> 32); } a[i] = center(v, pow2(L)); } P b = psub(m, pmul(pint(s.data(), N), a)); for (int i = 0; i < N; i++) b[i] += i % 2 ? e : -e; cset(c, b, a); }
inline LD ksb(int N, const K &s) { return 8.0L * N + (1 + wt(s)) / 2.0L; }   // key-switching error bound
}
