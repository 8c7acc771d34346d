// Reference embedding in long double: slot j of m is sum m[k] zeta^(k 5^j), zeta = exp(i pi / N).
#pragma once
#include "mc.h"
namespace mc {
typedef long double LD; typedef std::vector<LD> V;
inline const LD PIL = 3.14159265358979323846264338327950288L;
struct Root { int N; V c, s; Root(int n) : N(n), c(2 * n), s(2 * n) { for (int i = 0; i < 2 * n; i++) { c[i] = cosl(PIL * i / n); s[i] = sinl(PIL * i / n); } if (n >= 2) { c[n / 2] = s[0] = s[n] = c[3 * n / 2] = 0; } } };
inline const Root &root(int N) { static std::map<int, std::unique_ptr<Root>> m; auto &p = m[N]; if (!p) p.reset(new Root(N)); return *p; }
inline void emb(const V &m, V &re, V &im) { int N = m.size(); const Root &R = root(N); re.assign(N / 2, 0); im.assign(N / 2, 0); std::vector<int> nz; for (int k = 0; k < N; k++) if (m[k] != 0) nz.push_back(k); long f = 1; for (int j = 0; j < N / 2; j++, f = f * 5 % (2 * N)) for (int k : nz) { long e = f * k & (2 * N - 1); re[j] += m[k] * R.c[e]; im[j] += m[k] * R.s[e]; } }
inline V iemb(const V &re, const V &im) { int N = 2 * re.size(); const Root &R = root(N); V m(N, 0); long f = 1; for (int j = 0; j < N / 2; j++, f = f * 5 % (2 * N)) if (re[j] != 0 || im[j] != 0) { long e = 0; for (int k = 0; k < N; k++, e = (e + f) % (2 * N)) m[k] += re[j] * R.c[e] + im[j] * R.s[e]; } for (auto &x : m) x *= 2.0L / N; return m; }
inline int brev(int x, int d) { int r = 0; for (int i = 0; i < d; i++) if (x >> i & 1) r |= 1 << (d - 1 - i); return r; }
inline LD l1(const V &a) { LD s = 0; for (LD x : a) s += fabsl(x); return s; }
inline u64 dhash(const double *p, int n, u64 h = 4) { return hbytes(p, 8 * n, h); }
}
