// C18: linear transforms on ciphertexts, plaintexts and messages against the dense matrix product.
#include "hef.h"
#include "HEAAN/linear_transform.h"
#include "impl/message.h"
#include "impl/plaintext.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
struct CM { int n; std::vector<V> r, i; CM(int n = 0) : n(n), r(n, V(n, 0)), i(n, V(n, 0)) {} Z mul(const Z &z) const { Z w(n); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { w.r[a] += r[a][b] * z.r[b] - i[a][b] * z.i[b]; w.i[a] += r[a][b] * z.i[b] + i[a][b] * z.r[b]; } return w; } };
// diagonals: value pattern p on diagonal s, row i
static double pr(int p, int s, int i, int M) { switch (p) { case 0: return 1; case 1: return (i % 2 ? -1 : 1) * (s + 1) * 0.375; case 2: return i == (s * 3 + 1) % M ? 1.25 : 0; case 3: return ((i * 5 + s * 3) % 7 - 3) / 3.0; default: return 0; } }
template <int M, int S> static void fill(SparseDiagonal<M, S> &a, const std::vector<int> &off, int zero, int pat) { memset((void *)&a, 0x77, sizeof a); a.setzero(); for (int s = 0; s < S; s++) a.off[s] = off[s]; for (int s = 0; s < S; s++) if (!(zero >> s & 1)) for (int i = 0; i < M; i++) a.set_element(i, (i + off[s]) % M, pr(pat, s, i, M)); }
template <int M, int S> static CM cm(const SparseDiagonal<M, S> &a, const SparseDiagonal<M, S> &b) { CM c(M); for (int s = 0; s < S; s++) for (int i = 0; i < M; i++) { c.r[i][(i + a.off[s]) % M] += a.vec[s][i]; c.i[i][(i + b.off[s]) % M] += b.vec[s][i]; } return c; }
template <int S> static std::vector<std::vector<int>> offsets(int N) { std::vector<std::vector<int>> r; std::vector<int> o(S); std::function<void(int)> rec = [&](int k) { if (k == S) { r.push_back(o); return; } for (int x = 0; x < N; x++) { bool u = false; for (int j = 0; j < k; j++) u |= o[j] == x; if (!u) { o[k] = x; rec(k + 1); } } }; rec(0); return r; }
static std::vector<Z> msgs(int M) { std::vector<Z> r; for (int q = 0; q < 5; q++) { Z z(M); for (int i = 0; i < M; i++) { z.r[i] = q == 0 ? 1 : q == 1 ? i == M - 1 : q == 2 ? 0 : ((i * 5 + q) % 9 - 4) / 4.0L; z.i[i] = q == 2 ? (i == 1 % M) : q > 2 ? ((i * 7 + q * 2) % 11 - 5) / 5.0L : 0; } r.push_back(z); } return r; }
template <int L, int G, int LD_> struct T {
    static const int N = 1 << G, M = N / 2; typedef R_Q_square<L, N> C; std::unique_ptr<C> ct{new C}, out{new C}; int n = 0; K s; int sk[N]; P m; static constexpr double lgd = LD_;
    void input(const Z &z, const K &key, u64 seed) { s = key; memcpy(sk, s.data(), sizeof sk); m = zpoly(z, LD_); renc(*ct, m, s, seed); }
    // error of one transform: coefficient error e0 on an input with l1 norm ml1
    LD grow(LD e0, LD ml1, const std::vector<LD> &ptl1, int hops = 0) { LD e = 0; int h = 0; for (LD p : ptl1) { h++; e += 0.5001L * ml1 + (e0 + (hops ? h * ksb(N, s) : ksb(N, s))) * (p + N) + 1e-13L * ml1 * p; } return e; }
    template <int S> std::vector<LD> pn(const SparseDiagonal<M, S> &a, const SparseDiagonal<M, S> &b) { std::vector<LD> r; for (int k = 0; k < S; k++) { Z z(M); for (int i = 0; i < M; i++) { z.r[i] = a.vec[k][i]; z.i[i] = b.vec[k][i]; } if (zmax(z) > 0) r.push_back(l1(iemb(z.r, z.i)) * exp2l(LD_)); } return r; }
    void verify(const C &o, const Z &want, LD lg, LD coeferr, const char *how) { MC_CHECK(pcanon(o[0]) && pcanon(o[1]), "%s<%d,%d> wrote a non-canonical coefficient", how, L, G); Z got = zslots(rdec(o, s), lg); LD t = coeferr * N * exp2l(-lg) + 1e-12L * (1 + zmax(want)); LD d = zdiff(got, want); MC_CHECK(d <= t, "%s<%d,%d,%d> key %s: slots %s want %s (off by %Lg, bound %Lg)", how, L, G, LD_, KS(s).c_str(), ZS(got).c_str(), ZS(want).c_str(), d, t); MC_CHECK(t < 1e-2L * (1 + zmax(want)), "harness: tolerance %Lg useless for %s<%d,%d,%d>", t, how, L, G, LD_); trace(); }
    template <int S> void one(const SparseDiagonal<M, S> &a, const SparseDiagonal<M, S> &b) {   // both sparse forms
        CM A = cm(a, b); Z z = zslots(m, LD_), want = A.mul(z); LD ce = grow(0, pl1(m), pn(a, b)); u64 h = hash(chash(*ct), hbytes(&a, sizeof a), hbytes(&b, sizeof b), hbytes(sk, sizeof sk)); state(h);
        auto same = [&](const char *w) { MC_CHECK(h == hash(chash(*ct), hbytes(&a, sizeof a), hbytes(&b, sizeof b), hbytes(sk, sizeof sk)), "%s<%d,%d> changed an input", w, L, G); };
        junk(*out, n++ & 1 ? 0xff : 0); at("linear_transform(secret)", L, G, LD_, S, n); linear_transform<L, G, LD_, S>(a, b, *ct, sk, *out); step(); verify(*out, want, 2 * LD_, ce, "linear_transform deriving keys"); same("linear_transform");
        static R_Q_square<2 * L, N> rk[S]; const R_Q_square<2 * L, N> *pk[S]; for (int k = 0; k < S; k++) { pk[k] = nullptr; if (a.off[k] != 0 && !(a.zero[k] && b.zero[k])) { int sr[N]; rot<N>(sk, sr, a.off[k]); HEAAN<L, N>::swkgen(sr, sk, rk[k]); pk[k] = &rk[k]; step(); } }
        junk(*out, n & 1 ? 0xff : 0); at("linear_transform(keys)", L, G, LD_, S, n); linear_transform<L, G, LD_, S>(a, b, *ct, pk, *out); step(); verify(*out, want, 2 * LD_, ce, "linear_transform with supplied keys"); same("linear_transform");
    }
    template <int S> void sets(size_t cap, int zst) {
        auto os = offsets<S>(M); static SparseDiagonal<M, S> a, b; auto ms = msgs(M); auto ks = keys(N, 0); size_t q = 0, st = 1 + os.size() / cap; env().reset(5);
        for (size_t x = 0; x < os.size(); x += st) for (int z = 0; z < 1 << (2 * S); z += zst) for (int p = 0; p < 2; p++) { q++; fill(a, os[x], z & ((1 << S) - 1), (q + p) % 5); fill(b, os[x], z >> S, (q * 3 + p + 1) % 5); input(ms[q % ms.size()], ks[q % ks.size()], q); one<S>(a, b); }
        bound("sparse forms LOGQ=%d LOGN=%d LOGDELTA=%d S=%d: %zu transforms (offset sets %zu of %zu, empty markings step %d)", L, G, LD_, S, q, (os.size() + st - 1) / st, os.size(), zst);
    }
    static std::vector<std::vector<int>> bigoffs(int S) { std::vector<std::vector<int>> r = {{0, 1, M - 1}, {M / 2, 3, M / 2 + 1}, {M - 1, M / 4, 0}, {1, 0, M / 2 - 1}, {M / 3, 2, M - 2}}; for (auto &o : r) o.resize(S); return r; }
    template <int S> void bigsets(int cases) { static SparseDiagonal<M, S> a, b; auto os = bigoffs(S); auto ms = msgs(M); auto ks = keys(N, 0); env().reset(5);
        for (int q = 0; q < cases; q++) { auto &o = os[q % os.size()]; fill(a, o, q % 3 == 1 ? 1 : q % 3 == 2 ? 1 << (S - 1) : 0, 1 + 2 * (q % 2)); fill(b, o, q % 3 == 1 ? 1 : 0, 3 - 2 * (q % 2)); input(ms[(q + 3) % ms.size()], ks[q % 2 ? ks.size() - 1 - q : q % 4 ? 4 : 1], q); one<S>(a, b); }
        bound("sparse forms LOGQ=%d LOGN=%d LOGDELTA=%d S=%d: %d transforms with chosen offsets, both key forms", L, G, LD_, S, cases); }
    void plain(int K_) { (void)K_; auto ms = msgs(M); static R_Q<L, N> pt, po; for (int off1 = 0; off1 < M; off1 += M > 16 ? M / 2 - 1 : 1) for (int q = 0; q < 5; q++) { static SparseDiagonal<M, 3> a, b; if (M < 4) break; auto os = M > 16 ? bigoffs(3) : offsets<3>(M); auto &o = os[(off1 * 7 + q * 3) % os.size()]; fill(a, o, q == 3 ? 5 : q, q); fill(b, o, q == 4 ? 2 : 0, q + 1); m = zpoly(ms[(q + off1) % 5], LD_); s.assign(N, 0); pset(pt, m); u64 h = phash(pt), h2 = hash(hbytes(&a, sizeof a), hbytes(&b, sizeof b)); for (int i = 0; i < N; i++) memset(po[i].data, 0xff, sizeof po[i].data); at("plaintext matrix_vector_product", L, G, off1, q); matrix_vector_product<L, G>(pt, a, b, 1ull << LD_, po); step(); trace(); state(hash(h, h2)); MC_CHECK(phash(pt) == h && h2 == hash(hbytes(&a, sizeof a), hbytes(&b, sizeof b)), "plaintext matrix_vector_product changed an input"); Z want = cm(a, b).mul(zslots(m, LD_)); LD t = (0.5001L * pl1(m) * 3) * N * exp2l(-2 * LD_) + 1e-12L * (1 + zmax(want)), d = zdiff(zslots(pmod(pval(po), pow2(L)), 2 * LD_), want); MC_CHECK(d <= t, "plaintext matrix_vector_product<%d,%d>: off by %Lg (bound %Lg)", L, G, d, t); } bound("plaintext sparse product LOGQ=%d LOGN=%d", L, G); }
    template <int KK> void plainK() { auto ms = msgs(M); static R_Q<L, N> pt, po; static Message<G> A[KK]; for (int q = 0; q < 12; q++) { CM c(M); for (int k = 0; k < KK; k++) for (int i = 0; i < M; i++) { A[k].r[i] = pr(q % 5, k, i, M); A[k].i[i] = pr((q / 2 + 1) % 5, k + 1, i, M); c.r[i][(i + k) % M] += A[k].r[i]; c.i[i][(i + k) % M] += A[k].i[i]; } m = zpoly(ms[q % 5], LD_); pset(pt, m); u64 h = phash(pt); at("plaintext matrix_vector_product K", L, G, KK, q); matrix_vector_product<L, G, KK>(pt, A, 1ull << LD_, po); step(); trace(); state(hash(h, q, KK)); MC_CHECK(phash(pt) == h, "plaintext matrix_vector_product changed its input"); Z want = c.mul(zslots(m, LD_)); LD t = 0.5001L * pl1(m) * KK * N * exp2l(-2 * LD_) + 1e-12L * (1 + zmax(want)), d = zdiff(zslots(pmod(pval(po), pow2(L)), 2 * LD_), want); MC_CHECK(d <= t, "plaintext matrix_vector_product<%d,%d,K=%d>: off by %Lg (bound %Lg)", L, G, KK, d, t); } bound("plaintext product with %d diagonals LOGQ=%d LOGN=%d", KK, L, G); }
#ifdef DENSE
    void dense() { auto ms = msgs(M); auto ks = keys(N, 0); static double ar[M][M], ai[M][M]; size_t q = 0; env().reset(6); int cases = 2 * M * M + 8;
        for (int c = 0; c < cases; c++) { CM A(M); for (int i = 0; i < M; i++) for (int j = 0; j < M; j++) { A.r[i][j] = ar[i][j] = c < M * M ? i * M + j == c : c < 2 * M * M ? 0 : ((i * 3 + j * 5 + c) % 9 - 4) / 4.0; A.i[i][j] = ai[i][j] = c < M * M ? 0 : c < 2 * M * M ? i * M + j == c - M * M : ((i * 7 + j + c) % 5 - 2) / 2.0; }
            q++; input(ms[c < 2 * M * M ? 3 : q % 5], ks[q % ks.size()], q); static R_Q_square<2 * L, N> rk; int sr[N]; rot<N>(sk, sr, 1); HEAAN<L, N>::swkgen(sr, sk, rk); std::vector<LD> p; for (int k = 0; k < M; k++) { Z d(M); for (int i = 0; i < M; i++) { d.r[i] = ar[i][(i + k) % M]; d.i[i] = ai[i][(i + k) % M]; } p.push_back(l1(iemb(d.r, d.i)) * exp2l(LD_)); }
            u64 h = hash(chash(*ct), chash(rk), hbytes(ar, sizeof ar), hbytes(ai, sizeof ai)); state(h); junk(*out, n++ & 1 ? 0xff : 0); at("dense linear_transform", L, G, LD_, c); linear_transform<L, G, LD_>(ar, ai, *ct, rk, *out); step(); verify(*out, A.mul(zslots(m, LD_)), 2 * LD_, grow(0, pl1(m), p, 1), "dense linear_transform"); MC_CHECK(h == hash(chash(*ct), chash(rk), hbytes(ar, sizeof ar), hbytes(ai, sizeof ai)), "dense linear_transform<%d,%d> changed an input", L, G); }
        bound("dense form LOGQ=%d LOGN=%d LOGDELTA=%d: every unit matrix (real and imaginary) and %d dense ones", L, G, LD_, 8); }
#endif
    // D matrices of S diagonals in series, grouped by 1..4
    // full: every ordered pair of offset sets with every combination of real, imaginary and complex matrices
    template <int S, int D_, int GR> void series(int cases, bool full = false) {
        static SparseDiagonal<M, S> a[D_], b[D_]; auto os = M > 16 ? bigoffs(S) : offsets<S>(M); if (full) cases = (int)(os.size() * os.size() * 3) * (tier() ? 3 : 1); auto ms = msgs(M); auto ks = keys(N, 0); env().reset(7 + D_);
        for (int q = 0; q < cases; q++) { input(ms[(q + 3) % 5], ks[(q * 3 + 1) % ks.size()], q); Z w = zslots(m, LD_); LD e = 0; std::vector<LD> p; 
            for (int d = 0; d < D_; d++) { auto &o = os[(q * 5 + d * 3) % os.size()]; fill(a[d], o, q % 3 == 1 ? (1 << d % S) : 0, (q + d) % 4); fill(b[d], o, q % 3 == 2 ? (1 << (d + 1) % S) : q % 3 == 1 ? (1 << d % S) : 0, (q + 2 * d + 1) % 4);
                if (full) { const int X = (1 << S) - 1; auto &f = os[d == 0 ? q % os.size() : d == 1 ? q / os.size() % os.size() : (q * 5 + d) % os.size()]; int k = (q / (int)(os.size() * os.size()) + q + d * (q / 5 % 3)) % 3; fill(a[d], f, k == 1 ? X : k == 2 ? 0 : q / 7 % 2, 1 + (q + d) % 3); fill(b[d], f, k == 0 ? X : 0, 1 + (q + 2 * d + 1) % 3); } }
            // worst case over the grouping: unscaled error recursion through each matrix applied
            LD lg = LD_; Z v = w; { CM acc; std::vector<LD> one; for (int d = 0; d < D_; d += GR) { LD ptl = 1; int terms = 1; Z t = v; for (int k = d; k < d + GR; k++) { LD sum = 0; for (LD x : pn(a[k], b[k])) sum += x * exp2l(-LD_); ptl *= std::max<LD>(sum, 1); terms *= S; t = cm(a[k], b[k]).mul(t); } LD ml1 = zmax(v) * N * exp2l(lg); ptl *= exp2l(LD_) * (M > 16 ? 1 : M); e = terms * 0.51L * ml1 + terms * (e + ksb(N, s)) * (ptl + N) + 1e-13L * ml1 * ptl; v = t; lg += LD_; } }
            u64 h = hash(chash(*ct), hbytes(a, sizeof a), hbytes(b, sizeof b), hbytes(sk, sizeof sk)); state(hash(h, GR)); junk(*out, n++ & 1 ? 0xff : 0); at("serial transform", L, G, D_, GR, q);
            grouped_serial_linear_transform<L, G, LD_, S, D_, GR>(a, b, *ct, sk, *out); step(); verify(*out, v, lg, e, fmt("%d matrices in series, grouped by %d,", D_, GR).c_str()); MC_CHECK(h == hash(chash(*ct), hbytes(a, sizeof a), hbytes(b, sizeof b), hbytes(sk, sizeof sk)), "grouped transform<%d,%d> changed an input", L, G);
            if (GR == 1) { junk(*out, 0xa5); serial_linear_transform<L, G, LD_, S, D_>(a, b, *ct, sk, *out); step(); verify(*out, v, lg, e, "serial_linear_transform"); } }
        bound("series of %d matrices with %d diagonals grouped by %d: LOGQ=%d LOGN=%d LOGDELTA=%d, %d cases", D_, S, GR, L, G, LD_, cases);
    }
};
#ifdef DENSE
SCEN(dense_form, 0) { { T<130, 2, 45> t; t.dense(); } { T<120, 3, 40> t; t.dense(); } { T<128, 4, 45> t; t.dense(); } { T<192, 3, 50> t; t.dense(); } { T<129, 5, 45> t; if (tier()) t.dense(); } sample("dense 4x4: each of 32 unit matrices with its own key"); }
#elif PART == 0
SCEN(sparse_a, 0) { { T<120, 2, 40> t; t.sets<1>(9, 1); t.sets<2>(9, 1); } { T<130, 3, 45> t; t.sets<1>(9, 1); t.sets<2>(12, 1); t.sets<3>(24, 5); } sample("LOGN=3, three diagonals: all 24 offset triples x empty markings, both key forms"); }
#elif PART == 1
SCEN(sparse_b, 0) { { T<128, 4, 45> t; t.sets<3>(40, 13); } { T<129, 4, 40> t; t.sets<2>(12, 3); } { T<192, 5, 50> t; t.sets<3>(6, 27); } { T<640, 3, 60> t; t.sets<2>(4, 5); } }
SCEN(plain, 0) { { T<120, 3, 40> t; t.plain(0); t.plainK<1>(); t.plainK<3>(); t.plainK<4>(); } { T<130, 4, 45> t; t.plain(0); t.plainK<3>(); t.plainK<8>(); } { T<128, 5, 40> t; t.plain(0); t.plainK<5>(); } { T<192, 2, 50> t; t.plainK<1>(); t.plainK<2>(); } }
// the largest scales a one-word encoding admits, and the smallest ones the key switching noise admits
SCEN(scales, 0) { { T<150, 3, 63> t; t.sets<3>(6, 9); t.sets<1>(4, 1); t.plain(0); t.plainK<4>(); } { T<145, 4, 62> t; t.sets<2>(4, 5); t.plain(0); t.plainK<3>(); } { T<160, 2, 61> t; t.sets<2>(2, 3); t.plainK<2>(); } { T<110, 3, 33> t; t.sets<2>(4, 5); t.plain(0); } { T<110, 3, 32> t; t.sets<2>(4, 5); t.plain(0); } { T<215, 3, 63> t; t.series<3, 2, 1>(4); t.series<2, 2, 2>(4); } bound("scales 2^32, 2^33, 2^61, 2^62 and 2^63"); }
SCEN(scales_large, 0) { { T<150, 7, 63> t; t.bigsets<3>(3); t.plain(0); } { T<150, 9, 62> t; t.bigsets<2>(2); t.plain(0); } }
#elif PART == 2
SCEN(series_a, 0) { { T<165, 3, 50> t; t.series<3, 2, 1>(12); t.series<3, 2, 2>(12); t.series<2, 2, 2>(8); t.series<2, 2, 1>(8); } { T<212, 3, 50> t; t.series<3, 3, 1>(8); t.series<3, 3, 3>(12); } sample("A2*A1*A0 applied in series and grouped by 3"); }
SCEN(series_pairs, 0) { { T<165, 3, 50> t; t.series<2, 2, 2>(0, true); t.series<2, 2, 1>(0, true); } { T<270, 3, 50> t; t.series<2, 4, 4>(0, true); } sample("all 144 ordered pairs of offset pairs, real / imaginary / complex factors"); }
#elif PART == 3
SCEN(series_b, 0) { { T<270, 3, 50> t; t.series<3, 4, 4>(10); t.series<3, 4, 2>(8); t.series<3, 4, 1>(5); t.series<2, 4, 4>(10); } { T<264, 4, 50> t; t.series<3, 4, 4>(4); t.series<3, 3, 3>(5); } }
#elif PART == 4
SCEN(series_c, 0) { { T<370, 3, 50> t; t.series<2, 6, 1>(4); t.series<2, 6, 2>(6); t.series<2, 6, 3>(6); } { T<165, 4, 50> t; t.series<3, 2, 2>(6); t.series<3, 2, 1>(4); } { T<472, 3, 50> t; t.series<2, 8, 4>(4); } }
// more matrices than groups of any size up to four: every group position and every index of a group is used
SCEN(series_long, 0) { { T<270, 3, 62> t; t.series<2, 9, 3>(4); } { T<400, 3, 62> t; t.series<1, 10, 2>(6); } { T<275, 3, 62> t; t.series<1, 12, 4>(3); } { T<340, 3, 62> t; t.series<1, 12, 3>(3); } { T<560, 3, 62> t; t.series<1, 7, 1>(4); } { T<470, 3, 62> t; t.series<1, 12, 2>(3); } { T<720, 2, 62> t; t.series<2, 10, 1>(3); } }
SCEN(series_deep, 1) { { T<270, 5, 50> t; t.series<3, 4, 4>(3); t.series<3, 4, 2>(3); } { T<370, 6, 50> t; t.series<3, 6, 3>(2); } }
#elif PART == 5
SCEN(large_sets, 0) { { T<128, 6, 45> t; t.bigsets<3>(6); t.bigsets<1>(4); } { T<120, 8, 45> t; t.bigsets<3>(5); t.bigsets<2>(4); } { T<130, 9, 45> t; t.bigsets<3>(4); t.plain(0); } { T<150, 10, 50> t; t.bigsets<3>(4); t.plain(0); } sample("N=1024: 3 diagonals at offsets 0, 1, N/2-1"); }
#elif PART == 6
SCEN(large_series, 0) { { T<215, 6, 60> t; t.series<3, 2, 1>(4); t.series<3, 2, 2>(4); } { T<215, 8, 60> t; t.series<3, 2, 2>(3); t.series<3, 2, 1>(3); } { T<330, 9, 62> t; t.series<2, 4, 2>(2); t.series<2, 4, 4>(2); } { T<285, 10, 62> t; t.series<3, 3, 3>(2); t.series<3, 2, 2>(2); t.series<3, 2, 1>(2); } }
#elif PART == 7
SCEN(large_11, 0) { T<150, 11, 50> t; t.bigsets<3>(2); t.bigsets<1>(2); }
SCEN(large_wide, 0) { { T<640, 9, 60> t; t.bigsets<2>(2); } { T<1450, 7, 60> t; t.bigsets<3>(2); t.plain(0); } }
#endif
}
MC_MAIN
