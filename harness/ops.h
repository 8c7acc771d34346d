// Operation tables shared by C23 (histories), C24 (team sizes), C25 (concurrent callers) and C26 (memory).
// Every operation owns its buffers (one set per thread), fills them, calls the library and hashes outputs AND inputs.
#pragma once
#include "hef.h"
#include "HEAAN/bootstrap.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
#include "cap.h"
#ifndef FAM
#define FAM 0
#endif
#if FAM == 9
#include "experiment/setup.h"
#endif
namespace mc {
#ifndef OPBUF
#define OPBUF static thread_local
#endif
// an operation with variants: variant 0 is the base, every other one changes a single argument in a single place
struct Op { std::string name; int nv; std::function<u64(int)> f; };
static std::vector<Op> ops;
// input registry (used by C26): every put* registers its destination as an input; mut() withdraws objects changed in place
#ifdef MC_INPUTS
struct Inp { const unsigned char *p; std::vector<unsigned char> v; }; static std::map<const void *, Inp> inputs_;
static void reg(const void *p, size_t n) { Inp &i = inputs_[p]; i.p = (const unsigned char *)p; i.v.assign(i.p, i.p + n); }
static void unreg(const void *p, size_t n) { for (auto it = inputs_.begin(); it != inputs_.end();) if (it->first >= p && it->first < (const char *)p + n) it = inputs_.erase(it); else ++it; }
#else
static void reg(const void *, size_t) {}
static void unreg(const void *, size_t) {}
#endif
template <class T> static void mut(T &x) { unreg(&x, sizeof x); }
// single-place perturbations of the inputs (C23): the pk_-th input of a call is changed at place pp_ in way pw_
#ifdef MC_PERT
static int pk_ = -1, pp_ = 0, pw_ = 0, pc_ = 0; static std::vector<int> psz_;
static bool hit(int n) { psz_.push_back(n); return pc_++ == pk_; }
#else
static const int pp_ = 0, pw_ = 0; static bool hit(int) { return false; }
#endif
template <class T> static int swapplace(const T *p, int n, int i) { for (int d = 1; d < n; d++) if (p[(i + d) % n] != p[i]) return (i + d) % n; return i; }
static P dense(int L, int N, u64 s) { P p(N); for (int i = 0; i < N; i++) { I x = 0; for (int j = 0; j * 64 < L; j++) { s = s * 6364136223846793005ull + 1442695040888963407ull; x = (x << 64) + s; } p[i] = center(x, pow2(L)); } return p; }
template <int L, int N> static void put(R_Q<L, N> &a, u64 s, int ch = 0) { P p = dense(L, N, s); if (ch == 1) p[N - 1] += 1; if (ch == 2) p[0] += 1; if (ch == 3) p[N / 2] += pow2(L - 1); if (hit(N)) { int q = swapplace(p.data(), N, pp_); if (pw_ == 0) p[pp_] += 1; if (pw_ == 1) p[pp_] += pow2(L - 1); if (pw_ == 2) std::swap(p[pp_], p[q]); if (pw_ == 3) p[pp_] += pow2(L / 2), p[q] -= pow2(L / 2); if (pw_ >= 4) for (auto &x : p) x = pw_ == 4 ? I(0) : I(-pow2(L - 1)); } pset(a, p); reg(&a, sizeof a); }
template <int L, int N> static void putc_(R_Q_square<L, N> &c, u64 s, int ch = 0) { put(c[0], s, ch == 4 ? 1 : 0); put(c[1], s + 1, ch < 4 ? ch : 0); }
template <int N> static void putk(int *k, u64 s, int ch = 0) { for (int i = 0; i < N; i++) k[i] = N >= 512 && hash(s, i, 7) % (N / 16) ? 0 : (int)(hash(s, i) % 3) - 1; if (ch) { int p = ch == 1 ? N - 1 : ch == 2 ? 0 : N / 2; k[p] = k[p] == 1 ? -1 : k[p] + 1; } if (hit(N)) { if (pw_ == 0) k[pp_] = k[pp_] == 1 ? -1 : k[pp_] + 1; if (pw_ == 1) k[pp_] = k[pp_] == -1 ? 1 : k[pp_] - 1; if (pw_ == 2) std::swap(k[pp_], k[swapplace(k, N, pp_)]); if (pw_ == 3) k[pp_] = -k[pp_]; if (pw_ >= 4) for (int i = 0; i < N; i++) k[i] = pw_ == 4 ? 0 : N >= 512 ? i % 16 == 3 : 1; } reg(k, N * sizeof(int)); }
static void putd(double *d, int n, u64 s, int ch = 0) { for (int i = 0; i < n; i++) d[i] = ((int)(hash(s, i) % 2001) - 1000) / 1000.0; if (ch == 1) d[n - 1] += 0.25; if (ch == 2) d[0] += 0.25; if (hit(n)) { int q = swapplace(d, n, pp_); if (pw_ == 0) d[pp_] += 0.25; if (pw_ == 1) d[pp_] = -d[pp_]; if (pw_ == 2) std::swap(d[pp_], d[q]); if (pw_ == 3) d[pp_] += 1e-9; if (pw_ >= 4) for (int i = 0; i < n; i++) d[i] = pw_ == 4 ? 0 : 1; } reg(d, n * 8); }
template <int M, int S> static void putm(SparseDiagonal<M, S> &a, u64 s, int ch = 0) { a.setzero(); for (int k = 0; k < S; k++) a.off[k] = (k * (M / S > 0 ? M / S : 1) + (ch == 3 ? 1 : 0)) % M; for (int k = 0; k < S; k++) for (int i = 0; i < M; i++) { double v = ((int)(hash(s, k, i) % 2001) - 1000) / 1000.0; if (ch == 1 && k == S - 1 && i == M - 1) v += 0.5; if (ch == 2 && k == 0 && i == 0) v += 0.5; a.vec[k][i] = v; a.zero[k] = false; } if (hit(M * S)) { double *d = &a.vec[0][0]; int q = swapplace(d, M * S, pp_); if (pw_ == 0) d[pp_] += 0.25; if (pw_ == 1) d[pp_] = -d[pp_]; if (pw_ == 2) std::swap(d[pp_], d[q]); if (pw_ == 3) d[pp_] += 1e-9; if (pw_ >= 4) for (int i = 0; i < M * S; i++) d[i] = pw_ == 4 ? 0 : 1; } reg(&a, sizeof a); }
static void add(const std::string &n, int nv, std::function<u64(int)> f) { ops.push_back({n, nv, f}); }
template <int L> static void zput(Z_Q<L> &z, u64 s, int ch = 0) { P p = dense(L, 2, s); if (ch == 1) p[0] += 1; if (ch == 2) p[0] += pow2(L - 1); zset<L>(z, p[0]); reg(&z, sizeof z); }
template <int A, int B> static void zpair() {
    add(fmt("resize<%d,%d>", A, B), 2, [](int v) { OPBUF Z_Q<A> x; OPBUF Z_Q<B> y; zput(x, 3, v ? 2 : 0); resize(x, y); return hash(zhash(x), zhash(y)); });
    if constexpr (A >= B) add(fmt("shift_right<%d,%d>", A, B), 2, [](int v) { OPBUF Z_Q<A> x; OPBUF Z_Q<B> y; zput(x, 3, v ? 2 : 0); shift_right(x, y); return hash(zhash(x), zhash(y)); });
    if constexpr (A <= B) add(fmt("shift_left<%d,%d>", A, B), 2, [](int v) { OPBUF Z_Q<A> x; OPBUF Z_Q<B> y; zput(x, 3, v ? 2 : 0); shift_left(x, y); return hash(zhash(x), zhash(y)); }); }
template <int L> static void zops() {
    add(fmt("Z<%d>", L), 4, [](int v) { OPBUF Z_Q<L> x, y, z, w; zput(x, 3, v == 1 ? 1 : v == 2 ? 2 : 0); zput(y, 7, v == 3); z = x; z += y; w = z; w -= x; w *= z; z *= (u64)0xffffffffffffff1full; z.negate(); w -= w; w += z; return hash(zhash(x), zhash(y), zhash(z), zhash(w)); });
    add(fmt("Zviews<%d>", L), 3, [](int v) { OPBUF Z_Q<L> x; zput(x, 3, v); double d = (double)x; int m = x.max_valid_digit(); return hash(zhash(x), hbytes(&d, 8), m, x.is_bigger_than_halfQ()); });
    if constexpr (L <= 1300) add(fmt("text<%d>", L), 2, [](int v) { OPBUF Z_Q<L> x, y; OPBUF char s[520]; zput(x, 3, v); x.to_str(s); std::string t(s); const char *c = t.c_str(); y.fr_str(c); return hash(zhash(x), zhash(y), hbytes(t.data(), t.size())); });
    zpair<L, L>(); zpair<L + 1, L>(); zpair<L, L + 1>(); zpair<L + 63, L>(); zpair<L, L + 64>(); zpair<2 * L, L>(); zpair<L, 2 * L + 1>(); }
template <int L, int N> static void pops() {
    add(fmt("poly<%d,%d>", L, N), 3, [](int v) { OPBUF R_Q<L, N> a, b, c, d; OPBUF R_Q<L + 40, N> e; put(a, 3, v == 1 ? 1 : 0); put(b, 4, v == 2 ? 3 : 0); c = a; c += b; c -= a; c *= (u64)12345678901ull; d.setzero(); d += c; resize(c, e); if constexpr (N > 2) { rot<L, N>(a, c, 3); conj<L, N>(b, d); } return hash(phash(a), phash(b), phash(c), phash(d), phash(e)); }); }
template <int K, int L> static void crtops() {
    add(fmt("CRT<%d,%d>", K, L), 3, [](int v) { static const u64 pr[] = {0xffffffffffc0001ull, 0xfffffffff840001ull, 0x1000000000980001ull, 0x1000000000b00001ull, 0xfffffffff240001ull, 97, 193, 257}; OPBUF u64 q[K], r[K]; for (int i = 0; i < K; i++) q[i] = pr[(i + (v == 2)) % 8]; reg(q, sizeof q); CRT<K, L> c(q); OPBUF Z_Q<L> x, y; zput(x, 3, v == 1 ? 2 : 0); c.icrt(x, r); u64 h = hbytes(r, sizeof r); reg(r, sizeof r); c.crt(r, y); return hash(h, zhash(x), zhash(y), hbytes(r, sizeof r)); }); }
template <int N> static void nttops() { add(fmt("NTT<%d>", N), 2, [](int v) { OPBUF u64 a[N]; NTT<N> t(0xffffffffffc0001ull); for (int i = 0; i < N; i++) a[i] = hash(i, v); t.ntt(a); u64 h = hbytes(a, sizeof a); t.intt(a); return hash(h, hbytes(a, sizeof a)); }); }
template <int L, int N> static void convops() {
    add(fmt("keyconv only<%d,%d>", L, N), 2, [](int v) { OPBUF R_Q<L, N> a, c; OPBUF int s[N]; put(a, 5, v); putk<N>(s, 4); conv<L, N>(s, a, c); return hash(phash(c), phash(a), hbytes(s, sizeof s)); });
    add(fmt("conv<%d,%d>", L, N), 5, [](int v) { OPBUF R_Q<L, N> a, b, c; put(a, 5, v == 1 ? 1 : v == 2 ? 3 : 0); put(b, 9, v == 3 ? 1 : v == 4 ? 2 : 0); conv<L, N>(a, b, c); return hash(phash(a), phash(b), phash(c)); });
    add(fmt("square<%d,%d>", L, N), 2, [](int v) { OPBUF R_Q<L, N> a, c; put(a, 7, v); conv<L, N>(a, a, c); return hash(phash(a), phash(c)); });
    add(fmt("ciphertext*=<%d,%d>", L, N), 3, [](int v) { OPBUF R_Q_square<L, N> c; OPBUF R_Q<L, N> p; putc_(c, 3, v == 1 ? 1 : 0); put(p, 8, v == 2 ? 1 : 0); mut(c); c *= p; return hash(chash(c), phash(p)); }); }
template <int L, int N> static void encops() {
    typedef R_Q_square<L, N> C; typedef R_Q_square<2 * L, N> C2;
    add(fmt("keyconv<%d,%d>", L, N), 3, [](int v) { OPBUF R_Q<L, N> a, c; OPBUF int s[N]; put(a, 5, v == 1 ? 1 : 0); putk<N>(s, 4, v == 2 ? 1 : 0); conv<L, N>(s, a, c); return hash(phash(c), phash(a)); });
    add(fmt("keygen<%d,%d>", L, N), 2, [](int v) { OPBUF int s[N]; HEAAN<L, N>::keygen(N / 2 + v, s); return hbytes(s, sizeof s); });
    add(fmt("enc<%d,%d>", L, N), 4, [](int v) { OPBUF R_Q<L, N> p; OPBUF C c; OPBUF int s[N]; put(p, 5, v == 1 ? 1 : 0); putk<N>(s, 4, v == 2 ? 1 : 0); if (v == 3) env().reset(55); HEAAN<L, N>::enc(p, s, c); return hash(chash(c), phash(p)); });
    add(fmt("dec<%d,%d>", L, N), 4, [](int v) { OPBUF R_Q<L, N> p; OPBUF C c; OPBUF int s[N]; putc_(c, 5, v == 1 ? 1 : v == 3 ? 4 : 0); putk<N>(s, 4, v == 2 ? 1 : 0); HEAAN<L, N>::dec(c, s, p); return hash(chash(c), phash(p)); });
    add(fmt("swkgen<%d,%d>", L, N), 4, [](int v) { OPBUF C2 k; OPBUF int s[N], t[N]; putk<N>(s, 4, v == 1 ? 1 : 0); putk<N>(t, 5, v == 2 ? 1 : 0); if (v == 3) env().reset(56); HEAAN<L, N>::swkgen(s, t, k); return chash(k); });
    add(fmt("ks<%d,%d>", L, N), 4, [](int v) { OPBUF C2 k; OPBUF C c; putc_(k, 9, v == 1 ? 1 : v == 2 ? 4 : 0); putc_(c, 4, v == 3 ? 1 : 0); mut(c); HEAAN<L, N>::ks(k, c); return hash(chash(k), chash(c)); });
    add(fmt("Mul<%d,%d>", L, N), 5, [](int v) { OPBUF C2 k; OPBUF C a, b, c; putc_(k, 9, v == 1 ? 1 : 0); putc_(a, 4, v == 2 ? 1 : v == 3 ? 4 : 0); putc_(b, 14, v == 4 ? 1 : 0); Mul<L, N>(a, b, k, c); return hash(chash(k), chash(a), chash(b), chash(c)); });
    add(fmt("RS<%d,%d>", L, N), 2, [](int v) { OPBUF C a; OPBUF R_Q_square<L - 20, N> b; putc_(a, 3, v); RS<L, L - 20, N>(a, b); return hash(chash(a), chash(b)); });
    add(fmt("mod_raise<%d,%d>", L, N), 2, [](int v) { OPBUF C a; OPBUF C2 b; putc_(a, 3, v); mod_raise<L, 2 * L, N>(a, b); return hash(chash(a), chash(b)); });
    add(fmt("rot_ct<%d,%d>", L, N), 4, [](int v) { OPBUF C2 k; OPBUF C a, b; putc_(k, 9, v == 1 ? 1 : 0); putc_(a, 3, v == 2 ? 1 : 0); rot_ct<L, N>(a, v == 3 ? 2 : 1, k, b); return hash(chash(k), chash(a), chash(b)); });
    add(fmt("conj<%d,%d>", L, N), 3, [](int v) { OPBUF C2 k; OPBUF C a, b; putc_(k, 9, v == 1 ? 1 : 0); putc_(a, 3, v == 2 ? 1 : 0); conj<L, N>(a, k, b); return hash(chash(k), chash(a), chash(b)); });
    add(fmt("ct+-*<%d,%d>", L, N), 3, [](int v) { OPBUF C a, b; putc_(a, 3, v == 1 ? 1 : 0); putc_(b, 4); mut(a); a += b; a *= (u64)(77 + v); a -= b; return hash(chash(a), chash(b)); }); }
template <int G> static void msgops() { constexpr int M = 1 << (G - 1);
    add(fmt("messages<%d>", G), 2, [](int v) { OPBUF Message<G> z, w, y; putd(z.r, M, 3, v); putd(z.i, M, 4); putd(w.r, M, 5); putd(w.i, M, 6); mul(z, w, y); add(y, w, y); sub(y, z, y);  double n[3] = {norm(y), sup_norm(y), square_sum(w)}; return hash(dhash(y.r, M), dhash(y.i, M), dhash(n, 3), dhash(z.r, M), dhash(w.i, M)); });
    add(fmt("message transform<%d>", G), 2, [](int v) { OPBUF SparseDiagonal<M, 3> a, b; OPBUF Message<G> z, y, A[2]; putm(a, 1, v); putm(b, 2); putd(z.r, M, 30); putd(z.i, M, 31); for (int k = 0; k < 2; k++) { putd(A[k].r, M, k, v); putd(A[k].i, M, k + 9); } matrix_vector_product<G, 3>(z, a, b, y); u64 h = hash(dhash(y.r, M), dhash(y.i, M)); matrix_vector_product<G, 2>(z, A, y); return hash(h, dhash(y.r, M), dhash(y.i, M)); });
    add(fmt("plain vectors<%d>", G), 2, [](int v) { constexpr int N = 2 * M; OPBUF SimplePlaintext<G> p, q, r; putd(&p[0], N, 3, v); putd(&q[0], N, 4); add(p, q, r); u64 h = dhash(&r[0], N); sub(p, q, r); double n[2] = {norm(r), square_sum(p)}; return hash(h, dhash(&r[0], N), dhash(n, 2)); }); }
template <int G> static void fops() {
    constexpr int N = 1 << G, M = N / 2;
    add(fmt("fft<%d>", G), 3, [](int v) { OPBUF double m[N], r[M], i[M]; putd(m, N, 3, v); fft<G>(m, r, i); return hash(dhash(m, N), dhash(r, M), dhash(i, M)); });
    add(fmt("ifft<%d>", G), 4, [](int v) { OPBUF double m[N], r[M], i[M]; putd(r, M, 3, v == 3 ? 0 : v); putd(i, M, 4, v == 3 ? 1 : 0); ifft<G>(r, i, m); return hash(dhash(m, N), dhash(r, M), dhash(i, M)); });
    add(fmt("fftNR<%d>", G), 2, [](int v) { OPBUF double m[N], r[M], i[M]; putd(m, N, 3, v); fftNR<G>(m, r, i); return hash(dhash(m, N), dhash(r, M), dhash(i, M)); });
    add(fmt("ifftNR<%d>", G), 2, [](int v) { OPBUF double m[N], r[M], i[M]; putd(r, M, 3, v); putd(i, M, 4); ifftNR<G>(r, i, m); return hash(dhash(m, N), dhash(r, M), dhash(i, M)); });
    add(fmt("dft<%d>", G), 2, [](int v) { OPBUF double m[N], r[M], i[M]; putd(m, N, 3, v); dft<N>(m, r, i); mut(m); idft<N>(r, i, m); return hash(dhash(m, N), dhash(r, M), dhash(i, M)); });
    add(fmt("splitU0NR<%d>", G), 1, [](int) { OPBUF SparseDiagonal<M, 3> a[G - 1], b[G - 1]; splitU0NR<G>(a, b); u64 h = 0; for (int k = 0; k < G - 1; k++) for (int s = 0; s < 3; s++) h = hash(h, dhash(a[k].vec[s], M), dhash(b[k].vec[s], M), a[k].off[s]); return h; });
    add(fmt("simple<%d>", G), 3, [](int v) { OPBUF Message<G> z, w; OPBUF SimplePlaintext<G> p, q, r; putd(z.r, M, 3, v == 1 ? 1 : 0); putd(z.i, M, 4); encode(z, v == 2 ? 1ull << 31 : 1ull << 30, p); rotate(p, q, 2); conv(p, q, r); decode(r, 1ull << 60, w); return hash(dhash(w.r, M), dhash(w.i, M)); });
    msgops<G>();
    add(fmt("sparse<%d>", G), 4, [](int v) { OPBUF SparseDiagonal<M, 3> a, b, c, d; OPBUF SparseDiagonal<M, 9> x, y; putm(a, 1, v == 1 || v == 3 ? v : 0); putm(b, 2, v == 3 ? 3 : 0); putm(c, 3, v == 2 ? 1 : 0); putm(d, 4); MatMul(a, b, c, d, x, y); u64 hin = 0; for (int s = 0; s < 3; s++) hin = hash(hin, dhash(a.vec[s], M), dhash(b.vec[s], M), dhash(c.vec[s], M), dhash(d.vec[s], M)); mut(a); a.transpose(); a.negate(); u64 h = hin; for (int s = 0; s < 9; s++) h = hash(h, dhash(x.vec[s], M), dhash(y.vec[s], M), x.off[s]); return hash(h, dhash(a.vec[2], M)); }); }
template <int L, int G> static void codeops() {
    constexpr int N = 1 << G, M = N / 2;
    add(fmt("encode<%d,%d>", L, G), 5, [](int v) { OPBUF double r[M], i[M]; OPBUF R_Q<L, N> p; putd(r, M, 3, v == 1 ? 1 : v == 2 ? 2 : 0); putd(i, M, 4, v == 3 ? 1 : 0); encode<L, G>(r, i, v == 4 ? 1ull << 41 : 1ull << 40, p); return hash(phash(p), dhash(r, M), dhash(i, M)); });
    add(fmt("decode<%d,%d>", L, G), 3, [](int v) { OPBUF double r[M], i[M]; OPBUF R_Q<L, N> p; put(p, 3, v == 1 ? 3 : 0); decode<L, G>(p, v == 2 ? 1ull << 41 : 1ull << 40, r, i); return hash(phash(p), dhash(r, M), dhash(i, M)); });
    add(fmt("decode_log<%d,%d>", L, G), 3, [](int v) { OPBUF double r[M], i[M]; OPBUF R_Q<L, N> p; put(p, 3, v == 1 ? 3 : 0); decode_log<L, G>(p, v == 2 ? 39 : 40, r, i); return hash(phash(p), dhash(r, M), dhash(i, M)); });
    add(fmt("plain_transform<%d,%d>", L, G), 4, [](int v) { OPBUF SparseDiagonal<M, 3> a, b; OPBUF R_Q<L, N> p, q; putm(a, 1, v == 1 || v == 3 ? v : 0); putm(b, 2, v == 3 ? 3 : 0); put(p, 5, v == 2 ? 1 : 0); matrix_vector_product<L, G>(p, a, b, 1ull << 30, q); return hash(phash(p), phash(q)); }); }
template <int L, int G> static void ltops() {
    constexpr int N = 1 << G, M = N / 2;
    add(fmt("linear_transform<%d,%d>", L, G), 7, [](int v) { OPBUF SparseDiagonal<M, 3> a, b; OPBUF R_Q_square<L, N> c, o; OPBUF int s[N]; putm(a, 1, v == 1 || v == 3 ? v : 0); putm(b, 2, v == 2 ? 2 : v == 3 ? 3 : 0); putc_(c, 5, v == 4 ? 1 : 0); putk<N>(s, 6, v == 5 ? 1 : 0); if (v == 6) env().reset(57); linear_transform<L, G, 30, 3>(a, b, c, s, o); return hash(chash(c), chash(o)); });
    add(fmt("linear_transform_keys<%d,%d>", L, G), 5, [](int v) { OPBUF SparseDiagonal<M, 3> a, b; OPBUF R_Q_square<L, N> c, o; OPBUF R_Q_square<2 * L, N> k[3]; const R_Q_square<2 * L, N> *pk[3] = {&k[0], &k[1], &k[2]}; putm(a, 1, v == 1 || v == 3 ? v : 0); putm(b, 2, v == 3 ? 3 : 0); putc_(c, 5, v == 2 ? 1 : 0); for (int j = 0; j < 3; j++) putc_(k[j], 6 + j, v == 4 && j == 2 ? 1 : 0); linear_transform<L, G, 30, 3>(a, b, c, pk, o); return hash(chash(c), chash(o)); });
    add(fmt("grouped<%d,%d>", L, G), 5, [](int v) { OPBUF SparseDiagonal<M, 3> a[2], b[2]; OPBUF R_Q_square<L, N> c, o; OPBUF int s[N]; for (int j = 0; j < 2; j++) { putm(a[j], 1 + j, v == 1 && j ? 1 : v == 3 ? 3 : 0); putm(b[j], 5 + j, v == 3 ? 3 : 0); } putc_(c, 5, v == 2 ? 1 : 0); putk<N>(s, 6, v == 4 ? 1 : 0); grouped_serial_linear_transform<L, G, 25, 3, 2, 2>(a, b, c, s, o); return hash(chash(c), chash(o)); }); }
template <int L, int G, int D, int GR> static void bootops() {
    constexpr int N = 1 << G;
    add(fmt("CoeffToSlot<%d,%d,%d,%d>", L, G, D, GR), 4, [](int v) { OPBUF R_Q_square<L, N> c, o[2]; OPBUF int s[N]; putc_(c, 5, v == 1 ? 1 : 0); putk<N>(s, 6, v == 2 ? 1 : 0); if (v == 3) env().reset(58); CoeffToSlot<L, G, D, GR>(c, s, o); return hash(chash(c), chash(o[0]), chash(o[1])); });
    add(fmt("SlotToCoeff<%d,%d,%d,%d>", L, G, D, GR), 5, [](int v) { OPBUF R_Q_square<L, N> c, d, o; OPBUF int s[N]; putc_(c, 5, v == 1 ? 1 : 0); putc_(d, 9, v == 2 ? 1 : 0); putk<N>(s, 6, v == 3 ? 1 : 0); if (v == 4) env().reset(58); SlotToCoeff<L, G, D, GR>(c, d, s, o); return hash(chash(c), chash(d), chash(o)); }); }
template <int L, int N, int D> static void modops() {
    add(fmt("EvalMod<%d,%d,%d>", L, N, D), 4, [](int v) { OPBUF R_Q_square<L, N> c; OPBUF R_Q_square<L - 12 * D, N> o; OPBUF int s[N]; putc_(c, 5, v == 1 ? 1 : 0); putk<N>(s, 6, v == 2 ? 1 : 0); if (v == 3) env().reset(58); EvalMod<L, N, D, 24>(c, s, o); return hash(chash(c), chash(o)); }); }
template <int L, int N, int D> static void polyops() {
    add(fmt("eval_poly_deg3<%d,%d,%d>", L, N, D), 5, [](int v) { OPBUF R_Q_square<L, N> c; OPBUF R_Q_square<2 * L, N> e1; OPBUF R_Q_square<2 * (L - D), N> e2; OPBUF R_Q_square<L - 2 * D, N> o; OPBUF double u[4]; putd(u, 4, 3, v == 1 ? 1 : v == 2 ? 2 : 0); putc_(c, 5, v == 3 ? 1 : 0); putc_(e1, 6, v == 4 ? 1 : 0); putc_(e2, 7); eval_poly_deg3<L, N, D>(u, c, e1, e2, o); return hash(chash(c), chash(o), dhash(u, 4)); });
    add(fmt("eval_poly_deg7<%d,%d,%d>", L, N, D), 3, [](int v) { OPBUF R_Q_square<L, N> c; OPBUF R_Q_square<2 * L, N> e1; OPBUF R_Q_square<2 * (L - D), N> e2; OPBUF R_Q_square<2 * (L - 2 * D), N> e3; OPBUF R_Q_square<L - 3 * D, N> o; OPBUF double u[8]; putd(u, 8, 3, v == 1 ? 1 : 0); putc_(c, 5, v == 2 ? 1 : 0); putc_(e1, 6); putc_(e2, 7); putc_(e3, 8); eval_poly_deg7<L, N, D>(u, c, e1, e2, e3, o); return hash(chash(c), chash(o)); });
    add(fmt("convert_frc_tou%d", N), 2, [](int v) { OPBUF double c[32], u[32]; putd(c, 32, 4, v); convert_frc_tou(c, u, 32); return hash(dhash(c, 32), dhash(u, 32)); }); }
#if FAM == 0
static void defs() {
    convops<60, 8>(); convops<60, 16>(); convops<120, 8>(); convops<121, 8>(); convops<640, 8>(); convops<1500, 4>(); encops<60, 8>();
    add("NTT<8>", 4, [](int v) { static const u64 qs[3] = {97, 0xffffffffffc0001ull, 17}; OPBUF u64 a[8]; alignas(64) OPBUF char st[sizeof(NTT<8>)]; NTT<8> *t = new (st) NTT<8>(qs[v % 3]); for (int i = 0; i < 8; i++) a[i] = hash(i, v == 3) % qs[v % 3]; t->ntt(a); u64 h = hbytes(a, sizeof a); t->intt(a); return hash(h, hbytes(a, sizeof a)); });
    add("NTT<16>", 2, [](int v) { OPBUF u64 a[16]; NTT<16> t(v ? 193 : 97); for (int i = 0; i < 16; i++) a[i] = i * 5; t.ntt(a); return hbytes(a, sizeof a); });
    add("CRT<3,150>", 4, [](int v) { OPBUF u64 q[3] = {0xffffffffffc0001ull, 0xfffffffff840001ull, 97}; q[2] = v == 1 ? 193 : 97; q[0] = v == 2 ? 0x1000000000980001ull : 0xffffffffffc0001ull; CRT<3, 150> c(q); OPBUF Z_Q<150> z, y; zset<150>(z, pow2(140) + 5 + (v == 3)); OPBUF u64 r[3]; c.icrt(z, r); c.crt(r, y); return hash(hbytes(r, sizeof r), hbytes(y.data, sizeof y.data)); });
    add("text", 3, [](int v) { OPBUF Z_Q<300> z, y; zset<300>(z, pow2(250) * 3 + (v == 1)); OPBUF char s[640]; z.to_str(s); y.fr_str(s); Z_Q<100> w; shift_right<300, 100>(z, w); double d = (double)z; if (v == 2) d += 1; return hash(hbytes(s, strlen(s)), hbytes(y.data, sizeof y.data), hbytes(w.data, sizeof w.data), hbytes(&d, 8)); });
    add("small conv", 3, [](int v) { OPBUF int a[8], b[8], c[8]; putk<8>(a, 3, v == 1 ? 1 : 0); putk<8>(b, 4, v == 2 ? 1 : 0); conv<8>(a, b, c); return hbytes(c, sizeof c); });
}
#elif FAM == 1
static void defs() { encops<60, 8>(); encops<100, 8>(); encops<64, 4>(); encops<128, 16>(); convops<120, 8>(); codeops<100, 3>(); }
#elif FAM == 2
static void defs() { fops<3>(); fops<4>(); fops<2>(); codeops<100, 3>(); codeops<60, 4>(); codeops<640, 3>(); ltops<100, 3>(); ltops<120, 4>(); convops<100, 8>(); }
#elif FAM == 3
static void defs() { bootops<128, 3, 40, 2>(); bootops<128, 3, 40, 1>(); bootops<110, 2, 40, 1>();
#ifndef LIGHT
    bootops<150, 4, 40, 3>(); modops<600, 4, 40>(); polyops<150, 4, 30>();
#endif
    polyops<160, 8, 40>(); ltops<128, 3>(); codeops<128, 3>(); convops<128, 8>(); fops<3>(); }
#elif FAM == 5
static void defs() { zops<1>(); zops<2>(); zops<31>(); zops<32>(); zops<63>(); zops<64>(); zops<65>(); zops<127>(); zops<128>(); zops<129>(); zops<192>(); zops<193>(); zops<300>(); zops<640>(); zops<1300>(); zops<1450>(); zops<3051>(); zpair<3051, 1>(); zpair<1, 3051>(); zpair<64, 2>(); zpair<63, 64>(); zpair<129, 65>(); zpair<192, 128>(); zpair<65, 192>();
    pops<1, 2>(); pops<2, 4>(); pops<60, 4>(); pops<64, 4>(); pops<128, 8>(); pops<600, 4>(); pops<24, 16>(); pops<88, 32>(); }
#elif FAM == 6
static void defs() { convops<1, 2>(); convops<2, 4>(); convops<21, 2>(); convops<22, 4>(); convops<31, 8>(); convops<52, 4>(); convops<64, 2>(); convops<65, 16>(); convops<82, 4>(); convops<150, 32>(); convops<256, 4>(); convops<720, 16>(); convops<1450, 4>(); convops<2900, 4>(); convops<3051, 2>(); convops<60, 64>(); convops<60, 256>();
    crtops<1, 20>(); crtops<1, 64>(); crtops<2, 60>(); crtops<3, 150>(); crtops<3, 1>(); crtops<8, 256>(); crtops<5, 640>(); nttops<2>(); nttops<4>(); nttops<8>(); nttops<16>(); nttops<64>(); nttops<1024>(); nttops<4096>(); }
#elif FAM == 7
static void defs() { encops<21, 4>(); encops<32, 2>(); encops<64, 8>(); encops<65, 4>(); encops<128, 4>(); encops<725, 4>(); encops<60, 64>(); codeops<64, 2>(); codeops<65, 3>(); codeops<128, 5>(); codeops<50, 6>(); codeops<1450, 3>(); fops<5>(); fops<6>(); }
#elif FAM == 8
static void defs() { ltops<64, 3>(); ltops<65, 4>(); ltops<128, 5>(); ltops<200, 3>(); bootops<192, 3, 40, 2>(); bootops<193, 5, 30, 2>(); bootops<128, 5, 40, 4>(); bootops<128, 6, 30, 1>(); modops<640, 8, 40>(); polyops<192, 4, 40>(); polyops<160, 16, 50>(); }
#elif FAM == 9
template <int G> static void helperops() { constexpr int M = 1 << (G - 1);
    add(fmt("helpers<%d>", G), 1, [](int) { OPBUF Message<G> z, e, w, A[3]; OPBUF SparseDiagonal<M, 3> a[G - 1], b[G - 1]; set_test_message(z); set_evalmod_message(e); set_test_rounded_message(w, 1ull << 30); set_test_matrix<G, 3>(A); set_test_U0_matrix<G>(a, b); u64 h = hash(dhash(z.r, M), dhash(z.i, M), dhash(e.r, M), dhash(e.i, M), dhash(w.r, M), dhash(w.i, M)); for (int k = 0; k < 3; k++) h = hash(h, dhash(A[k].r, M), dhash(A[k].i, M)); for (int k = 0; k < G - 1; k++) for (int s = 0; s < 3; s++) h = hash(h, dhash(a[k].vec[s], M), dhash(b[k].vec[s], M), a[k].off[s]); return h; });
    add(fmt("dense product<%d>", G), 2, [](int v) { OPBUF Message<G> A[4], z, y; for (int k = 0; k < 4; k++) { putd(A[k].r, M, k, v); putd(A[k].i, M, k + 9); } putd(z.r, M, 30); putd(z.i, M, 31); matrix_vector_product<G, 4>(z, A, y); return hash(dhash(y.r, M), dhash(y.i, M)); });
    add(fmt("sparse product<%d>", G), 2, [](int v) { OPBUF SparseDiagonal<M, 3> a, b; OPBUF Message<G> z, y; putm(a, 1, v); putm(b, 2); putd(z.r, M, 30); putd(z.i, M, 31); matrix_vector_product<G, 3>(z, a, b, y); return hash(dhash(y.r, M), dhash(y.i, M)); });
    add(fmt("RemoveClutter<%d>", G), 2, [](int v) { OPBUF SparseDiagonal<M, 3> a; OPBUF SparseDiagonal<M, 2> b; putm(a, 1, v); a.zero[2] = true; for (int i = 0; i < M; i++) a.vec[2][i] = 0; reg(&a, sizeof a); RemoveClutter(a, b); u64 h = 0; for (int s = 0; s < 2; s++) h = hash(h, dhash(b.vec[s], M), b.off[s], b.zero[s]); return h; });
    add(fmt("aggregate<%d>", G), 2, [](int v) { OPBUF Message<G> y; OPBUF Message<G - 1> lo, hi; putd(lo.r, M / 2, 1, v); putd(lo.i, M / 2, 2); putd(hi.r, M / 2, 3); putd(hi.i, M / 2, 4, v); aggregate(lo, hi, y); return hash(dhash(y.r, M), dhash(y.i, M)); }); }
static void defs() { helperops<3>(); helperops<4>(); helperops<5>(); }
#elif FAM == 12   // everything that prints (C26 only: the standard output is redirected)
template <int L> static void printz() { add(fmt("print<%d>", L), 5, [](int v) { OPBUF Z_Q<L> x; zput(x, 3, v & 1); if (v == 2) for (auto &w : x.data) w = 0; if (v >= 2) { P p = {v == 2 ? I(-1) : v == 3 ? I(pow2(L - 1)) : I(0)}; zset<L>(x, p[0]); reg(&x, sizeof x); } std::string t = capture([&] { x.print_unsigned(); }); return hash(hbytes(t.data(), t.size()), zhash(x)); }); }
template <int L, int N> static void printp() { add(fmt("print poly<%d,%d>", L, N), 3, [](int v) { OPBUF R_Q<L, N> a; OPBUF R_Q_square<L, N> c; put(a, 3, v); putc_(c, 4, v); for (auto &w : a[N / 2].data) w = 0; zset<L>(a[N / 2], I(-1)); zset<L>(c[1][0], I(-1)); mut(a); mut(c); reg(&a, sizeof a); reg(&c, sizeof c); std::string t = capture([&] { a.print_unsigned(); a.print_signed(); c.print(); }); return hash(hbytes(t.data(), t.size()), phash(a), chash(c)); }); }
template <int G> static void printm() { constexpr int M = 1 << (G - 1), N = 2 * M; add(fmt("print messages<%d>", G), 2, [](int v) { OPBUF Message<G> z; OPBUF SimplePlaintext<G> p; OPBUF SparseDiagonal<M, 3> a; OPBUF double r[M][M], i[M][M]; putd(z.r, M, 3, v); putd(z.i, M, 4); putd(&p[0], N, 5, v); putm(a, 6, v); putd(&r[0][0], M * M, 7, v); putd(&i[0][0], M * M, 8); if (v) z.r[0] = 1e300, p[0] = -1e-300; reg(&z, sizeof z); reg(&p, sizeof p); std::string t = capture([&] { print("z", z); print("p", p); a.print("a"); print_max(a); print<M>(r, i); }); return hash(hbytes(t.data(), t.size()), dhash(z.r, M), dhash(&p[0], N)); }); }
static void defs() { printz<1>(); printz<3>(); printz<31>(); printz<63>(); printz<64>(); printz<65>(); printz<93>(); printz<127>(); printz<128>(); printz<129>(); printz<192>(); printz<193>(); printz<256>(); printz<299>(); printz<320>(); printz<400>(); printz<512>(); printz<600>(); printz<640>(); printz<720>(); printz<1024>(); printz<1299>(); printz<1300>(); printp<1, 2>(); printp<60, 4>(); printp<64, 8>(); printp<65, 4>(); printp<128, 16>(); printp<640, 4>(); printp<1300, 2>(); printm<2>(); printm<3>(); printm<4>(); printm<5>(); printm<6>(); }
#elif FAM == 10   // larger rings: loops that are only parallel from some size on, more iterations than threads
static void defs() { convops<60, 64>(); encops<60, 64>(); codeops<60, 6>(); convops<60, 256>(); encops<60, 256>(); convops<60, 1024>(); fops<9>(); ltops<60, 8>(); }
#elif FAM == 11
static void defs() { convops<60, 4096>(); encops<60, 2048>(); codeops<60, 12>(); nttops<4096>(); encops<60, 512>(); convops<600, 512>(); msgops<11>(); msgops<13>(); }
#else
static void defs() { modops<600, 4, 40>(); bootops<150, 4, 40, 3>(); polyops<150, 4, 30>(); }
#endif
}
