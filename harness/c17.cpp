// C17: sparse-diagonal and message algebra against dense matrices, exact on small integers.
#include "mc.h"
#include "HEAAN/linear_transform.h"
#include "impl/message.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
typedef std::vector<std::vector<double>> D;
static D dz(int n) { return D(n, std::vector<double>(n, 0)); }
template <int N, int S> D dense(const SparseDiagonal<N, S> &a) { D d = dz(N); for (int s = 0; s < S; s++) for (int i = 0; i < N; i++) d[i][(i + a.off[s]) % N] += a.vec[s][i]; return d; }
static D dmul(const D &a, const D &b) { int n = a.size(); D c = dz(n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) if (a[i][k] != 0) for (int j = 0; j < n; j++) c[i][j] += a[i][k] * b[k][j]; return c; }
static D dadd(const D &a, const D &b, double f) { D c = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) c[i][j] += f * b[i][j]; return c; }
static std::string DS(const D &a) { std::string s; for (auto &r : a) { s += "["; for (double x : r) s += fmt("%g ", x); s += "]"; } return s.substr(0, 600); }
template <int N, int S> u64 shash(const SparseDiagonal<N, S> &a) { u64 h = N * 100 + S; for (int s = 0; s < S; s++) { h = hbytes(a.vec[s], sizeof a.vec[s], h); h = hash(h, a.off[s], a.zero[s]); } return h; }
// value pattern p on diagonal s row i; pattern 0 is all zeros
static double pv(int p, int s, int i) { return p == 0 ? 0 : p == 1 ? i + 1 + 10 * s : p == 2 ? (i % 2 ? -1 : 1) * (s + 2) : p == 3 ? (i == 0) * (s + 1) : -((i * i + 3 * s) % 7) + 2; }
template <int N, int S> void fill(SparseDiagonal<N, S> &a, const std::vector<int> &off, int zero, int pat) { memset((void *)&a, 0x77, sizeof a); a.setzero(); for (int s = 0; s < S; s++) a.off[s] = off[s]; for (int s = 0; s < S; s++) if (!(zero >> s & 1)) for (int i = 0; i < N; i++) a.set_element(i, (i + off[s]) % N, pv(pat, s, i)); }
template <int S> std::vector<std::vector<int>> offsets(int N) { std::vector<std::vector<int>> r; std::vector<int> o(S); std::function<void(int)> rec = [&](int k) { if (k == S) { r.push_back(o); return; } for (int x = 0; x < N; x++) { bool u = false; for (int j = 0; j < k; j++) u |= o[j] == x; if (!u) { o[k] = x; rec(k + 1); } } }; rec(0); return r; }
template <int N, int S> void inv(const SparseDiagonal<N, S> &a, const char *how) { for (int s = 0; s < S; s++) { MC_CHECK(a.off[s] >= 0 && a.off[s] < N, "%s<%d,%d> leaves offset %d", how, N, S, a.off[s]); if (a.zero[s]) for (int i = 0; i < N; i++) MC_CHECK(a.vec[s][i] == 0, "%s<%d,%d>: diagonal %d (offset %d) holds %g but is marked empty", how, N, S, s, a.off[s], a.vec[s][i]); } }
template <int N, int S> void same(const SparseDiagonal<N, S> &a, const D &w, const char *how, bool elem = true) { inv(a, how); D d = dense(a); MC_CHECK(d == w, "%s<%d,%d> gives %s want %s (offsets %d..)", how, N, S, DS(d).c_str(), DS(w).c_str(), a.off[0]); if (elem) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) MC_CHECK(a.get_element(i, j) == w[i][j], "%s<%d,%d>: get_element(%d,%d) = %g want %g", how, N, S, i, j, a.get_element(i, j), w[i][j]); }
// vectors through every matrix-vector product
template <int LOGN, int S> void matvec(const SparseDiagonal<(1 << (LOGN - 1)), S> &ar, const SparseDiagonal<(1 << (LOGN - 1)), S> &ai, const char *how, int every = 1) {
    const int N = 1 << (LOGN - 1); auto a = ar, b = ai; D dr = dense(a), di = dense(b); Message<LOGN> z, w;
    for (int q = 0; q < 2 * N + 2; q += q < 2 * N - every ? every : 1) { for (int i = 0; i < N; i++) { z.r[i] = q < N ? i == q : q < 2 * N ? 0 : (i * 5 + q) % 7 - 3; z.i[i] = q < N ? 0 : q < 2 * N ? i == q - N : (i * 3 + q) % 5 - 2; w.r[i] = w.i[i] = 1e99; } Message<LOGN> z0(z);
        std::vector<double> er(N, 0), ei(N, 0); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { er[i] += dr[i][j] * z.r[j] - di[i][j] * z.i[j]; ei[i] += dr[i][j] * z.i[j] + di[i][j] * z.r[j]; }
        at("matrix_vector_product", LOGN, S, q); matrix_vector_product<LOGN, S>(z, a, b, w); step(); trace(); for (int i = 0; i < N; i++) MC_CHECK(w.r[i] == er[i] && w.i[i] == ei[i] && z.r[i] == z0.r[i] && z.i[i] == z0.i[i], "message matrix_vector_product<%d,%d> after %s: slot %d is (%g,%g) want (%g,%g)", LOGN, S, how, i, w.r[i], w.i[i], er[i], ei[i]);
        if constexpr (S == 3) { double yr[N], yi[N]; matrix_vector_product<LOGN>(z.r, z.i, a, b, yr, yi); step(); for (int i = 0; i < N; i++) MC_CHECK(yr[i] == er[i] && yi[i] == ei[i], "matrix_vector_product<%d> after %s: slot %d is (%g,%g) want (%g,%g)", LOGN, how, i, yr[i], yi[i], er[i], ei[i]); } }
    MC_CHECK(shash(a) == shash(ar) && shash(b) == shash(ai), "matrix_vector_product<%d,%d> changed a matrix", LOGN, S);
}
template <int LOGN, int S> void single(int maxsets) {
    const int N = 1 << (LOGN - 1); auto os = offsets<S>(N); size_t st = 1 + os.size() / maxsets; SparseDiagonal<N, S> a, b, c, t;
    for (size_t x = 0; x < os.size(); x += st) for (int z = 0; z < 1 << S; z++) for (int p = 1; p < 5; p++) {
        auto &o = os[x]; at("single", LOGN, S, x, z, p); fill(a, o, z, p); D da = dense(a); state(shash(a)); same(a, da, "set_element"); for (int s = 0; s < S; s++) MC_CHECK(a.zero[s] == bool(z >> s & 1), "set_element<%d,%d>: empty marking of diagonal %d is %d", N, S, s, (int)a.zero[s]);
        t = a; step(); MC_CHECK(shash(t) == shash(a), "assignment<%d,%d> is not a copy", N, S);
        t.negate(); step(); same(t, dadd(dz(N), da, -1), "negate"); t = a; t *= -2.5; step(); same(t, dadd(dz(N), da, -2.5), "scaling"); t = a; t *= 0; step(); same(t, dz(N), "scaling by zero");
        t = a; t.transpose(); step(); D w = dz(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w[j][i] = da[i][j]; same(t, w, "transpose"); { SparseDiagonal<N, S> u; u = t; u.transpose(); step(); same(u, da, "double transpose"); for (int s = 0; s < S; s++) MC_CHECK(u.zero[s] == a.zero[s], "transpose<%d,%d> changed an empty marking", N, S); }
        for (int z2 = 0; z2 < 1 << S; z2++) for (int p2 : {1, 3, 4}) { fill(b, o, z2, p2); D db = dense(b); u64 hb = shash(b); trace(); state(hash(shash(a), hb)); t = a; t += b; step(); same(t, dadd(da, db, 1), "addition"); if (p2 == 1) matvec<LOGN, S>(t, a, "addition"); t = a; t -= b; step(); same(t, dadd(da, db, -1), "subtraction"); MC_CHECK(shash(b) == hb, "addition/subtraction<%d,%d> changed the right operand", N, S); if (z2 == 0 && p2 == 4) { t += t; step(); same(t, dadd(dadd(da, db, -1), dadd(da, db, -1), 1), "self addition"); t -= t; step(); same(t, dz(N), "self subtraction"); } if (p2 == 3) matvec<LOGN, S>(a, b, "construction"); }
    }
    bound("N=%d S=%d: %zu offset sets x all empty markings x 4 patterns: element access, += -= *= negate transpose, matrix-vector", N, S, (os.size() + st - 1) / st);
}
template <int N, int S1, int S2> void products(size_t cap) {
    auto oa = offsets<S1>(N), ob = offsets<S2>(N); SparseDiagonal<N, S1> ar, ai; SparseDiagonal<N, S2> br, bi; SparseDiagonal<N, S1 * S2> cr, ci; size_t st = 1 + oa.size() * ob.size() / cap, q = 0;
    for (size_t k = 0; k < oa.size() * ob.size(); k += st) { auto &o = oa[k % oa.size()], &u = ob[(k / oa.size() + k) % ob.size()];
        for (int z = 0; z < 1 << (S1 + S2); z++) { q++; int z1 = z & ((1 << S1) - 1), z2 = z >> S1; int y1 = (z1 * 5 + q) & ((1 << S1) - 1), y2 = (z2 * 3 + q / 2) & ((1 << S2) - 1); if (q % 3 == 0) y1 = z1, y2 = z2;
            fill(ar, o, z1, 1 + q % 4); fill(ai, o, y1, 1 + (q + 1) % 4); fill(br, u, z2, 1 + (q + 2) % 4); fill(bi, u, y2, 1 + q / 3 % 4); D a = dense(ar), b = dense(ai), c = dense(br), d = dense(bi); u64 h = hash(shash(ar), shash(ai), shash(br), shash(bi)); state(h); trace();
            memset((void *)&cr, 0x5a, sizeof cr); memset((void *)&ci, 0xa5, sizeof ci); at("MatMul real", N, S1, S2, k, z); MatMul<N, S1, S2>(ar, br, cr); step(); same(cr, dmul(a, c), "MatMul");
            memset((void *)&cr, 0xa5, sizeof cr); memset((void *)&ci, 0x5a, sizeof ci); at("MatMul complex", N, S1, S2, k, z); MatMul<N, S1, S2>(ar, ai, br, bi, cr, ci); step(); same(cr, dadd(dmul(a, c), dmul(b, d), -1), "complex MatMul real part"); same(ci, dadd(dmul(a, d), dmul(b, c), 1), "complex MatMul imaginary part");
            for (int s = 0; s < S1 * S2; s++) MC_CHECK(cr.off[s] == ci.off[s], "complex MatMul<%d,%d,%d>: offsets of real and imaginary part differ at %d", N, S1, S2, s);
            MC_CHECK(hash(shash(ar), shash(ai), shash(br), shash(bi)) == h, "MatMul<%d,%d,%d> changed an input", N, S1, S2);
            if constexpr ((N & (N - 1)) == 0 && N >= 2) if (q % 7 == 0) { constexpr int G = N == 2 ? 2 : N == 4 ? 3 : N == 8 ? 4 : 5; matvec<G, S1 * S2>(cr, ci, "complex product"); }
        } }
    bound("N=%d S1=%d S2=%d: offset set pairs (every %zu-th of %zu) x all empty markings, real and complex products", N, S1, S2, st, oa.size() * ob.size());
}
// large matrices: chosen offset sets and markings
static std::vector<std::vector<int>> bigoffs(int N, int S) { std::vector<std::vector<int>> r = {{0, 1, N - 1}, {N / 2, 3, N / 2 + 1}, {N - 1, N / 4, 0}, {1, 0, N / 2 - 1}}; for (auto &o : r) o.resize(S); return r; }
template <int LOGN, int S> void bigsingle() {
    const int N = 1 << (LOGN - 1); auto os = bigoffs(N, S); static SparseDiagonal<N, S> a, b, t; size_t q = 0;
    for (auto &o : os) for (int z : {0, 1, (1 << S) - 2}) { q++; at("large single", LOGN, S, q); fill(a, o, z, 1 + q % 4); fill(b, o, z == 1 ? 2 % (1 << S) : 0, 1 + q / 2 % 4); D da = dense(a), db = dense(b); state(hash(shash(a), shash(b))); trace(); same(a, da, "set_element");
        t = a; t.negate(); step(); same(t, dadd(dz(N), da, -1), "negate", false); t *= -2.5; step(); same(t, dadd(dz(N), da, 2.5), "scaling", false); t = a; t.transpose(); step(); D w = dz(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w[j][i] = da[i][j]; same(t, w, "transpose"); t = a; t += b; step(); same(t, dadd(da, db, 1), "addition"); matvec<LOGN, S>(t, b, "addition", N - 1); t -= b; step(); t -= b; step(); same(t, dadd(da, db, -1), "subtraction"); matvec<LOGN, S>(a, t, "subtraction", N / 2 + 1); }
    bound("N=%d S=%d: 4 offset sets x 3 empty markings", N, S);
}
template <int N, int S1, int S2> void bigproducts() {
    auto oa = bigoffs(N, S1), ob = bigoffs(N, S2); static SparseDiagonal<N, S1> ar, ai; static SparseDiagonal<N, S2> br, bi; static SparseDiagonal<N, S1 * S2> cr, ci; size_t q = 0;
    for (size_t k = 0; k < 6; k++) { q++; auto &o = oa[k % 4], &u = ob[(k * 3 + 1) % 4]; fill(ar, o, q % 3 == 1 ? 1 : 0, 1 + q % 4); fill(ai, o, q % 2 ? 0 : 2 % (1 << S1), 1 + (q + 1) % 4); fill(br, u, q % 3 == 2 ? 1 : 0, 1 + (q + 2) % 4); fill(bi, u, 0, 1 + q / 3 % 4); D a = dense(ar), b = dense(ai), c = dense(br), d = dense(bi); u64 h = hash(shash(ar), shash(ai), shash(br), shash(bi)); state(h); trace();
        memset((void *)&cr, 0x5a, sizeof cr); at("large MatMul real", N, S1, S2, k); MatMul<N, S1, S2>(ar, br, cr); step(); same(cr, dmul(a, c), "MatMul", false); memset((void *)&cr, 0xa5, sizeof cr); memset((void *)&ci, 0x5a, sizeof ci); MatMul<N, S1, S2>(ar, ai, br, bi, cr, ci); step(); same(cr, dadd(dmul(a, c), dmul(b, d), -1), "complex MatMul real part", false); same(ci, dadd(dmul(a, d), dmul(b, c), 1), "complex MatMul imaginary part", false); for (int s = 0; s < S1 * S2; s++) MC_CHECK(cr.off[s] == ci.off[s], "complex MatMul<%d,%d,%d>: offsets differ at %d", N, S1, S2, s); MC_CHECK(hash(shash(ar), shash(ai), shash(br), shash(bi)) == h, "MatMul<%d,%d,%d> changed an input", N, S1, S2); }
    bound("N=%d S1=%d S2=%d: 6 offset set pairs", N, S1, S2);
}
template <int N, int S1, int S2> void clutter() { SparseDiagonal<N, S1> a; SparseDiagonal<N, S2> b; auto os = offsets<S2>(N); for (size_t k = 0; k < os.size(); k++) for (int z = 0; z < 1 << S2; z++) { a.setzero(); for (int s = 0; s < S2; s++) a.off[s] = os[k][s]; for (int s = 0; s < S2; s++) if (!(z >> s & 1)) for (int i = 0; i < N; i++) a.set_element(i, (i + os[k][s]) % N, pv(1 + k % 4, s, i)); u64 h = shash(a); D d = dense(a); memset((void *)&b, 0x33, sizeof b); at("RemoveClutter", N, S1, S2, k, z); RemoveClutter<N, S1, S2>(a, b); step(); trace(); state(hash(h, S2)); same(b, d, "RemoveClutter"); MC_CHECK(shash(a) == h, "RemoveClutter changed its input"); for (int s = 0; s < S2; s++) MC_CHECK(!(a.zero[s] == false && b.zero[s]), "RemoveClutter<%d,%d,%d> marked a kept diagonal empty", N, S1, S2); } bound("RemoveClutter N=%d %d->%d", N, S1, S2); }
// breadth-first over operation sequences on a real/imaginary pair of matrices
template <int LOGN, int S> void sequences(int depth, size_t cap) {
    const int N = 1 << (LOGN - 1); typedef SparseDiagonal<N, S> T; struct St { T a, b; }; std::vector<std::unique_ptr<St>> fr, nx; HashSet seen; std::vector<int> o = offsets<S>(N)[offsets<S>(N).size() / 2];
    for (int z = 0; z < 1 << S; z++) { auto s = std::make_unique<St>(); fill(s->a, o, z, 1); fill(s->b, o, (1 << S) - 1 - z, 4); fr.push_back(std::move(s)); }
    for (int d = 0; d < depth; d++) { nx.clear(); for (auto &f : fr) for (int op = 0; op < 11; op++) { auto s = std::make_unique<St>(); s->a = f->a; s->b = f->b; D A = dense(s->a), B = dense(s->b); bool eq = true; for (int k = 0; k < S; k++) eq &= s->a.off[k] == s->b.off[k]; if ((op < 2 || op == 7) && !eq) continue; at("sequence", LOGN, S, d, op);
        switch (op) { case 0: s->a += s->b; A = dadd(A, B, 1); break; case 1: s->a -= s->b; A = dadd(A, B, -1); break; case 2: s->a *= -1; A = dadd(dz(N), A, -1); break; case 3: s->a.negate(); A = dadd(dz(N), A, -1); break; case 4: { s->a.transpose(); D t = A; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A[j][i] = t[i][j]; break; } case 5: { s->b.transpose(); D t = B; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) B[j][i] = t[i][j]; break; } case 6: s->a = s->b; A = B; break; case 7: s->b -= s->a; B = dadd(B, A, -1); break; case 8: s->a.setzero(); for (int k = 0; k < S; k++) s->a.off[k] = s->b.off[k]; A = dz(N); break; case 9: { int j = (1 + s->a.off[S - 1]) % N; s->a.set_element(1, j, 9); A[1][j] = 9; break; } case 10: { T t; t = s->a; s->a = s->b; s->b = t; std::swap(A, B); break; } }
        step(); same(s->a, A, fmt("operation %d at depth %d", op, d + 1).c_str()); same(s->b, B, fmt("operation %d at depth %d (second)", op, d + 1).c_str()); u64 h = hash(shash(s->a), shash(s->b)); if (seen.insert(h)) { state(h); trace(); nx.push_back(std::move(s)); } }
        bound("N=%d S=%d: operation sequences complete to depth %d (%zu new states)", N, S, d + 1, nx.size()); if (nx.size() > cap) break; fr.swap(nx); }
}
template <int G> void messages() {
    const int M = 1 << (G - 1); static Message<G> a, b, c; static Message<G + 1> e; for (int q = 0; q < 60; q++) { for (int i = 0; i < M; i++) { a.r[i] = (i * 7 + q) % 11 - 5; a.i[i] = (i * 5 + q * 3) % 13 - 6; b.r[i] = (i * i + q) % 9 - 4 + 0.5; b.i[i] = q % 7 == 0 ? 0 : (i + q) % 5 - 2; c.r[i] = c.i[i] = 1e99; } u64 h = hbytes(&a, sizeof a, hbytes(&b, sizeof b)); state(hash(h, G)); trace(); at("message", G, q);
        auto chk = [&](auto f, const char *how) { step(); for (int i = 0; i < M; i++) { double x, y; f(i, x, y); MC_CHECK(c.r[i] == x && c.i[i] == y, "message %s<%d>: slot %d is (%g,%g) want (%g,%g)", how, G, i, c.r[i], c.i[i], x, y); } MC_CHECK(hbytes(&a, sizeof a, hbytes(&b, sizeof b)) == h, "message %s changed an input", how); };
        add(a, b, c); chk([&](int i, double &x, double &y) { x = a.r[i] + b.r[i]; y = a.i[i] + b.i[i]; }, "add"); sub(a, b, c); chk([&](int i, double &x, double &y) { x = a.r[i] - b.r[i]; y = a.i[i] - b.i[i]; }, "sub"); mul(a, b, c); chk([&](int i, double &x, double &y) { x = a.r[i] * b.r[i] - a.i[i] * b.i[i]; y = a.r[i] * b.i[i] + a.i[i] * b.r[i]; }, "mul"); mul(a, a, c); chk([&](int i, double &x, double &y) { x = a.r[i] * a.r[i] - a.i[i] * a.i[i]; y = 2 * a.r[i] * a.i[i]; }, "square");
        double ss = 0, mx = 0; for (int i = 0; i < M; i++) { double t = a.r[i] * a.r[i] + a.i[i] * a.i[i]; ss += t; mx = std::max(mx, sqrt(t)); } MC_CHECK(square_sum(a) == ss && fabs(norm(a) - sqrt(ss)) <= 1e-13 * sqrt(ss) && fabs(sup_norm(a) - mx) <= 1e-13 * mx, "message norms<%d>: %g %g %g want %g %g %g", G, square_sum(a), norm(a), sup_norm(a), ss, sqrt(ss), mx); step(3);
        aggregate(a, b, e); step(); for (int i = 0; i < 2 * M; i++) MC_CHECK(e.r[i] == (i < M ? a.r[i] : b.r[i % M]) && e.i[i] == (i < M ? a.i[i] : b.i[i % M]), "aggregate<%d>: slot %d is (%g,%g)", G, i, e.r[i], e.i[i]);
        // one huge slot decides the supremum norm wherever it is
        Message<G> u; u.i[q % M] = -100 - q; MC_CHECK(sup_norm(u) == 100 + q && norm(u) == 100 + q, "sup_norm<%d> of one slot is %g", G, sup_norm(u)); step();
    }
    Message<G> z; for (int i = 0; i < M; i++) MC_CHECK(z.r[i] == 0 && z.i[i] == 0, "a new message is not zero"); Message<G> cp(a); for (int i = 0; i < M; i++) MC_CHECK(cp.r[i] == a.r[i] && cp.i[i] == a.i[i], "a copied message differs"); bound("messages LOGN=%d: 60 operand pairs", G);
}
template <int G, int K> void diagK() { const int M = 1 << (G - 1); static Message<G> A[K], z, w; for (int q = 0; q < 2 * M + 8; q++) { for (int k = 0; k < K; k++) for (int i = 0; i < M; i++) { A[k].r[i] = (i * 3 + k * 5 + q) % 7 - 3; A[k].i[i] = (i * 2 + k + q) % 5 - 2; } for (int i = 0; i < M; i++) { z.r[i] = q < M ? i == q : q < 2 * M ? 0 : (i + q) % 7 - 3; z.i[i] = q < M ? 0 : q < 2 * M ? i == q - M : i % 3 - 1; w.r[i] = w.i[i] = 7e7; } at("matrix_vector_product K", G, K, q); matrix_vector_product<G, K>(z, A, w); step(); trace(); state(hash(G, K, q, 33)); for (int i = 0; i < M; i++) { double x = 0, y = 0; for (int k = 0; k < K; k++) { int j = (i + k) % M; x += A[k].r[i] * z.r[j] - A[k].i[i] * z.i[j]; y += A[k].r[i] * z.i[j] + A[k].i[i] * z.r[j]; } MC_CHECK(w.r[i] == x && w.i[i] == y, "matrix_vector_product<%d,%d>: slot %d is (%g,%g) want (%g,%g)", G, K, i, w.r[i], w.i[i], x, y); } } bound("message diagonals LOGN=%d K=%d", G, K); }
template <int N> void densef() { static double ar[N][N], ai[N][N], br[N][N], bi[N][N], cr[N][N], ci[N][N], v[N][N]; for (int q = 0; q < 2 * N * N + 6 && q < 80; q++) { D a = dz(N), b = a, c = a, d = a; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { a[i][j] = ar[i][j] = q < N * N ? i * N + j == q : (i * 3 + j * 7 + q) % 9 - 4; b[i][j] = ai[i][j] = q % 2 ? (i + j * 2 + q) % 5 - 2 : 0; c[i][j] = br[i][j] = (i * 5 + j + q) % 7 - 3; d[i][j] = bi[i][j] = (i * j + q) % 3 - 1; cr[i][j] = ci[i][j] = v[i][j] = 1e55; } matrix_product<N>(ar, ai, br, bi, cr, ci); step(); trace(); state(hash(N, q, 71)); D x = dadd(dmul(a, c), dmul(b, d), -1), y = dadd(dmul(a, d), dmul(b, c), 1); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) MC_CHECK(cr[i][j] == x[i][j] && ci[i][j] == y[i][j], "matrix_product<%d>: (%d,%d) is (%g,%g) want (%g,%g)", N, i, j, cr[i][j], ci[i][j], x[i][j], y[i][j]);
    mat_to_vecs<N>(ar, v); step(); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) MC_CHECK(v[i][j] == a[j][(i + j) % N], "mat_to_vecs<%d>: diagonal %d row %d is %g want %g", N, i, j, v[i][j], a[j][(i + j) % N]); } bound("dense product and diagonals N=%d", N); }
#if PART == 0
SCEN(single_small, 0) { single<2, 1>(99); single<2, 2>(99); single<3, 1>(99); single<3, 2>(99); single<3, 3>(99); sample("N=4 S=3: all 24 offset triples x all empty markings of both operands"); }
SCEN(single_mid, 0) { single<4, 3>(60); single<4, 2>(60); single<5, 3>(20); single<3, 4>(24); }
#elif PART == 1
SCEN(products_small, 0) { products<2, 1, 1>(999); products<2, 2, 1>(999); products<2, 1, 2>(999); products<2, 2, 2>(999); products<4, 1, 3>(999); products<4, 3, 1>(999); products<4, 2, 2>(999); products<4, 3, 3>(600); }
SCEN(products_mid, 0) { products<8, 3, 3>(600); products<8, 2, 3>(300); products<16, 3, 3>(150); products<3, 2, 2>(99); products<5, 3, 2>(150); }
SCEN(large, 0) { bigsingle<7, 3>(); bigsingle<8, 2>(); bigsingle<9, 3>(); bigsingle<10, 3>(); bigsingle<10, 1>(); bigproducts<64, 3, 3>(); bigproducts<128, 3, 3>(); bigproducts<256, 3, 2>(); bigproducts<512, 3, 3>(); bound("N=64..512"); }
SCEN(large_b, 0) { bigsingle<11, 3>(); bigproducts<1024, 3, 3>(); bound("N=1024"); }
#else
SCEN(seq, 0) { sequences<3, 3>(tier() ? 6 : 4, tier() ? 200000 : 8000); sequences<2, 2>(tier() ? 8 : 5, tier() ? 200000 : 8000); sequences<4, 2>(tier() ? 5 : 4, 8000); sample("+= -= negate transpose scale assign set_element swap in every order to depth 4"); }
SCEN(cluttered, 0) { clutter<4, 9, 3>(); clutter<8, 9, 3>(); clutter<4, 3, 2>(); clutter<4, 2, 1>(); clutter<8, 27, 5 - 2>(); }
SCEN(msgs, 0) { messages<2>(); messages<3>(); messages<4>(); messages<7>(); messages<9>(); messages<10>(); messages<11>(); messages<13>(); messages<16>(); diagK<8, 3>(); diagK<2, 1>(); diagK<2, 2>(); diagK<3, 3>(); diagK<3, 4>(); diagK<4, 8>(); diagK<4, 3>(); diagK<6, 5>(); densef<1>(); densef<2>(); densef<4>(); densef<8>(); densef<5>(); }
#endif
}
MC_MAIN
