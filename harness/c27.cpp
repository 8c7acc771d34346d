// C27: every program of homomorphic operations up to a depth against the same program on complex slot vectors.
#include "hef.h"
#include "HEAAN/linear_transform.h"
#include "impl/message.h"
#include "impl/plaintext.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
static const char *OPS[] = {"x+=y", "x-=y", "x+=x", "x*=w", "swap", "rot 1", "rot N/4", "conj", "switch key", "y=fresh", "y=x", "x+=plain", "x=x*y", "x=x*x", "x=x*plain", "x=A*x", "drop level"};
enum { ADD, SUB, DBL, WORD, SWAP, ROT1, ROTH, CONJ, KS_, FRESH, COPY, PADD, MUL, SQR, PMUL, LT, DROP, NOPS };
template <int G, int D> struct Prog {   // 2^G coefficients, scale 2^D; levels lose D bits each
    static const int N = 1 << G, M = N / 2;
    struct Sl { Z z; LD b = 0, e = 0; };   // exact slots, bound on their size, bound on the error of the ciphertext's slots
    template <int L> struct St { R_Q_square<L, N> x, y; };
    struct Rf { Sl x, y; int k = 0; };
    template <int L> struct Keys { typedef R_Q_square<2 * L, N> W; W evk[2], r1[2], rh[2], cj[2], sw[2]; u64 h = 0; };
    template <int L> static Keys<L> &keys_() { static std::unique_ptr<Keys<L>> k(new Keys<L>); return *k; }
    template <int L> static u64 khash() { Keys<L> &k = keys_<L>(); u64 h = 1; for (int q = 0; q < 2; q++) for (auto w : {&k.evk[q], &k.r1[q], &k.rh[q], &k.cj[q], &k.sw[q]}) h = chash(*w, h); return h; }
    static int sk[2][N]; static K key[2]; static Z pl; static double ar[3][M], ai[3][M]; static std::string path; static u64 nodes;
    static LD d2(LD c) { return c * N * exp2l(-D); }   // a coefficient error as a slot error
    static LD fp(LD b) { return exp2l(-45) * (1 + b) * G * 4; }
    static Z pat(int q) { Z z(M); for (int i = 0; i < M; i++) { LD a = q == 0 ? 0 : (LD)((i * 5 + q * 3) % 7) / 7 * 6.283L, r = q == 1 ? (i == M - 1) : q == 3 ? (i % 2 ? 0.0625L : 1) : 1; z.r[i] = (LD)(double)(r * cosl(a)); z.i[i] = q == 4 ? 0 : (LD)(double)(r * sinl(a)); } return z; }
    static LD mag(const Z &z) { LD m = 0; for (int i = 0; i < M; i++) m = std::max(m, hypotl(z.r[i], z.i[i])); return m; }
    static Message<G> &msg(const Z &z) { static Message<G> m; for (int i = 0; i < M; i++) m.r[i] = z.r[i], m.i[i] = z.i[i]; return m; }
    template <int L> static void fresh(const Z &z, int k, R_Q_square<L, N> &c, Sl &s) { static R_Q<L, N> pt; encode(msg(z), 1ull << D, pt); HEAAN<L, N>::enc(pt, sk[k], c); step(2); s.z = z; s.b = mag(z); s.e = d2(8.5L) + fp(s.b); }
    template <int L> static void mkkeys() { Keys<L> &k = keys_<L>(); typedef HEAAN<L, N> E; for (int q = 0; q < 2; q++) { int t[N]; conv<N>(sk[q], sk[q], t); E::swkgen(t, sk[q], k.evk[q]); rot<N>(sk[q], t, 1); E::swkgen(t, sk[q], k.r1[q]); rot<N>(sk[q], t, M / 2); E::swkgen(t, sk[q], k.rh[q]); conj<N>(sk[q], t); E::swkgen(t, sk[q], k.cj[q]); E::swkgen(sk[q], sk[1 - q], k.sw[q]); step(9); } k.h = khash<L>(); }
    template <int L> static void look(const R_Q_square<L, N> &c, const Sl &s, int k, const char *w) {
        MC_CHECK(pcanon(c[0]) && pcanon(c[1]), "<%d,%d,%d> %s: %s is not canonical", L, G, D, path.c_str(), w); static R_Q<L, N> pt; HEAAN<L, N>::dec(c, sk[k], pt); static Message<G> m; decode(pt, 1ull << D, m); step(2); LD t = s.e * 1.5L + fp(s.b), worst = 0; int at_ = 0;
        for (int i = 0; i < M; i++) { LD d = fabsl(m.r[i] - s.z.r[i]) + fabsl(m.i[i] - s.z.i[i]); if (!(d <= worst)) worst = d, at_ = i; }
        MC_CHECK(worst <= t, "LOGQ=%d LOGN=%d LOGDELTA=%d keys %s / %s, program %s: slot %d of %s is off by %Lg, allowed %Lg", L, G, D, KS(key[0]).c_str(), KS(key[1]).c_str(), path.c_str(), at_, w, worst, t); outcome((u64)(worst * exp2l(D + 8)));
    }
    // room: coefficients of size b at scale 2^lg stay in the ring
    static bool room(LD b, int lg, int L) { return log2l(b + 1e-3L) + lg + 3 < L; }
    template <int L, int LV> static void node(const St<L> &s, const Rf &r, int depth, int part, int parts) {
        nodes++; trace(); if (!state(hash(chash(s.x), chash(s.y), L, r.k)) && depth > 0) {} look(s.x, r.x, r.k, "x"); look(s.y, r.y, r.k, "y"); if (!depth) return; size_t pl_ = path.size();
        for (int op = 0; op < NOPS; op++) { if (op % parts != part) continue; path += std::string(path.empty() ? "" : "; ") + OPS[op]; step_<L, LV>(s, r, op, depth); path.resize(pl_); }
    }
    template <int L, int LV> static void step_(const St<L> &s, const Rf &r0, int op, int depth) {
        Keys<L> &ky = keys_<L>(); const LD ks = ksb(N, key[r0.k]); Rf r = r0; Z &zx = r.x.z; std::unique_ptr<St<L>> t(new St<L>(s)); typedef HEAAN<L, N> E; at(OPS[op], L, G, D, depth); u64 hy = chash(s.y), hx = chash(s.x);
        if (op < MUL) {
            switch (op) {
            case ADD: t->x += t->y; for (int i = 0; i < M; i++) zx.r[i] += r.y.z.r[i], zx.i[i] += r.y.z.i[i]; r.x.b += r.y.b; r.x.e += r.y.e; break;
            case SUB: t->x -= t->y; for (int i = 0; i < M; i++) zx.r[i] -= r.y.z.r[i], zx.i[i] -= r.y.z.i[i]; r.x.b += r.y.b; r.x.e += r.y.e; break;
            case DBL: t->x += t->x; for (int i = 0; i < M; i++) zx.r[i] *= 2, zx.i[i] *= 2; r.x.b *= 2; r.x.e *= 2; break;
            case WORD: { static const int ws[] = {3, 0, 2, 5, 1}; const int w = ws[(depth + path.size()) % 5]; path += fmt("(%d)", w); t->x *= (uint64_t)w; for (int i = 0; i < M; i++) zx.r[i] *= w, zx.i[i] *= w; r.x.b *= w; r.x.e *= w; break; }
            case SWAP: t->x = s.y; t->y = s.x; std::swap(r.x, r.y); break;
            case ROT1: case ROTH: { int o = op == ROT1 ? 1 : M / 2; junk(t->x, 0x5a); rot_ct<L, N>(s.x, o, op == ROT1 ? ky.r1[r.k] : ky.rh[r.k], t->x); for (int i = 0; i < M; i++) zx.r[i] = r0.x.z.r[(i + o) % M], zx.i[i] = r0.x.z.i[(i + o) % M]; r.x.e += d2(ks); break; }
            case CONJ: junk(t->x, 0xff); conj<L, N>(s.x, ky.cj[r.k], t->x); for (int i = 0; i < M; i++) zx.i[i] = -zx.i[i]; r.x.e += d2(ks); break;
            case KS_: { E::ks(ky.sw[r.k], t->x); E::ks(ky.sw[r.k], t->y); r.k = 1 - r.k; LD k2 = ksb(N, key[r.k]); r.x.e += d2(k2); r.y.e += d2(k2); break; }
            case COPY: t->y = s.x; r.y = r0.x; break;
            case PADD: { static R_Q<L, N> pt; encode(msg(pl), 1ull << D, pt); t->x[0] += pt; for (int i = 0; i < M; i++) zx.r[i] += pl.r[i], zx.i[i] += pl.i[i]; r.x.b += mag(pl); r.x.e += d2(0.5L) + fp(1); break; }
            case FRESH: fresh<L>(pat(depth % 5), r.k, t->y, r.y); break; }
            step(); MC_CHECK(chash(s.x) == hx && chash(s.y) == hy, "<%d,%d,%d> %s: an operand was changed", L, G, D, path.c_str()); if (op != SWAP && op != KS_ && op != FRESH && op != COPY) MC_CHECK(chash(t->y) == hy, "<%d,%d,%d> %s: y was changed", L, G, D, path.c_str());
            if (!room(r.x.b, D, L) || !room(r.y.b, D, L)) return; node<L, LV>(*t, r, depth - 1, 0, 1); return;
        }
        if constexpr (LV > 0) {
            const int L2 = L - D; std::unique_ptr<St<L2>> u(new St<L2>); junk(u->x, 0x33); junk(u->y, 0xcc);
            if (op == DROP) { if (!room(r.x.b, D, L2) || !room(r.y.b, D, L2)) return; resize(s.x, u->x); resize(s.y, u->y); step(2); node<L2, LV - 1>(*u, r, depth - 1, 0, 1); return; }
            LD b2 = op == MUL ? r.x.b * r.y.b : op == SQR ? r.x.b * r.x.b : op == PMUL ? r.x.b * mag(pl) : r.x.b * 3; if (!room(b2, 2 * D, L) || !room(b2, D, L2) || !room(r.y.b, D, L2)) return; LD rs = d2((1 + wt(key[r.k])) / 2.0L), pe = d2(0.5L) + fp(1), e2 = exp2l(-D) * d2(ks);
            switch (op) {
            case MUL: Mul<L, N>(s.x, s.y, ky.evk[r.k], t->x); for (int i = 0; i < M; i++) { LD a = zx.r[i], b = zx.i[i]; zx.r[i] = a * r.y.z.r[i] - b * r.y.z.i[i]; zx.i[i] = a * r.y.z.i[i] + b * r.y.z.r[i]; } r.x.e = r.x.e * r.y.b + r.y.e * r.x.b + r.x.e * r.y.e + e2; break;
            case SQR: Mul<L, N>(s.x, s.x, ky.evk[r.k], t->x); for (int i = 0; i < M; i++) { LD a = zx.r[i], b = zx.i[i]; zx.r[i] = a * a - b * b; zx.i[i] = 2 * a * b; } r.x.e = 2 * r.x.e * r.x.b + r.x.e * r.x.e + e2; break;
            case PMUL: { static R_Q<L, N> pt; encode(msg(pl), 1ull << D, pt); t->x *= pt; for (int i = 0; i < M; i++) { LD a = zx.r[i], b = zx.i[i]; zx.r[i] = a * pl.r[i] - b * pl.i[i]; zx.i[i] = a * pl.i[i] + b * pl.r[i]; } r.x.e = r.x.e * (mag(pl) + pe) + pe * r.x.b; break; }
            case LT: { static SparseDiagonal<M, 3> a, b; a.setzero(); b.setzero(); const int off[3] = {0, 1, M - 1}; for (int k = 0; k < 3; k++) { a.off[k] = b.off[k] = off[k]; a.zero[k] = false; b.zero[k] = k == 1; for (int i = 0; i < M; i++) a.vec[k][i] = ar[k][i], b.vec[k][i] = k == 1 ? 0 : ai[k][i]; }
                junk(t->x, 0x77); linear_transform<L, G, D, 3>(a, b, s.x, sk[r.k], t->x); LD e = 0; for (int i = 0; i < M; i++) { LD p = 0, q = 0; for (int k = 0; k < 3; k++) { int j = (i + off[k]) % M; LD cr = a.vec[k][i], ci = b.vec[k][i]; p += cr * r0.x.z.r[j] - ci * r0.x.z.i[j]; q += cr * r0.x.z.i[j] + ci * r0.x.z.r[j]; } zx.r[i] = p; zx.i[i] = q; } for (int k = 0; k < 3; k++) e += (r0.x.e + d2(ks)) * (1 + pe) + pe * r0.x.b; r.x.e = e; break; } }
            r.x.b = b2; r.x.e += rs; step(); RS<L, L2, N>(t->x, u->x); resize(s.y, u->y); step(2); MC_CHECK(chash(s.x) == hx && chash(s.y) == hy, "<%d,%d,%d> %s: an operand was changed", L, G, D, path.c_str()); node<L2, LV - 1>(*u, r, depth - 1, 0, 1);
        }
    }
    template <int L, int LV> static void mk() { mkkeys<L>(); if constexpr (LV > 0) mk<L - D, LV - 1>(); }
    template <int L, int LV> static void kept() { MC_CHECK(keys_<L>().h == khash<L>(), "a switching key at LOGQ=%d was changed", L); if constexpr (LV > 0) kept<L - D, LV - 1>(); }
    template <int L, int LV> static void go(const K &k0, const K &k1, int a, int b, int depth, int part, int parts, u64 seed) {
        env().reset(seed); key[0] = k0; key[1] = k1; memcpy(sk[0], k0.data(), sizeof sk[0]); memcpy(sk[1], k1.data(), sizeof sk[1]); pl = pat(2); for (int i = 0; i < M; i++) pl.i[i] *= i % 3 ? 1 : -1; for (int k = 0; k < 3; k++) for (int i = 0; i < M; i++) { ar[k][i] = ((i * 3 + k * 5) % 9 - 4) / 8.0; ai[k][i] = ((i + k * 2) % 5 - 2) / 4.0; }
        mk<L, LV>(); auto s = std::make_unique<St<L>>(); Rf r; path = ""; fresh<L>(pat(a), 0, s->x, r.x); fresh<L>(pat(b), 0, s->y, r.y); nodes = 0; node<L, LV>(*s, r, depth, part, parts); kept<L, LV>();
        bound("LOGQ=%d LOGN=%d LOGDELTA=%d, %d levels: all programs of up to %d of %d operations on two registers (part %d of %d, messages %d,%d): %llu programs", L, G, D, LV, depth, (int)NOPS, part, parts, a, b, (unsigned long long)nodes);
    }
};
template <int G, int D> int Prog<G, D>::sk[2][Prog<G, D>::N]; template <int G, int D> K Prog<G, D>::key[2]; template <int G, int D> Z Prog<G, D>::pl; template <int G, int D> double Prog<G, D>::ar[3][Prog<G, D>::M]; template <int G, int D> double Prog<G, D>::ai[3][Prog<G, D>::M]; template <int G, int D> std::string Prog<G, D>::path; template <int G, int D> u64 Prog<G, D>::nodes;
static K sparse(int N, int w, u64 s) { K k(N, 0); for (int c = 0; c < w;) { s = s * 6364136223846793005ull + 1442695040888963407ull; int p = (s >> 33) % N; if (!k[p]) k[p] = s >> 63 ? 1 : -1, c++; } return k; }
#if PART < 4
SCEN(tiny, 0) { Prog<2, 30>::go<100, 2>({1, 0, -1, 1}, {-1, -1, 1, 1}, 2, 3, tier() ? 5 : 4, PART, 4, 11 + PART); sample("x=x*y; rot 1; x-=y; switch key at LOGQ=100, N=4"); }
#elif PART == 4
SCEN(eight, 0) { Prog<3, 50>::go<164, 2>(keys(8, 0)[11], K(8, 1), 2, 4, tier() ? 4 : 3, 0, 1, 21); }
SCEN(eight_b, 0) { Prog<3, 50>::go<164, 2>(K(8, -1), keys(8, 0)[3], 1, 3, tier() ? 4 : 3, 0, 1, 22); }
#elif PART == 5
SCEN(sixteen, 0) { Prog<4, 45>::go<192, 3>(keys(16, 0)[13], keys(16, 0)[12], 2, 3, tier() ? 4 : 3, 0, 1, 31); }
SCEN(two_to_six, 0) { Prog<6, 40>::go<129, 2>(sparse(64, 32, 5), K(64, 1), 4, 2, tier() ? 3 : 2, 0, 1, 32); }
#elif PART == 6
SCEN(mid, 0) { Prog<9, 40>::go<128, 2>(sparse(512, 128, 7), sparse(512, 192, 8), 2, 3, 2, 0, 1, 41); }
SCEN(wide, 0) { Prog<3, 50>::go<640, 2>(keys(8, 0)[13], keys(8, 0)[12], 2, 3, tier() ? 3 : 2, 0, 1, 42); Prog<2, 50>::go<1450, 2>({1, 1, 0, -1}, {0, 1, 0, 0}, 3, 2, 2, 0, 1, 43); }
#elif PART == 7
SCEN(large, 0) { Prog<11, 40>::go<125, 2>(sparse(2048, 192, 9), sparse(2048, 64, 10), 2, 3, tier() ? 2 : 1, 0, 1, 51); Prog<13, 50>::go<164, 1>(sparse(8192, 192, 9), sparse(8192, 64, 10), 3, 2, 1, 0, 1, 52); }
SCEN(long_life, 0) { for (int t = 0; t < 60; t++) { std::vector<int> z; auto k = keys(8, 0); Prog<3, 50>::go<164, 1>(k[t % k.size()], k[(t * 5 + 3) % k.size()], t % 5, (t * 2 + 1) % 5, 1, 0, 1, 600 + t); } }
#endif
}
MC_MAIN
