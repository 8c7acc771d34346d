// C13: rescaling and modulus raising of ciphertexts.
#include "he.h"
#include "HEAAN/bootstrap.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int A, int B, int N> struct X {   // rescale A -> B
    std::unique_ptr<R_Q_square<A, N>> a{new R_Q_square<A, N>}; std::unique_ptr<R_Q_square<B, N>> b{new R_Q_square<B, N>}; int n = 0;
    void rs(const P &x, const P &y, const std::vector<K> &ks) {
        cset(*a, x, y); u64 h = chash(*a); junk(*b, n++ % 2 ? 0xff : 0); at("RS", A, B, N, n); RS<A, B, N>(*a, *b); step(); state(hash(h, A, B)); MC_CHECK(chash(*a) == h, "RS<%d,%d,%d> changed its input", A, B, N); MC_CHECK(pcanon((*b)[0]) && pcanon((*b)[1]), "RS<%d,%d,%d> wrote a non-canonical coefficient", A, B, N);
        P b0 = pval((*b)[0]), b1 = pval((*b)[1]); const int k = A - B; const I half = k ? pow2(k - 1) : I(0), QA = pow2(A);
        for (auto &s : ks) { trace(); P si = pint(s.data(), N), da = padd(x, pmul(si, y)), db = padd(b0, pmul(si, b1)); int w = wt(s);
            for (int i = 0; i < N; i++) { I e = center((db[i] << k) - da[i], QA); if (e < 0) e = -e; MC_CHECK(e <= half * (1 + w), "RS<%d,%d,%d> key %s of (%s,%s): coefficient %d decrypts off by %s/2^%d", A, B, N, KS(s).c_str(), PS(x).c_str(), PS(y).c_str(), i, S(e).c_str(), k); } }
    }
    static void big() { X x; auto ps = polys(A, N, 0); auto ks = keys(N, 0); std::vector<K> k2 = {ks[0], ks[ks.size() - 1], ks[4]}; size_t z = ps.size(); I h = A > B ? pow2(A - B - 1) : I(1); P t(N); for (int i = 0; i < N; i++) t[i] = center(h + (i % 3 - 1) + (I(i) << (A - B)), pow2(A)); ps.push_back(t); x.rs(ps[z - 1], t, k2); x.rs(t, ps[1], k2); x.rs(ps[z - 2], ps[z - 1], k2); bound("RS %d->%d N=%d: 3 ciphertexts x 3 keys", A, B, N); }
    static void go(int lvl) { X x; auto ps = polys(A, N, 1); std::vector<I> v; if (A > B) for (int d = -1; d <= 1; d++) { v.push_back(pow2(A - B - 1) + d); v.push_back(-pow2(A - B - 1) + d); v.push_back(pow2(A - 1) - pow2(A - B - 1) + d); v.push_back(pow2(A - B) * 3 + d); } for (auto &z : v) { P p(N); for (int i = 0; i < N; i++) p[i] = center(i % 2 ? z : I(-z), pow2(A)); ps.push_back(p); ps.push_back(P(N, center(z, pow2(A)))); } auto ks = keys(N, 0);
        for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j += lvl ? 1 : 1 + ps.size() / 5) x.rs(ps[i], ps[(i + j) % ps.size()], ks); }
};
template <int A, int B, int N> struct R {   // raise A -> B (A <= B)
    static void go(int lvl, bool big = false) {
        auto a = std::make_unique<R_Q_square<A, N>>(); auto b = std::make_unique<R_Q_square<B, N>>(); auto ps = polys(A, N, 1); auto ks = keys(N, 0); const I QA = pow2(A), QB = pow2(B); int n = 0;
        if (big) { ps = {ps[ps.size() - 1], ps[1]}; ks = {ks[0], ks[ks.size() - 1]}; bound("mod_raise %d->%d N=%d: 2 ciphertexts x 2 keys", A, B, N); }
        for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j += lvl ? 1 : 1 + ps.size() / 5) { const P &x = ps[i], &y = ps[(i + j) % ps.size()]; cset(*a, x, y); u64 h = chash(*a); junk(*b, n++ % 2 ? 0xff : 0); at("mod_raise", A, B, N, n); mod_raise<A, B, N>(*a, *b); step(); state(hash(h, A, B, 1)); MC_CHECK(chash(*a) == h, "mod_raise<%d,%d,%d> changed its input", A, B, N); MC_CHECK(pcanon((*b)[0]) && pcanon((*b)[1]), "mod_raise<%d,%d,%d> wrote a non-canonical coefficient", A, B, N);
            P b0 = pval((*b)[0]), b1 = pval((*b)[1]);
            for (auto &s : ks) { trace(); P si = pint(s.data(), N), da = pmod(padd(x, pmul(si, y)), QA), db = pmod(padd(b0, pmul(si, b1)), QB); int w = wt(s); for (int c = 0; c < N; c++) { I e = center(db[c] - da[c], QB); MC_CHECK(e % QA == 0 || B == A, "mod_raise<%d,%d,%d> key %s of (%s,%s): decryption changes modulo 2^%d", A, B, N, KS(s).c_str(), PS(x).c_str(), PS(y).c_str(), A); if (e < 0) e = -e; MC_CHECK(2 * e <= QA * (1 + w), "mod_raise<%d,%d,%d> key %s of (%s,%s): coefficient %d moved by %s", A, B, N, KS(s).c_str(), PS(x).c_str(), PS(y).c_str(), c, S(e).c_str()); outcome((u64)(e / QA)); } } }
    }
};
template <int A, int B, int C, int N> static void chain() {   // two steps agree with one within the sum of the bounds
    static R_Q_square<A, N> a; static R_Q_square<B, N> b; static R_Q_square<C, N> c, d; auto ps = polys(A, N, 1); auto ks = keys(N, 0);
    for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < ps.size(); j += 3) { cset(a, ps[i], ps[(i + j) % ps.size()]); at("chain", A, B, C, N, i); RS<A, B, N>(a, b); RS<B, C, N>(b, c); RS<A, C, N>(a, d); step(3); state(hash(chash(a), A, B, C)); const int k1 = A - B, k2 = B - C;
        for (auto &s : ks) { trace(); P si = pint(s.data(), N), p = padd(padd(pval(c[0]), pmul(si, pval(c[1]))), P(N, I(0))), q = padd(pval(d[0]), pmul(si, pval(d[1]))); I w = 1 + wt(s); for (int x = 0; x < N; x++) { I e = center(p[x] - q[x], pow2(C)); if (e < 0) e = -e; I bnd = (k1 ? (w << (k1 - 1)) : I(0)) + (k2 ? (w << (k1 + k2 - 1)) : I(0)) + (k1 + k2 ? (w << (k1 + k2 - 1)) : I(0)); MC_CHECK((e << (k1 + k2)) <= bnd, "rescaling %d->%d->%d and %d->%d differ by %s (N=%d, key %s)", A, B, C, A, C, S(e).c_str(), N, KS(s).c_str()); } } }
    bound("chain %d->%d->%d N=%d", A, B, C, N);
}
template <int A> struct RS2 { template <int B> struct To { static void go() { if constexpr (B <= A) X<A, B, 2>::go(0); else R<A, B, 2>::go(0); } }; };
#if PART < 4
// every pair of precisions up to 14, plus every distance around limb boundaries
template <int A> struct Row { static void go() { each_t<RS2<A>::template To>(Range<1, 14>()); X<A, A, 2>::go(0); R<A, A, 2>::go(0); } };
SCEN(small_pairs, 0) { constexpr int p = PART; each_t<Row>(List<1 + p, 8 - p, 9 + p>()); if (PART == 0) { each_t<Row>(List<13, 14>()); } bound("all precision pairs up to 14 x 14, N=2, 9 keys"); }
template <int D> struct Near { static void go() { constexpr int A = 129 + 64 * (D % 2), B = A - D; X<A, B, 2>::go(0); R<B, A, 2>::go(0); } };
SCEN(distances, 0) { each_t<Near>(Range<1 + 32 * PART, 32 + 32 * PART>()); bound("dropping and raising every k=%d..%d bits from 129 and 193", 1 + 32 * PART, 32 + 32 * PART); sample("RS 129->%d of (Q/2-1, -Q/2) for 9 keys", 128 - 32 * PART); }
#elif PART == 4
template <int A> struct Al { static void go() { X<A, A - 60 < 1 ? 1 : A - 60, 4>::go(0); X<A + 1, A - 20 < 1 ? 1 : A - 20, 4>::go(0); R<A, A + 45, 4>::go(0); } };
SCEN(sizes, 0) { each_t<Al>(List<60, 61, 63, 64, 65, 100, 120, 127, 128, 129, 191, 192, 193, 256, 320, 384>()); X<1450, 1400, 4>::go(0); X<1450, 60, 4>::go(0); R<60, 1450, 4>::go(0); R<64, 3051, 4>::go(0); X<3051, 64, 4>::go(0); X<2900, 1450, 4>::go(0); X<1500, 1, 4>::go(0); R<1, 640, 4>::go(0); bound("wide precisions, N=4"); }
SCEN(n8, 0) { X<60, 40, 8>::go(0); X<64, 1, 8>::go(0); X<130, 66, 8>::go(0); R<60, 130, 8>::go(0); R<64, 65, 8>::go(0); R<65, 256, 8>::go(0); X<110, 50, 32>::go(0); R<50, 110, 32>::go(0); X<61, 60, 16>::go(0); }
SCEN(large, 0) { X<60, 40, 64>::big(); X<64, 4, 128>::big(); X<65, 45, 256>::big(); X<130, 66, 512>::big(); X<60, 40, 1024>::big(); X<90, 60, 2048>::big(); X<130, 64, 4096>::big(); X<1450, 1390, 512>::big(); X<640, 580, 1024>::big(); X<1450, 1400, 1024>::big(); }
SCEN(large_raise, 0) { R<40, 60, 64>::go(0, true); R<45, 65, 256>::go(0, true); R<60, 130, 1024>::go(0, true); R<45, 640, 1024>::go(0, true); R<60, 1450, 512>::go(0, true); R<64, 130, 4096>::go(0, true); R<50, 1450, 1024>::go(0, true); }
SCEN(large_chains, 1) { X<60, 20, 16384>::big(); X<1450, 60, 4096>::big(); R<60, 1450, 4096>::go(0, true); }
#else
SCEN(chains, 0) { chain<60, 40, 20, 2>(); chain<64, 63, 62, 2>(); chain<65, 64, 63, 2>(); chain<130, 128, 64, 2>(); chain<130, 66, 2, 4>(); chain<200, 200, 140, 4>(); chain<193, 129, 65, 4>(); chain<640, 580, 520, 4>(); chain<1450, 1390, 1330, 4>(); chain<12, 8, 4, 2>(); sample("RS 130->128->64 against 130->64"); }
// complete at tiny precision: every ciphertext, every key
template <int A, int B> static void comp() { static R_Q_square<A, 2> a; std::vector<K> ks = keys(2, 0); u64 m = 1ull << (2 * A); auto mk = [&](u64 x) { return P{center(I(x & ((1 << A) - 1)), pow2(A)), center(I(x >> A), pow2(A))}; }; X<A, B, 2> xx; for (u64 x = 0; x < m; x++) for (u64 y = 0; y < m; y++) xx.rs(mk(x), mk(y), ks); bound("RS %d->%d N=2: every ciphertext, all 9 keys", A, B); }
SCEN(complete_tiny, 0) { comp<1, 1>(); comp<2, 1>(); comp<3, 1>(); comp<3, 2>(); comp<4, 2>(); comp<4, 3>(); comp<4, 1>(); }
#endif
}
MC_MAIN
