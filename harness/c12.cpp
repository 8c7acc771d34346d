// C12: homomorphic multiplication against the negacyclic product of reference decryptions.
#include "he.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int L, int N> struct M {
    typedef R_Q_square<L, N> C; typedef R_Q_square<2 * L, N> SW; typedef HEAAN<L, N> E; std::unique_ptr<SW> w{new SW}; std::unique_ptr<C> a{new C}, b{new C}, c{new C}; const I Q = pow2(L), QQ = pow2(2 * L); int n = 0; K s; I esum = 0; u64 lown = 0;
    void key(const K &k) {
        s = k; int x[N], sq[N]; memcpy(x, k.data(), sizeof x); at("evk", L, N, n); conv<N>(x, x, sq); step(); P r = pmul(pint(x, N), pint(x, N)); for (int i = 0; i < N; i++) MC_CHECK(r[i] == sq[i], "conv<%d>(s,s) coefficient %d = %d for %s", N, i, sq[i], KS(k).c_str());
        E::swkgen(sq, x, *w); step(); P d = rdec(*w, s); esum = 0; for (int i = 0; i < N; i++) { I e = center(d[i] - (I(sq[i]) << L), QQ); if (e < 0) e = -e; MC_CHECK(e <= 8, "evaluation key <%d,%d> for %s: noise %s", L, N, KS(k).c_str(), S(e).c_str()); esum += e; } if (esum == 0) lown++;
    }
    void chk(const C &r, const P &want, const char *how) { MC_CHECK(pcanon(r[0]) && pcanon(r[1]), "%s<%d,%d> wrote a non-canonical coefficient", how, L, N); I m = maxdiff(rdec(r, s), want, Q); MC_CHECK(2 * m <= 2 * esum + 1 + wt(s), "%s<%d,%d> with key %s of (%s,%s) and (%s,%s): off by %s with total key noise %s", how, L, N, KS(s).c_str(), PS(pval((*a)[0])).c_str(), PS(pval((*a)[1])).c_str(), PS(pval((*b)[0])).c_str(), PS(pval((*b)[1])).c_str(), S(m).c_str(), S(esum).c_str()); outcome(hash((u64)m, (u64)esum)); }
    void mul(const P &a0, const P &a1, const P &b0, const P &b1, bool both) {
        cset(*a, a0, a1); cset(*b, b0, b1); P da = rdec(*a, s), db = rdec(*b, s), want = pmul(da, db); u64 ha = chash(*a), hb = chash(*b), hw = chash(*w); junk(*c, n % 3 == 0 ? 0 : 0xff); at("Mul", L, N, n++);
        Mul<L, N>(*a, *b, *w, *c); step(); trace(); state(hash(ha, hb, hw)); chk(*c, want, "Mul"); MC_CHECK(chash(*a) == ha && chash(*b) == hb && chash(*w) == hw, "Mul<%d,%d> changed an input", L, N);
        if (both) { junk(*c, 0xa5); Mul<L, N>(*b, *a, *w, *c); step(); trace(); state(hash(hb, ha, hw, 2)); chk(*c, want, "Mul swapped"); Mul<L, N>(*a, *a, *w, *c); step(); trace(); chk(*c, pmul(da, da), "Mul of one ciphertext with itself"); MC_CHECK(chash(*a) == ha, "Mul<%d,%d>(x,x) changed x", L, N); }
    }
    void fresh(const P &x, const P &y) { int k[N]; memcpy(k, s.data(), sizeof k); auto m = std::make_unique<R_Q<L, N>>(); pset(*m, x); E::enc(*m, k, *a); pset(*m, y); E::enc(*m, k, *b); P a0 = pval((*a)[0]), a1 = pval((*a)[1]), b0 = pval((*b)[0]), b1 = pval((*b)[1]); mul(a0, a1, b0, b1, true); }
    void some(size_t off, size_t stride) { auto ps = polys(L, N, 1); size_t z = ps.size(); for (size_t i = off % stride; i < z * 3; i += stride) mul(ps[i % z], ps[(i * 3 + off) % z], ps[(i * 7 + 1 + i / z) % z], ps[(i * 5 + off + 2) % z], i % 2); }
    void all(int lvl, int seeds) {
        env().reset(3); auto ks = keys(N, 0); size_t q = 0; for (size_t i = 0; i < ks.size(); i += lvl || N <= 2 ? 1 : 3) { key(ks[i]); some(q++, lvl ? 2 : 5); auto ps = polys(L, N, 0); fresh(ps[(q * 3) % ps.size()], ps[(q + 5) % ps.size()]); }
        for (int t = 0; t < seeds; t++) { env().reset(300 + t); key(K(N, t % 2 ? 1 : -1)); some(q++, 7); }
        for (int cst : {0, 1, 8, 17, 0x7fffffff}) { env().reset(1); env().constant = cst; env().const_upto = 1L << 60; key(ks[ks.size() - 1]); some(q++, 6); } env().reset(9);
        bound("LOGQ=%d N=%d: %zu keys, extreme/basis/dense ciphertext quadruples, both orders, squares, %d random streams (%llu zero-noise keys)", L, N, ks.size(), seeds, (unsigned long long)lown);
    }
};
template <int L> struct All { static void go() { M<L, 2> w; w.all(0, L <= 64 ? 40 : 16); } };
#if PART < 5
SCEN(all_precisions, 0) { each_t<All>(Range<1 + 26 * PART, 26 + 26 * PART>()); sample("LOGQ=%d N=2: 9 keys, ciphertexts at +-Q/2", 9 + 26 * PART); }
#elif PART == 5
SCEN(sizes_a, 0) { M<60, 4>().all(1, 10); M<64, 4>().all(1, 10); M<65, 4>().all(0, 5); M<32, 8>().all(0, 5); M<61, 8>().all(0, 3); M<30, 16>().all(0, 1); }
#elif PART == 6
SCEN(sizes_b, 0) { M<128, 8>().all(0, 1); M<192, 4>().all(0, 3); M<640, 4>().all(0, 1); M<725, 2>().all(0, 3); M<1450, 2>().all(0, 2); M<1525, 2>().all(0, 2); }
template <int L, int N> static void large() { M<L, N> w; env().reset(1); K t(N, 0); for (int i = 0; i < N; i++) t[i] = i % 3 - 1; auto ps = polys(L, N, 0); w.key(t); w.fresh(ps[ps.size() - 1], ps[1]); w.mul(ps[0], ps[5], ps[1], ps[ps.size() - 1], false); w.mul(ps[1], ps[1], ps[1], ps[1], false); bound("LOGQ=%d N=%d: one key, 5 products", L, N); }
SCEN(large, 0) { large<60, 128>(); large<110, 64>(); large<700, 16>(); }
SCEN(large2, 0) { large<60, 512>(); large<1450, 64>(); large<640, 256>(); large<60, 1024>(); }
SCEN(large3, 0) { large<60, 4096>(); large<64, 2048>(); large<1450, 512>(); large<65, 1024>(); }
SCEN(large4, 0) { large<1450, 1024>(); large<130, 4096>(); }
SCEN(large5, 1) { large<1450, 4096>(); large<130, 8192>(); }
#elif PART == 7
template <int L, int N> static void complete() { M<L, N> w; u64 m = 1ull << (L * N), n = 1; for (int i = 0; i < N; i++) n *= 3; auto mk = [&](u64 x) { P a(N); for (int i = 0; i < N; i++) a[i] = center(I(x >> (L * i) & ((1 << L) - 1)), pow2(L)); return a; }; env().reset(2);
    for (u64 k = 0; k < n; k++) { w.key(tern(N, k)); for (u64 x = 0; x < m * m; x++) for (u64 y = 0; y < m * m; y += m > 4 ? 5 : 1) w.mul(mk(x % m), mk(x / m), mk(y % m), mk(y / m), false); } bound("LOGQ=%d N=%d: every ternary key and ciphertext pair", L, N); }
SCEN(complete_tiny, 0) { complete<1, 2>(); complete<2, 2>(); }
template <int L> static void grid() { M<L, 2> w; std::vector<I> v{I(0), I(1), I(-1), pow2(L - 1) - 1, -pow2(L - 1), pow2(L / 2)}; for (u64 k = 0; k < 9; k++) for (int s = 0; s < 3; s++) { env().reset(s + 60); w.key(tern(2, k)); size_t z = v.size(); for (size_t i = 0; i < z * z; i++) for (size_t j = 0; j < z * z; j++) w.mul(P{v[i % z], v[(i + j) % z]}, P{v[i / z], v[j % z]}, P{v[j / z], v[i % z]}, P{v[j % z], v[(i / z + 1) % z]}, j == i); } bound("LOGQ=%d N=2: 9 keys x 3 streams x 1296 ciphertext pairs of 6 values", L); }
SCEN(grid, 0) { grid<12>(); grid<31>(); grid<33>(); grid<63>(); grid<64>(); grid<65>(); grid<96>(); sample("LOGQ=64: ciphertexts over {0,1,-1,Q/2-1,-Q/2,2^32}"); }
// products of products: noise stays within the composed bound
template <int L> static void chain() { M<L, 4> w; env().reset(4); w.key({1, 0, -1, 1}); auto ps = polys(L, 4, 0); auto x = std::make_unique<R_Q_square<L, 4>>(); for (auto &p : ps) { cset(*x, p, ps[3]); for (int d = 0; d < 6; d++) { P a0 = pval((*x)[0]), a1 = pval((*x)[1]); w.mul(a0, a1, a0, a1, true); *x = *w.c; } } bound("LOGQ=%d N=4: chains of 6 squarings", L); }
SCEN(chains, 0) { chain<60>(); chain<64>(); chain<130>(); }
#endif
}
MC_MAIN
