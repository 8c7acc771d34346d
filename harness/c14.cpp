// C14: rotation and conjugation against the Galois maps X -> X^(5^r), X -> X^-1.
#include "he.h"
#include "HEAAN/linear_transform.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
namespace mc {
template <class A> static auto once(const A &a, A &b, int) -> decltype(rotate_once(a, b), true) { rotate_once(a, b); step(); return true; }
template <class A> static bool once(const A &, A &, long) { return false; }
#ifndef PART
#define PART 0
#endif
typedef long double LD;
static int gpow(int r, int N) { long p = 1, m = 2L * N; for (int i = 0; i < r; i++) p = p * 5 % m; return (int)p; }
template <class T> static std::vector<T> gal(const std::vector<T> &a, long g) { int N = a.size(); std::vector<T> o(N, T(0)); for (int i = 0; i < N; i++) { long e = (long)i * g % (2 * N); if (e < N) o[e] = a[i]; else o[e - N] = -a[i]; } return o; }
// slots of an integer polynomial, by definition
static void slots(const std::vector<LD> &m, std::vector<LD> &re, std::vector<LD> &im) { int N = m.size(); re.assign(N / 2, 0); im.assign(N / 2, 0); long f = 1; for (int j = 0; j < N / 2; j++, f = f * 5 % (2 * N)) for (int k = 0; k < N; k++) if (m[k] != 0) { LD t = acosl(-1.0L) / N * (LD)(f * k % (2 * N)); re[j] += m[k] * cosl(t); im[j] += m[k] * sinl(t); } }
template <int N> static void keys_() {   // integer keys
    std::vector<K> ks = keys(N, 1); K id(N); for (int i = 0; i < N; i++) id[i] = i + 1; ks.push_back(id); for (int i = 0; i < N; i++) id[i] = (int)((long)i * i % 1000) - 500; ks.push_back(id); static int s[N], o[N], o2[N], o3[N];
    int R = N <= 64 ? 2 * N + 3 : 0; std::vector<int> rs; for (int r = 0; r <= R; r++) rs.push_back(r); if (!R) rs = {0, 1, 2, 3, N / 4, N / 2 - 1, N / 2, N / 2 + 1, N, N + 7, 3 * N};
    for (auto &k : ks) { memcpy(s, k.data(), sizeof s);
        for (int r : rs) { memset(o, 0x5a, sizeof o); at("rot key", N, r); rot<N>(s, o, r); step(); trace(); K w = gal(k, gpow(r, N)); state(hash(N, r, hbytes(s, sizeof s))); MC_CHECK(!memcmp(o, w.data(), sizeof o), "rot<%d>(key %s, r=%d) = %s want %s", N, KS(k).c_str(), r, KS(K(o, o + N)).c_str(), KS(w).c_str()); MC_CHECK(!memcmp(s, k.data(), sizeof s), "rot<%d> changed the key", N);
            if (R && N <= 16) for (int q : {0, 1, N / 2 - 1, N / 2, 3}) { rot<N>(o, o2, q); rot<N>(s, o3, r + q); step(2); MC_CHECK(!memcmp(o2, o3, sizeof o2), "rot<%d> by %d after %d is not rot by %d", N, q, r, r + q); rot<N>(s, o3, (r + q) % (N / 2 ? N / 2 : 1)); step(); MC_CHECK(!memcmp(o2, o3, sizeof o2), "rot<%d> by %d is not rot by its residue modulo N/2", N, r + q); } }
        memset(o, 0x5a, sizeof o); rot<N>(s, o); step(); K w = gal(k, 5); MC_CHECK(!memcmp(o, w.data(), sizeof o), "single-step rot<%d>(key %s) = %s want %s", N, KS(k).c_str(), KS(K(o, o + N)).c_str(), KS(w).c_str());
        memset(o, 0x5a, sizeof o); conj<N>(s, o); step(); trace(); w = gal(k, 2L * N - 1); MC_CHECK(!memcmp(o, w.data(), sizeof o), "conj<%d>(key %s) = %s want %s", N, KS(k).c_str(), KS(K(o, o + N)).c_str(), KS(w).c_str()); MC_CHECK(!memcmp(s, k.data(), sizeof s), "conj<%d> changed the key", N); conj<N>(o, o2); step(); MC_CHECK(!memcmp(o2, s, sizeof s), "conj<%d> twice is not the identity", N); }
    bound("integer keys N=%d: %zu keys x %zu rotation amounts", N, ks.size(), rs.size());
}
template <int L, int N> static void poly_(int rmax) {
    static R_Q<L, N> a, o, p; auto ps = polys(L, N, 1); P id(N); for (int i = 0; i < N; i++) id[i] = center(I(i + 1) * (i % 2 ? -1 : 1), pow2(L)); ps.push_back(id); const I Q = pow2(L);
    for (auto &q : ps) { pset(a, q); u64 h = phash(a);
        for (int r = 0; r <= rmax; r++) { int rr = r <= N + 1 || N <= 32 ? r : r * 17; for (int i = 0; i < N; i++) memset(o[i].data, r & 1 ? 0xff : 0, sizeof o[i].data); at("rot", L, N, rr); rot<L, N>(a, o, rr); step(); trace(); state(hash(h, rr, L)); P w = pmod(gal(q, gpow(rr, N)), Q); MC_CHECK(pmod(pval(o), Q) == w && pcanon(o), "rot<%d,%d> by %d of %s = %s want %s", L, N, rr, PS(q).c_str(), PS(pval(o)).c_str(), PS(w).c_str()); MC_CHECK(phash(a) == h, "rot<%d,%d> changed its input", L, N); }
        rot<L, N>(a, o); step(); MC_CHECK(pmod(pval(o), Q) == pmod(gal(q, 5), Q), "rot<%d,%d> with the default amount is not one step", L, N);
        for (int i = 0; i < N; i++) memset(o[i].data, 0xff, sizeof o[i].data); at("conj", L, N); conj<L, N>(a, o); step(); trace(); P w = pmod(gal(q, 2L * N - 1), Q); MC_CHECK(pmod(pval(o), Q) == w && pcanon(o), "conj<%d,%d> of %s = %s want %s", L, N, PS(q).c_str(), PS(pval(o)).c_str(), PS(w).c_str()); MC_CHECK(phash(a) == h, "conj<%d,%d> changed its input", L, N); conj<L, N>(o, p); step(); MC_CHECK(phash(p) == h, "conj<%d,%d> twice is not the identity", L, N); }
    bound("polynomials LOGQ=%d N=%d: %zu values x %d rotations", L, N, ps.size(), rmax + 1);
}
template <int LOGN> static void slots_() {   // meaning on slots: by the definition and through the library's decoder
    const int N = 1 << LOGN, L = 90; static R_Q<L, N> a, o; static double zr[N / 2], zi[N / 2], wr[N / 2], wi[N / 2]; std::vector<P> ps; for (int k = 0; k < N; k += N <= 32 ? 1 : 5) { P p(N, I(0)); p[k] = 1000000; ps.push_back(p); } { P p(N); for (int i = 0; i < N; i++) p[i] = (i * 7919) % 1000 - 500; ps.push_back(p); }
    for (auto &q : ps) for (int r = 0; r <= N + 1; r += N <= 16 ? 1 : N / 8 + 1) { pset(a, q); rot<L, N>(a, o, r); step(); trace(); state(hash(LOGN, r, phash(a))); std::vector<LD> x(N), y(N), xr, xi, yr, yi; P ov = pval(o); for (int i = 0; i < N; i++) { x[i] = (LD)(double)q[i]; y[i] = (LD)(double)ov[i]; } slots(x, xr, xi); slots(y, yr, yi);
        decode<L, LOGN>(a, 1 << 10, zr, zi); decode<L, LOGN>(o, 1 << 10, wr, wi); step(2);
        for (int i = 0; i < N / 2; i++) { int j = (i + r) % (N / 2); MC_CHECK(fabsl(yr[i] - xr[j]) + fabsl(yi[i] - xi[j]) < 1e-6L * N, "rot<%d,%d> by %d: slot %d of the result is not slot %d", L, N, r, i, j); MC_CHECK(fabs(wr[i] - zr[j]) + fabs(wi[i] - zi[j]) < 1e-8 * N, "rot<%d,%d> by %d: decoded slot %d of the result is not decoded slot %d", L, N, r, i, j); }
        if (r == 0) { conj<L, N>(a, o); ov = pval(o); for (int i = 0; i < N; i++) y[i] = (LD)(double)ov[i]; slots(y, yr, yi); decode<L, LOGN>(o, 1 << 10, wr, wi); step(2); for (int i = 0; i < N / 2; i++) MC_CHECK(fabsl(yr[i] - xr[i]) + fabsl(yi[i] + xi[i]) < 1e-6L * N && fabs(wr[i] - zr[i]) + fabs(wi[i] + zi[i]) < 1e-8 * N, "conj<%d,%d>: slot %d is not conjugated", L, N, i); } }
    // floating-point twin
    static SimplePlaintext<LOGN> sa, so, s1; for (auto &q : ps) for (int r = 0; r <= N + 1; r += N <= 16 ? 1 : N / 8 + 1) { for (int i = 0; i < N; i++) { sa[i] = (double)q[i] + 0.5 * (i % 2); so[i] = 1e99; } std::vector<double> v(sa.data, sa.data + N), w = gal(v, gpow(r, N)); at("SimplePlaintext rotate", LOGN, r); rotate(sa, so, r); step(); trace(); for (int i = 0; i < N; i++) MC_CHECK(so[i] == w[i] && sa[i] == v[i], "SimplePlaintext<%d> rotated by %d: coefficient %d = %g want %g", LOGN, r, i, so[i], w[i]); if (r == 1) { if (once(sa, s1, 0)) for (int i = 0; i < N; i++) MC_CHECK(s1[i] == w[i], "rotate_once<%d> coefficient %d = %g want %g", LOGN, i, s1[i], w[i]); } }
    bound("slots LOGN=%d: %zu polynomials, rotations to N+1, integer and floating-point plaintexts", LOGN, ps.size());
}
template <int L, int N> struct CT {
    typedef R_Q_square<L, N> C; std::unique_ptr<R_Q_square<2 * L, N>> w{new R_Q_square<2 * L, N>}; std::unique_ptr<C> a{new C}, b{new C}; const I Q = pow2(L), QQ = pow2(2 * L); int n = 0;
    I key(const int *f, const int *s) { HEAAN<L, N>::swkgen(f, s, *w); K t(s, s + N); P d = rdec(*w, t); I es = 0; for (int i = 0; i < N; i++) { I e = center(d[i] - (I(f[i]) << L), QQ); if (e < 0) e = -e; MC_CHECK(e <= 8, "switching key <%d,%d> has noise %s", L, N, S(e).c_str()); es += e; } return es; }
    void one(const K &s, int r, const std::vector<P> &ps, size_t off, size_t cnt) {   // r<0: conjugation
        int k[N], kr[N]; memcpy(k, s.data(), sizeof k); long g = r < 0 ? 2L * N - 1 : gpow(r, N); if (r < 0) conj<N>(k, kr); else rot<N>(k, kr, r); I es = key(kr, k); step(2); u64 hw = chash(*w);
        for (size_t i = 0; i < cnt; i++) { const P &x = ps[(off + i * 3) % ps.size()], &y = ps[(off * 5 + i) % ps.size()]; cset(*a, x, y); u64 h = chash(*a); junk(*b, n++ % 2 ? 0xff : 0); P want = pmod(gal(rdec(*a, s), g), Q);
            at(r < 0 ? "conj ct" : "rot_ct", L, N, r); if (r < 0) conj<L, N>(*a, *w, *b); else rot_ct<L, N>(*a, r, *w, *b); step(); trace(); state(hash(h, r, hw)); MC_CHECK(chash(*a) == h && chash(*w) == hw, "ciphertext rotation/conjugation<%d,%d> changed an input", L, N); MC_CHECK(pcanon((*b)[0]) && pcanon((*b)[1]), "rotation/conjugation<%d,%d> wrote a non-canonical coefficient", L, N);
            I m = maxdiff(rdec(*b, s), want, Q); MC_CHECK(2 * m <= 2 * es + 1 + wt(s), "%s<%d,%d> by %d, key %s, of (%s,%s): off by %s with total key noise %s", r < 0 ? "conj" : "rot_ct", L, N, r, KS(s).c_str(), PS(x).c_str(), PS(y).c_str(), S(m).c_str(), S(es).c_str()); outcome(hash((u64)m, r + 1));
            // without switching: decrypts exactly under the mapped key
            C c; for (int z = 0; z < 2; z++) { if (r < 0) conj<L, N>((*a)[z], c[z]); else rot<L, N>((*a)[z], c[z], r); } step(2); MC_CHECK(rdec(c, K(kr, kr + N)) == want, "mapped ciphertext<%d,%d> (r=%d) does not decrypt under the mapped key", L, N, r); }
    }
    void all(size_t cnt, int rmax) { env().reset(7); auto ps = polys(L, N, 1); auto ks = keys(N, 0); size_t o = 0; for (auto &s : ks) for (int r = -1; r <= rmax; r++) one(s, r, ps, o++, cnt); bound("ciphertexts LOGQ=%d N=%d: %zu keys x rotations 0..%d and conjugation x %zu ciphertexts", L, N, ks.size(), rmax, cnt); }
    // zero-noise switching keys expose the rounding bound
    void seeds(int cnt) { auto ps = polys(L, N, 1); K s(N, 1); s[0] = -1; for (int t = 0; t < cnt; t++) { env().reset(500 + t); one(s, t % (N + 1) - 1, ps, t, 5); } }
};
// every rotation amount (small and middle N), a dense set of amounts (large N): integer keys, polynomials, floating-point plaintexts
template <int G> static void amounts() {
    const int N = 1 << G, L = 60; static R_Q<L, N> a, o; static SimplePlaintext<G> sa, so; static int s[N], t[N]; std::vector<int> rs; const int F = N <= 2048 ? N + 2 : N <= 8192 ? 400 : 140;
    for (int r = 0; r < F; r++) rs.push_back(r); for (int d : {N / 8, N / 4, 3 * (N / 8), N / 2, 5 * (N / 8), N, 2 * N}) for (int k = -3; k <= 3; k++) if (d + k >= F) rs.push_back(d + k); for (int r = F; r < N; r += N / 64 + 1) rs.push_back(r); for (int b = 1; b < 2 * N; b *= 2) if (b >= F) rs.push_back(b + 1);
    std::vector<int> dst(N); for (int i = 0; i < N; i++) { s[i] = i % 2 ? -i - 1 : i + 1; sa[i] = s[i] * 0.5; a[i].setzero(); a[i][0] = (u64)(long)s[i] & ((1ull << L) - 1); }
    for (int r : rs) { at("rotation amounts", G, r); rot<N>(s, t, r); for (int i = 0; i < N; i++) o[i].setzero(), o[i][0] = ~0ull; rot<L, N>(a, o, r); bool fl = (long)r * N < 1500000 || (N <= 16384 && r % 199 == 3); if (fl) { for (int i = 0; i < N; i++) so[i] = 1e99; rotate(sa, so, r); } step(3); trace(); state(hash(N, r)); long g = gpow(r, N), e = 0;
        for (int i = 0; i < N; i++) { int p = e < N ? e : e - N; long v = e < N ? s[i] : -s[i]; MC_CHECK(t[p] == v && (!fl || so[p] == v * 0.5) && o[p][0] == ((u64)v & ((1ull << L) - 1)), "rot<N=%d> by %d: coefficient %d (of X^%d) is %d in the key, %g in the floating-point plaintext, 0x%lx in the polynomial, want %ld", N, r, p, i, t[p], fl ? so[p] * 2 : 0, (unsigned long)o[p][0], v); e = (e + g) % (2L * N); }
        for (int i = 0; i < N; i += 97) MC_CHECK(s[i] == (i % 2 ? -i - 1 : i + 1) && sa[i] == s[i] * 0.5 && a[i][0] == ((u64)(long)s[i] & ((1ull << L) - 1)), "rot<N=%d> by %d changed its input", N, r); }
    bound("N=%d: %zu rotation amounts, every coefficient, three representations", N, rs.size());
}
template <int L> struct AllL { static void go() { poly_<L, 4>(5); } };
template <int L> struct AllC { static void go() { CT<L, 2> c; c.all(6, 3); c.seeds(30); } };
#if PART == 0
SCEN(int_keys, 0) { keys_<2>(); keys_<4>(); keys_<8>(); keys_<16>(); keys_<64>(); keys_<512>(); keys_<8192>(); keys_<65536>(); sample("X -> X^(5^r) on the key (1,2,...,N) for r to 3N"); }
SCEN(all_amounts, 0) { amounts<3>(); amounts<6>(); amounts<9>(); amounts<10>(); amounts<11>(); amounts<12>(); amounts<13>(); amounts<14>(); sample("N=2048: every amount from 0 to N+1"); }
SCEN(all_amounts_b, 0) { amounts<15>(); amounts<16>(); amounts<17>(); }
SCEN(polys_n, 0) { poly_<60, 2>(9); poly_<60, 8>(20); poly_<64, 16>(36); poly_<65, 32>(70); poly_<128, 64>(70); poly_<33, 512>(20); poly_<60, 8192>(3); poly_<64, 1024>(7); poly_<60, 2048>(5); poly_<1450, 512>(2); poly_<65, 32768>(1); poly_<30, 65536>(1); poly_<20, 131072>(1); poly_<1450, 8>(12); poly_<3051, 2>(5); }
#elif PART == 1
SCEN(slot_maps, 0) { slots_<2>(); slots_<3>(); slots_<4>(); slots_<5>(); slots_<7>(); slots_<9>(); sample("slot i of the rotation by r is slot i+r, from the definition in long double and through decode"); }
#elif PART == 4
SCEN(polys_l, 0) { each_t<AllL>(Range<1, 70>()); }
#elif PART == 5
SCEN(polys_l, 0) { each_t<AllL>(Range<71, 135>()); }
#elif PART == 6
SCEN(polys_l, 0) { each_t<AllL>(Range<136, 200>()); }
#elif PART == 2
SCEN(ct_prec, 0) { each_t<AllC>(List<1, 2, 5, 8, 16, 20, 30, 31, 32, 33, 40, 48, 59, 60, 61, 62, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129, 160, 192>()); }
#elif PART == 3
SCEN(ct_sizes, 0) { { CT<60, 4> c; c.all(8, 9); c.seeds(40); } { CT<64, 8> c; c.all(5, 17); } { CT<40, 16> c; c.all(3, 20); } { CT<65, 4> c; c.all(6, 5); c.seeds(20); } { CT<640, 4> c; c.all(3, 5); } { CT<1450, 4> c; c.all(2, 3); } { CT<130, 32> c; env().reset(1); auto ps = polys(130, 32, 0); auto ks = keys(32, 0); for (int r : {-1, 0, 1, 7, 15, 16, 17, 33}) c.one(ks[ks.size() - 1], r, ps, r + 1, 3); } }
template <int L, int N> static void large() { CT<L, N> c; env().reset(1); auto ps = polys(L, N, 0); K s(N); for (int i = 0; i < N; i++) s[i] = i % 3 - 1; for (int r : {-1, 1, N / 2 - 1}) c.one(s, r, ps, r + 1, 1); bound("LOGQ=%d N=%d", L, N); }
SCEN(large_ct, 0) { large<60, 256>(); large<110, 128>(); large<60, 1024>(); large<640, 512>(); }
SCEN(large_ct2, 0) { large<65, 2048>(); large<60, 4096>(); large<130, 2048>(); large<1450, 512>(); }
SCEN(large_ct3, 0) { large<1450, 1024>(); large<60, 8192>(); }
#endif
}
MC_MAIN
