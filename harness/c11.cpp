// C11: switching keys and key switching, against reference decryptions over the integers.
#include "he.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int L, int N> struct W {
    typedef R_Q_square<L, N> C; typedef R_Q_square<2 * L, N> SW; typedef HEAAN<L, N> E; std::unique_ptr<SW> w{new SW}; std::unique_ptr<C> c{new C}; const I Q = pow2(L), QQ = pow2(2 * L); int n = 0; u64 lown = 0;
    I esum = 0; K fr, to;
    void gen(const K &f, const K &t) {
        fr = f; to = t; int a[N], b[N]; memcpy(a, f.data(), sizeof a); memcpy(b, t.data(), sizeof b); junk(*w, n++ % 2 ? 0xff : 0); at("swkgen", L, N, n);
        E::swkgen(a, b, *w); step(); trace(); MC_CHECK(!memcmp(a, f.data(), sizeof a) && !memcmp(b, t.data(), sizeof b), "swkgen<%d,%d> changed a key", L, N);
        MC_CHECK(pcanon((*w)[0]) && pcanon((*w)[1]), "swkgen<%d,%d> wrote a non-canonical coefficient", L, N);
        P d = rdec(*w, t); esum = 0; for (int i = 0; i < N; i++) { I e = center(d[i] - (I(f[i]) << L), QQ); if (e < 0) e = -e; MC_CHECK(e <= 8, "swkgen<%d,%d> from %s to %s: coefficient %d is off 2^%d*s by %s", L, N, KS(f).c_str(), KS(t).c_str(), i, L, S(e).c_str()); esum += e; }
        if (esum == 0) lown++; state(hash(chash(*w), hbytes(a, sizeof a), hbytes(b, sizeof b)));
    }
    void sw(const P &x, const P &y) {
        cset(*c, x, y); P d0 = rdec(*c, fr); u64 h = chash(*w); at("ks", L, N, n++); E::ks(*w, *c); step(); trace(); state(hash(h, chash(*c), 7));
        MC_CHECK(chash(*w) == h, "ks<%d,%d> changed the switching key", L, N); MC_CHECK(pcanon((*c)[0]) && pcanon((*c)[1]), "ks<%d,%d> wrote a non-canonical coefficient", L, N);
        I m = maxdiff(rdec(*c, to), d0, Q); MC_CHECK(2 * m <= 2 * esum + 1 + wt(to), "ks<%d,%d> from %s to %s of (%s,%s): decryptions differ by %s with total key noise %s", L, N, KS(fr).c_str(), KS(to).c_str(), PS(x).c_str(), PS(y).c_str(), S(m).c_str(), S(esum).c_str());
        outcome(hash((u64)m, (u64)esum));
    }
    void cts(size_t off, size_t stride) { auto ps = polys(L, N, 1); for (size_t i = off % stride; i < ps.size(); i += stride) sw(ps[(i * 5 + off) % ps.size()], ps[i]); }
    std::vector<K> sources(const K &s) { std::vector<K> r = {s}; r.push_back(K(N, 0)); K r2(N); for (int i = 0; i < N; i++) { r2[i] = 0; for (int k = 0; k < N; k++) { int j = i - k; r2[i] += j >= 0 ? s[k] * s[j] : -s[k] * s[j + N]; } } r.push_back(r2); K c(N); c[0] = s[0]; for (int i = 1; i < N; i++) c[i] = -s[N - i]; r.push_back(c); for (int i = 0; i < N; i++) c[i] = (i % 2 ? -1 : 1) * (i % 5); r.push_back(c); c.assign(N, 0); c[N - 1] = -N; c[0] = 37; r.push_back(c); return r; }
    void all(int lvl, int seeds) {
        env().reset(3); auto ks = keys(N, 0); size_t q = 0;
        for (size_t i = 0; i < ks.size(); i += N <= 2 || lvl ? 1 : 3) { auto src = sources(ks[(i * 7 + 2) % ks.size()]); for (size_t j = 0; j < src.size(); j++) { gen(src[j], ks[i]); cts(q++, lvl ? 3 : 8); } }
        K t(N, 1), f = tern(N, 7); for (int s = 0; s < seeds; s++) { env().reset(100 + s); gen(f, t); cts(q++, 6); }   // reaches zero-noise keys, where only rounding error remains
        for (int cst : {0, 1, 8, 9, 0x7fffffff, 17}) { env().reset(1); env().constant = cst; env().const_upto = 1L << 60; gen(f, t); cts(q++, 4); } env().reset(5);
        bound("LOGQ=%d N=%d: %zu target keys x 6 source polynomials, %d random streams (%llu with zero noise), constant sources", L, N, ks.size(), seeds, (unsigned long long)lown);
    }
};
template <int L> struct All { static void go() { W<L, 2> w; w.all(0, L <= 64 ? 60 : 24); } };
#if PART < 5
SCEN(all_precisions, 0) { each_t<All>(Range<1 + 26 * PART, 26 + 26 * PART>()); sample("LOGQ=%d N=2: switching keys for s, 0, s^2, conj(s), wide integers", 7 + 26 * PART); }
#elif PART == 5
SCEN(sizes_a, 0) { W<60, 4>().all(1, 20); W<64, 4>().all(1, 20); W<65, 4>().all(0, 10); W<32, 8>().all(1, 10); W<61, 8>().all(0, 5); W<30, 16>().all(0, 3); }
#elif PART == 6
SCEN(sizes_b, 0) { W<128, 8>().all(0, 2); W<192, 4>().all(0, 5); W<640, 4>().all(0, 2); W<725, 2>().all(0, 5); W<1450, 2>().all(0, 3); W<1525, 2>().all(0, 3); W<330, 16>().all(0, 1); }
template <int L, int N> static void large() { W<L, N> w; env().reset(1); K t(N, 0), f(N, 0); for (int i = 0; i < N; i++) { t[i] = i % 3 - 1; f[i] = (i * 7 % 5) - 2; } auto ps = polys(L, N, 0); w.gen(f, t); w.sw(ps[5], ps[ps.size() - 1]); w.sw(ps[0], ps[1]); w.sw(ps[1], ps[4]); bound("LOGQ=%d N=%d: one key, 3 ciphertexts", L, N); }
SCEN(large, 0) { large<60, 256>(); large<110, 128>(); large<700, 32>(); }
SCEN(large2, 0) { large<60, 1024>(); large<1450, 128>(); large<640, 512>(); }
SCEN(large3, 0) { large<60, 4096>(); large<128, 2048>(); large<1450, 512>(); large<65, 1024>(); }
SCEN(large4, 0) { large<1450, 1024>(); large<60, 8192>(); }
SCEN(large5, 1) { large<1450, 4096>(); large<130, 16384>(); }
#elif PART == 7
// complete: every ternary source and target, every ciphertext at tiny precision
template <int L, int N> static void complete() { W<L, N> w; u64 n = 1; for (int i = 0; i < N; i++) n *= 3; u64 m = 1ull << (L * N); for (u64 f = 0; f < n; f++) for (u64 t = 0; t < n; t++) { w.gen(tern(N, f), tern(N, t)); for (u64 x = 0; x < m; x++) for (u64 y = 0; y < m; y++) { P a(N), b(N); for (int i = 0; i < N; i++) { a[i] = center(I(x >> (L * i) & ((1 << L) - 1)), pow2(L)); b[i] = center(I(y >> (L * i) & ((1 << L) - 1)), pow2(L)); } w.sw(a, b); } } bound("LOGQ=%d N=%d: every ternary key pair and every ciphertext", L, N); }
SCEN(complete_tiny, 0) { complete<1, 2>(); complete<2, 2>(); complete<3, 2>(); sample("LOGQ=3 N=2: 81 key pairs x 4096 ciphertexts"); }
template <int L> static void shallow() {   // bounds are only visible when the modulus is above the noise
    W<L, 2> w; for (u64 f = 0; f < 9; f++) for (u64 t = 0; t < 9; t++) for (int s = 0; s < 4; s++) { env().reset(s + 50); w.gen(tern(2, f), tern(2, t)); auto v = std::vector<I>{I(0), I(1), I(-1), pow2(L - 1) - 1, -pow2(L - 1), pow2(L - 2), pow2(L / 2), -pow2(L / 2) - 1}; for (auto &a : v) for (auto &b : v) for (auto &c : v) w.sw(P{a, c}, P{b, a}); } bound("LOGQ=%d N=2: 81 key pairs x 4 streams x 512 ciphertexts of 8 values", L); }
template <int L, int N> static void magnitudes(int kmax) { W<L, N> w; env().reset(8); auto ps = polys(L, N, 0); K t(N, 0); t[0] = 1; t[N - 1] = -1; int n = 0;
    for (int k = 1; k <= kmax; k++) for (int d = -1; d <= 1; d++) for (int sg : {1, -1}) for (int pos : {0, N - 1}) { K f(N, 0); f[pos] = sg * ((1 << k) + d); f[(pos + 1) % N] = -sg * (n % 4); w.gen(f, t); w.sw(ps[n % ps.size()], ps[(n * 3 + 1) % ps.size()]); n++; }
    bound("LOGQ=%d N=%d: source coefficients +-(2^k-1, 2^k, 2^k+1) for k<=%d in two places", L, N, kmax); }
SCEN(magnitudes, 0) { magnitudes<64, 2>(16); magnitudes<8, 2>(16); magnitudes<33, 4>(16); magnitudes<130, 2>(14); sample("source coefficient -65537"); }
SCEN(magnitudes_big, 1) { magnitudes<64, 2>(22); magnitudes<60, 8>(20); }
SCEN(grid, 0) { shallow<12>(); shallow<31>(); shallow<32>(); shallow<33>(); shallow<63>(); shallow<64>(); shallow<96>(); }
#endif
}
MC_MAIN
