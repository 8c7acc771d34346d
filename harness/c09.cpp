// C09: enc/dec correctness, exactness of dec, linear homomorphism over operation sequences.
#include "he.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int L, int N> struct H {
    typedef R_Q_square<L, N> C; typedef R_Q<L, N> R; typedef HEAAN<L, N> E; std::unique_ptr<C> c{new C}; std::unique_ptr<R> m{new R}, d{new R}; const I Q = pow2(L); int n = 0;
    void encdec(const K &s, const P &msg) {
        int k[N]; memcpy(k, s.data(), sizeof k); pset(*m, msg); u64 hm = phash(*m); at("enc", L, N, n); junk(*c, n % 3 == 0 ? 0 : n % 3 == 1 ? 0xff : 0xa5); memset((void *)d.get(), n & 1 ? 0xff : 0, sizeof(R)); n++;
        E::enc(*m, k, *c); step(); MC_CHECK(phash(*m) == hm && !memcmp(k, s.data(), sizeof k), "enc<%d,%d> changed its inputs", L, N);
        MC_CHECK(pcanon((*c)[0]) && pcanon((*c)[1]), "enc<%d,%d> wrote a non-canonical coefficient", L, N);
        u64 hc = chash(*c); E::dec(*c, k, *d); step(); MC_CHECK(chash(*c) == hc, "dec<%d,%d> changed the ciphertext", L, N); trace(); state(hash(hc, hm, hbytes(k, sizeof k)));
        P ref = rdec(*c, s); MC_CHECK(pmod(pval(*d), Q) == ref && pcanon(*d), "dec<%d,%d> with key %s is not ct0 + s*ct1: %s want %s", L, N, KS(s).c_str(), PS(pval(*d)).c_str(), PS(ref).c_str());
        I e = maxdiff(ref, msg, Q); MC_CHECK(e <= 8, "dec(enc(m)) for <%d,%d> key %s message %s is off by %s", L, N, KS(s).c_str(), PS(msg).c_str(), S(e).c_str());
    }
    void decany(const K &s, const P &a, const P &b) {   // any pair, not only encryptions
        int k[N]; memcpy(k, s.data(), sizeof k); cset(*c, a, b); memset((void *)d.get(), n++ & 1 ? 0xff : 0, sizeof(R)); at("dec", L, N, n); E::dec(*c, k, *d); step(); trace(); state(hash(chash(*c), hbytes(k, sizeof k)));
        P ref = rdec(*c, s); MC_CHECK(pmod(pval(*d), Q) == ref && pcanon(*d), "dec<%d,%d> with key %s of (%s,%s): %s want %s", L, N, KS(s).c_str(), PS(a).c_str(), PS(b).c_str(), PS(pval(*d)).c_str(), PS(ref).c_str());
    }
    // random source: every call index overridden with extreme answers, constant sources
    void sources(const K &s, const P &msg) {
        env().reset(1); encdec(s, msg); long nc = env().calls; long st = 1 + nc / 300;
        for (long i = 0; i < nc; i += (i % 7 == 0 ? st : 1) > st ? st : st) for (int v : {0, 1, 8, 9, 17, 0x7fffffff}) { env().reset(1); env().over[i] = v; encdec(s, msg); }
        for (int c : {0, 1, 7, 8, 9, 17, 0x7fffffff, 0x7ffffffe, 0x55555555}) { env().reset(1); env().constant = c; env().const_upto = 1L << 60; encdec(s, msg); }
        env().reset(2);
    }
    void all(int lvl) {
        env().reset(1); auto ks = keys(N, lvl); auto ps = polys(L, N, lvl);
        for (auto &k : ks) for (auto &p : ps) encdec(k, p);
        size_t q = 0; for (auto &k : ks) for (size_t i = 0; i < ps.size(); i += 1 + ps.size() / 9) decany(k, ps[i], ps[(i * 3 + q++) % ps.size()]);
        sources(ks[0], ps[1]); sources(ks[ks.size() - 1], ps[ps.size() - 1]);
        bound("LOGQ=%d N=%d: %zu keys x %zu messages; every rand() call overridden with 6 answers; 9 constant sources", L, N, ks.size(), ps.size());
    }
    // breadth-first over ciphertext operations from two fresh encryptions
    void sequences(const K &s, int depth, size_t cap) {
        struct St { P x0, x1, y0, y1; }; std::vector<St> fr, nx; HashSet seen; auto ps = polys(L, N, 0); int k[N]; memcpy(k, s.data(), sizeof k);
        auto X = std::make_unique<C>(), Y = std::make_unique<C>(); env().reset(4);
        for (auto pr : {std::make_pair(1, 2), std::make_pair((int)ps.size() - 1, (int)ps.size() - 2)}) { pset(*m, ps[pr.first]); E::enc(*m, k, *X); pset(*m, ps[pr.second]); E::enc(*m, k, *Y); fr.push_back({pval((*X)[0]), pval((*X)[1]), pval((*Y)[0]), pval((*Y)[1])}); }
        const u64 W[] = {2, 3, ~0ull, 1ull << 63, 0, 1ull << 50};
        for (int dd = 0; dd < depth; dd++) { nx.clear(); for (auto &st : fr) for (int op = 0; op < 13; op++) {
            cset(*X, st.x0, st.x1); cset(*Y, st.y0, st.y1); P dx = rdec(*X, s), dy = rdec(*Y, s), ex = dx, ey = dy; at("sequence", L, N, dd, op);
            switch (op) { case 0: *X += *Y; ex = padd(dx, dy); break; case 1: *X -= *Y; ex = psub(dx, dy); break; case 2: *X += *X; ex = padd(dx, dx); break; case 3: *X -= *X; ex = P(N, I(0)); break;
            case 4: *Y -= *X; ey = psub(dy, dx); break; case 5: { C t(*X); *X = *Y; *Y = t; ex = dy; ey = dx; break; } case 6: *Y = *X; ey = dx; break;
            default: *X *= (uint64_t)W[op - 7]; for (auto &v : ex) v *= I(W[op - 7]); }
            step(); E::dec(*X, k, *d); MC_CHECK(peqmod(pval(*d), ex, Q), "<%d,%d> depth %d op %d: decryption %s want %s", L, N, dd, op, PS(pval(*d)).c_str(), PS(pmod(ex, Q)).c_str());
            E::dec(*Y, k, *d); step(2); MC_CHECK(peqmod(pval(*d), ey, Q), "<%d,%d> depth %d op %d: second ciphertext decrypts to %s want %s", L, N, dd, op, PS(pval(*d)).c_str(), PS(pmod(ey, Q)).c_str());
            u64 h = hash(chash(*X), chash(*Y)); if (seen.insert(h)) { state(h); trace(); nx.push_back({pval((*X)[0]), pval((*X)[1]), pval((*Y)[0]), pval((*Y)[1])}); } }
            bound("LOGQ=%d N=%d: operation sequences complete to depth %d (%zu states on the frontier)", L, N, dd + 1, nx.size()); if (nx.size() > cap) break; fr.swap(nx); }
    }
};
template <int L> struct All2 { static void go() { H<L, 2> h; h.all(0); } };
#if PART < 4
SCEN(all_precisions, 0) { each_t<All2>(Range<1 + 33 * PART, 33 + 33 * PART>()); sample("LOGQ=%d N=2: all 9 keys x extremes x every random answer overridden", 5 + 33 * PART); }
#elif PART == 4
SCEN(sizes_a, 0) { H<60, 4>().all(1); H<61, 8>().all(0); H<64, 4>().all(1); H<65, 4>().all(1); H<128, 8>().all(0); H<120, 16>().all(0); }
SCEN(sizes_b, 0) { H<192, 4>().all(0); H<640, 4>().all(0); H<1450, 2>().all(0); H<2900, 2>().all(0); H<3051, 4>().all(0); H<330, 32>().all(0); }
#else
SCEN(sequences, 0) { int dp = tier() ? 5 : 3; size_t cap = tier() ? 60000 : 1500; H<60, 2>().sequences({1, -1}, dp, cap); H<64, 4>().sequences({1, 0, -1, 1}, dp, cap); H<65, 4>().sequences({-1, -1, 0, 1}, dp, cap); H<130, 8>().sequences({1, 0, 0, -1, 0, 1, 1, 0}, dp, cap); H<640, 4>().sequences({0, 1, -1, 0}, dp, cap); sample("enc a, enc b, then += -= *=w copy swap in every order"); }
template <int L, int N> static void large() { H<L, N> h; env().reset(1); auto ks = keys(N, 0); auto ps = polys(L, N, 0); for (size_t i = 0; i < 3; i++) h.encdec(ks[i == 2 ? ks.size() - 1 : 3 + i], ps[(i * 5 + 1) % ps.size()]); h.encdec(ks[ks.size() - 4], ps[ps.size() - 1]); h.decany(ks[0], ps[0], ps[ps.size() - 1]); h.decany(ks[ks.size() - 1], ps[ps.size() - 1], ps[2]); bound("LOGQ=%d N=%d: 4 key/message pairs, 2 foreign pairs", L, N); }
SCEN(large, 0) { large<60, 1024>(); large<120, 512>(); large<1450, 128>(); large<64, 2048>(); }
SCEN(large_b, 0) { large<60, 4096>(); large<65, 8192>(); large<130, 2048>(); large<640, 1024>(); large<1450, 512>(); sample("N=8192, LOGQ=65: enc then dec under dense ternary keys"); }
SCEN(large_c, 0) { large<1450, 1024>(); large<60, 16384>(); large<300, 2048>(); }
#endif
}
MC_MAIN
