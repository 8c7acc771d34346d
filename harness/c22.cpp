// C22: the two bootstrapping pipelines composed from the library's operations, as its end-to-end test composes them.
#include "hef.h"
#include "HEAAN/bootstrap.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int G, int DC, int DS, int GR, int REST, int q0 = 60, int DM = 50> struct B {
    static const int N = 1 << G, M = N / 2, ST = (G - 1) / GR, DB = q0, L3 = q0 + REST, L2 = L3 + ST * DS, L1 = L2 + 12 * DB, L0 = L1 + ST * DC;   // DM: message scale
    static_assert(L3 > q0, "the result has a larger modulus");
    R_Q_square<q0, N> ct; R_Q_square<L0, N> up, cts[2]; R_Q_square<L1, N> c1[2]; R_Q_square<L2, N> em[2], er[2], sc; R_Q_square<L3, N> out, qi; K s; int sk[N], n = 0; LD wc = 0, wr = 0, wi = 0;
    void key(const K &k) { s = k; memcpy(sk, s.data(), sizeof sk); }
    // both pipelines on the pair (b, a); conv_: whether the CoeffToSlot scale is large enough for the conventional one
    void boot(u64 seed, bool conv_, const char *what) {
        P m = rdec(ct, s); u64 h = hash(chash(ct), hbytes(sk, sizeof sk)); if (!state(h)) return; LD mb = 0; for (auto &x : m) mb = std::max(mb, fabsl(toLD(x)));
        MC_CHECK(mb <= exp2l(DM) * 1.5, "harness: message too large"); env().reset(seed); n++;
        junk(up, n % 2 ? 0xff : 0); at("mod_raise", G, n); mod_raise<q0, L0, N>(ct, up); junk(cts[0], n % 3 ? 0xff : 0); junk(cts[1], n % 5 ? 0xff : 0); at("CoeffToSlot", G, DC, GR, n); CoeffToSlot<L0, G, DC, GR>(up, sk, cts);
        for (int i = 0; i < 2; i++) { at("RS", G, n); RS<L0, L1, N>(cts[i], c1[i]); at("EvalMod", G, n); EvalMod<L1, N, DB, 24>(c1[i], sk, em[i]); }
        step(6); P U = rdec(up, s); LD Imax = 0; for (int i = 0; i < N; i++) Imax = std::max(Imax, fabsl(toLD(U[i] - m[i])) * exp2l(-q0)); wi = std::max(wi, Imax); MC_CHECK(Imax < 24, "harness: multiple of the base modulus too large");
        auto final_ = [&](R_Q_square<L3, N> &o, const char *name, LD tol, LD &w) { MC_CHECK(pcanon(o[0]) && pcanon(o[1]), "%s wrote a non-canonical coefficient", name); P r = rdec(o, s); LD d = 0; int at_ = 0; for (int i = 0; i < N; i++) { LD e = fabsl(toLD(r[i] - m[i])) * exp2l(-DM); if (!(e <= d)) d = e, at_ = i; } w = std::max(w, d); trace(); outcome(hash(chash(o), n));
            MC_CHECK(d <= tol, "%s LOGN=%d LOGq=%d CtS scale 2^%d StC scale 2^%d grouping %d key %s %s, message %s: coefficient %d is off by %Lg of the scale (bound %Lg; largest multiple of q %.2Lf)", name, G, q0, DC, DS, GR, KS(s).c_str(), what, PS(m).c_str(), at_, d, tol, Imax); };
        for (int i = 0; i < 2; i++) { resize(c1[i], er[i]); er[i] -= em[i]; }
        at("SlotToCoeff", G, DS, GR, n); SlotToCoeff<L2, G, DS, GR>(er[0], er[1], sk, sc); RS<L2, L3, N>(sc, qi); resize(up, out); out -= qi; step(5);
        LD big = exp2l(q0 - DM); LD tolr = 1e-8L + big * ((Imax + 1) * N * powl(3, GR) * exp2l(-DS) * 4 * ST); final_(out, "EvalRound bootstrapping", tolr, wr);
        if (conv_) { at("SlotToCoeff", G, DS, GR, n); SlotToCoeff<L2, G, DS, GR>(em[0], em[1], sk, sc); RS<L2, L3, N>(sc, qi); step(2); final_(qi, "conventional bootstrapping", tolr + big * (Imax + 1) * N * powl(3, GR) * exp2l(-DC) * 8 * ST, wc); }
        MC_CHECK(h == hash(chash(ct), hbytes(sk, sizeof sk)), "bootstrapping changed its input");
    }
    Z msg(int q) { Z z(M); for (int i = 0; i < M; i++) { LD a = 2 * PIL * ((q * 3 + i * 5) % 16) / 16; bool on = q < 4 * M ? i == q / 4 : true; if (q >= 4 * M) switch (q - 4 * M) { case 0: a = 0; break; case 1: a = PIL; break; case 2: a = PIL * i; break; case 3: on = false; break; case 4: a = PIL / 2; break; default: a = (int)(hash(i, q) % 1000) * 0.00628L; } else a = PIL / 2 * (q % 4); LD r = on ? 0.999L : 0; z.r[i] = r * cosl(a); z.i[i] = r * sinl(a); } return z; }
    void big(bool conv_, int cases) { auto ks = keys(N, 0); auto ms = polys(q0, N, 0); for (int c = 0; c < cases; c++) { key(ks[c % 2 ? ks.size() - 1 - c : 3 + c]); if (c % 3 == 1) { P m = zpoly(msg(4 * M + 6), DM); cset(ct, psub(m, pmul(pint(s.data(), N), ms[ms.size() - 1])), ms[ms.size() - 1]); } else if (c % 3 == 2) { env().reset(5); R_Q<q0, N> p; pset(p, zpoly(msg(M + 1), DM)); HEAAN<q0, N>::enc(p, sk, ct); } else renc(ct, zpoly(msg(4 * M + 5), DM), s, c + 1, 8); boot(c + 3, conv_, "large ring"); } bound("LOGN=%d LOGq=%d LOGQ=%d->%d CtS 2^%d StC 2^%d grouping %d: %d bootstraps; EvalRound%s; largest errors %.2Lg / %.2Lg of the scale, |I| up to %.2Lf", G, q0, L0, L3, DC, DS, GR, cases, conv_ ? " and conventional" : " only", wr, wc, wi); }
    void all(bool conv_, int stride) {
        auto ks = keys(N, 0); int c = 0; I qh = pow2(q0 - 1); LD nomess = DM;
        for (int q = 0; q < 4 * M + 8; q += stride) { key(ks[c % ks.size()]); renc(ct, zpoly(msg(q), nomess), s, q + 1, c % 3 == 0 ? 8 : 0); boot(q + 3, conv_, "pseudo-random mask"); c++; }
        auto ms = polys(q0, N, 0);   // extreme masks: the multiple of q takes its largest values
        for (size_t k = 0; k < ms.size(); k += stride > 2 ? 2 : 1) { key(ks[(k * 3 + 1) % ks.size()]); P m = zpoly(msg(4 * M + 5 + k % 3), nomess); cset(ct, psub(m, pmul(pint(s.data(), N), ms[k])), ms[k]); boot(k + 40, conv_, "structured mask"); }
        for (auto &k : ks) { key(k); renc(ct, zpoly(msg(4 * M + 6), nomess), s, 77); boot(9, conv_, "every key"); }
        for (int st = 0; st < 3; st++) { key(ks[ks.size() - 1]); env().reset(st); if (st) { env().constant = st == 1 ? 0 : 0x7fffffff; env().const_upto = 1L << 60; } R_Q<q0, N> p; P m = zpoly(msg(st), nomess); pset(p, m); HEAAN<q0, N>::enc(p, sk, ct); boot(st + 5, conv_, "library encryption"); }
        bound("LOGN=%d LOGq=%d LOGQ=%d->%d CtS 2^%d StC 2^%d grouping %d: unit and dense messages (stride %d), %zu structured masks, every key of %zu; EvalRound%s; largest errors %.2Lg / %.2Lg of the scale, |I| up to %.2Lf", G, q0, L0, L3, DC, DS, GR, stride, ms.size(), ks.size(), conv_ ? " and conventional" : " only (small CtS scale)", wr, wc, wi);
    }
};
#define MSGQ(q) (4 * t->M + (q))
#define GO(...) auto t = std::make_unique<B<__VA_ARGS__>>();
#if PART == 0
SCEN(g3_big, 0) { GO(3, 60, 50, 2, 60) t->all(true, 1); sample("LOGN=3 message e_0*i, mask of extreme values"); }
#elif PART == 1
SCEN(g3_small, 0) { GO(3, 22, 60, 1, 100) t->all(false, 1); }
#elif PART == 2
SCEN(g4_big, 0) { GO(4, 60, 60, 3, 68) t->all(true, 2); }
#elif PART == 3
SCEN(g4_small, 0) { GO(4, 25, 50, 1, 120) t->all(false, 2); }
#elif PART == 4
SCEN(g5_small, 0) { GO(5, 22, 50, 2, 90) t->all(false, 6); }
#elif PART == 5
SCEN(g2_big, 0) { GO(2, 60, 60, 1, 200) t->all(true, 1); }
#elif PART == 6
SCEN(g3_q55, 0) { GO(3, 50, 50, 1, 75, 55, 45) t->all(true, 1); }
#elif PART == 7
SCEN(g5_big, 1) { GO(5, 60, 60, 1, 100) t->all(true, 1); }
#elif PART == 8
SCEN(g5_g4, 1) { GO(5, 29, 60, 4, 100) t->all(false, 1); }
#elif PART == 9
SCEN(g6_small, 0) { GO(6, 25, 50, 1, 90) t->big(false, 3); }
#elif PART == 10
SCEN(g7_big, 0) { GO(7, 60, 60, 3, 90) t->big(true, 2); }
#elif PART == 11
SCEN(g9_small, 0) { GO(9, 30, 60, 4, 90) t->big(false, 1); }
#endif
}
MC_MAIN
