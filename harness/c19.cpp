// C19: CoeffToSlot / SlotToCoeff against the definition, over keys, inputs and call sequences.
#include "hef.h"
#include "HEAAN/bootstrap.h"
#include <sys/wait.h>
namespace mc {
#ifndef PART
#define PART 0
#endif
template <int L, int G, int LD_, int GR> struct T {
    static const int N = 1 << G, M = N / 2, ST = (G - 1) / GR; typedef R_Q_square<L, N> C;
    std::unique_ptr<C> a{new C}, b{new C}, o{new C}; C *p = new C[2]; int n = 0, sk[N]; K s; LD mul = 1;
    void key(const K &k) { s = k; memcpy(sk, s.data(), sizeof sk); }
    // slot error (unscaled, before the last division) after ST grouped matrices with at most two entries per row and factor, each at most c
    LD err(LD z, LD lg, LD c) { LD e = 0, terms = powl(3, GR), row = powl(2 * c, GR); for (int t = 0; t < ST; t++) { e = (e + N * ksb(N, s)) * (row * exp2l(LD_) + terms * 0.51L * N) + (terms * 0.51L * N + 1e-14L * row * exp2l(LD_)) * z * exp2l(lg); z *= row; lg += LD_; } return e; }
    void cts(const P &m, u64 seed, int noise = 0) {   // m: integer coefficients
        renc(*a, m, s, seed, noise); P d = rdec(*a, s); Z z = zslots(d, 0); LD zm = std::max<LD>(zmax(z), 1); u64 h = hash(chash(*a), hbytes(sk, sizeof sk)); state(hash(h, 1)); junk(p[0], n % 3 ? 0xff : 0); junk(p[1], n % 2 ? 0xa5 : 0); n++;
        at("CoeffToSlot", L, G, LD_, GR, n); CoeffToSlot<L, G, LD_, GR>(*a, sk, p); step(); trace();
        MC_CHECK(h == hash(chash(*a), hbytes(sk, sizeof sk)), "CoeffToSlot<%d,%d,%d,%d> changed an input", L, G, LD_, GR);
        LD cm = 0; for (auto &x : d) cm = std::max(cm, fabsl(toLD(x))); LD lg = (LD)LD_ * ST, ce = (2 * err(zm, 0, powl(N, -1.0L / (G - 1))) + 2 * N * ksb(N, s)) * mul, t = ce * exp2l(-lg) + 1e-12L * N * zm;
        for (int k = 0; k < 2; k++) { MC_CHECK(pcanon(p[k][0]) && pcanon(p[k][1]), "CoeffToSlot wrote a non-canonical coefficient"); Z got = zslots(rdec(p[k], s), lg), w(M); for (int i = 0; i < M; i++) w.r[i] = toLD(d[k * M + brev(i, G - 1)]); LD df = zdiff(got, w);
            MC_CHECK(df <= t, "CoeffToSlot<%d,%d,%d,G=%d> key %s of plaintext %s: part %d has slots %s want %s (off by %Lg, bound %Lg; call %d)", L, G, LD_, GR, KS(s).c_str(), PS(d).c_str(), k, ZS(got).c_str(), ZS(w).c_str(), df, t, n); }
        MC_CHECK(cm < 1000 || t < 2e-2L * cm, "harness: CoeffToSlot<%d,%d,%d,%d> tolerance %Lg against %Lg", L, G, LD_, GR, t, cm);
    }
    void stc(const V &w0, const V &w1, LD lg, u64 seed, bool aliased = false) {   // real slots
        Z z0(M), z1(M); z0.r = w0; z1.r = w1; P m0 = zpoly(z0, lg), m1 = zpoly(z1, lg); renc(*a, m0, s, seed); if (aliased) { m1 = m0; } renc(*b, m1, s, seed + 77); Z y0 = zslots(m0, lg), y1 = zslots(m1, lg); u64 h = hash(chash(*a), chash(*b), hbytes(sk, sizeof sk)); state(hash(h, 2)); junk(*o, n % 2 ? 0xff : 0); n++;
        at("SlotToCoeff", L, G, LD_, GR, n); SlotToCoeff<L, G, LD_, GR>(*a, *b, sk, *o); step(); trace();
        MC_CHECK(h == hash(chash(*a), chash(*b), hbytes(sk, sizeof sk)), "SlotToCoeff<%d,%d,%d,%d> changed an input", L, G, LD_, GR); MC_CHECK(pcanon((*o)[0]) && pcanon((*o)[1]), "SlotToCoeff wrote a non-canonical coefficient");
        LD zm = std::max(zmax(y0), zmax(y1)), ce = (err(zm, lg, 1) * 2) * mul, sc = lg + (LD)LD_ * ST; LD t = ce * exp2l(-sc) + 1e-12L * N * (1 + zm) + M * exp2l(-lg); P d = rdec(*o, s); LD df = 0; V g(N), w(N); for (int i = 0; i < M; i++) { int j = brev(i, G - 1); w[j] = y0.r[i]; w[M + j] = y1.r[i]; }
        for (int i = 0; i < N; i++) { g[i] = toLD(d[i]) * exp2l(-sc); LD e = fabsl(g[i] - w[i]); if (!(e <= df)) df = e; }
        std::string gs, ws; for (int i = 0; i < N && i < 16; i++) { gs += fmt("%Lg ", g[i]); ws += fmt("%Lg ", w[i]); }
        MC_CHECK(df <= t, "SlotToCoeff<%d,%d,%d,G=%d> key %s: coefficients %s want %s (off by %Lg, bound %Lg; call %d)", L, G, LD_, GR, KS(s).c_str(), gs.c_str(), ws.c_str(), df, t, n);
        MC_CHECK(zm < 0.1 || t < 2e-2L * zm, "harness: SlotToCoeff<%d,%d,%d,%d> tolerance %Lg against %Lg", L, G, LD_, GR, t, zm);
    }
    // CoeffToSlot then SlotToCoeff without rescaling: the plaintext grown by both scales
    void round(const P &m, u64 seed) {
        cts(m, seed); P d = rdec(*a, s); LD cm = 0; for (auto &x : d) cm = std::max(cm, fabsl(toLD(x))); junk(*o, 0xff); at("SlotToCoeff after CoeffToSlot", L, G, LD_, GR, n); SlotToCoeff<L, G, LD_, GR>(p[0], p[1], sk, *o); step(); trace(); LD sc = 2.0L * LD_ * ST; P g = rdec(*o, s); LD df = 0; for (int i = 0; i < N; i++) { LD e = fabsl(toLD(g[i]) * exp2l(-sc) - toLD(d[i])); if (!(e <= df)) df = e; }
        MC_CHECK(df <= 1e-3L * cm + 65536, "SlotToCoeff(CoeffToSlot)<%d,%d,%d,G=%d> key %s of %s is off by %Lg", L, G, LD_, GR, KS(s).c_str(), PS(d).c_str(), df);
    }
    P poly(int q, int b) { P m(N, I(0)); I x = pow2(b) - 12345; if (q < N) { m[q] = q % 2 ? -x : x; return m; } for (int i = 0; i < N; i++) switch (q - N) { case 0: m[i] = x; break; case 1: m[i] = i % 2 ? x : -x; break; case 2: m[i] = i < M ? x : I(0); break; case 3: m[i] = x * (i * 7 % 11 - 5) / 5; break; case 4: m[i] = 0; break; default: m[i] = x * ((int)(hash(i, q) % 2001) - 1000) / 1000; } return m; }
    V vec(int q, int part) { V v(M, 0); if (q < 2 * M) { if (q / M == part) v[q % M] = q % 2 ? -1 : 1; return v; } for (int i = 0; i < M; i++) switch (q - 2 * M) { case 0: v[i] = 1; break; case 1: v[i] = i % 2 ? 1 : -1; break; case 2: v[i] = part ? 0 : 0.5; break; case 3: v[i] = 0; break; default: v[i] = ((int)(hash(i, q, part) % 2001) - 1000) / 1000.0; } return v; }
    void all(int bits, int stride = 1) {
        auto ks = keys(N, 0); env().reset(G * 10 + GR); int c = 0;
        for (int q = 0; q < N + 8; q += q < N ? stride : 1) { key(ks[c % ks.size()]); cts(poly(q, bits), q + 1, q % 3 ? 0 : 8); c++; }
        for (int q = 0; q < N + 8; q += q < N ? stride : 1) { key(ks[c * 5 % ks.size()]); stc(vec(q, 0), vec(q, 1), bits, q + 3, q % 7 == 6); c++; }
        bound("LOGQ=%d LOGN=%d LOGDELTA=%d grouping %d: %s unit coefficients and slots, 8 dense ones, %zu keys in rotation", L, G, LD_, GR, stride == 1 ? "all" : "strided", ks.size());
    }
    void small(int bits) { auto ks = keys(N, 0); for (auto &k : ks) for (int q = N; q < N + 6; q++) { key(k); cts(poly(q, bits), q); stc(vec(q, 0), vec(q, 1), bits, q); } bound("LOGQ=%d LOGN=%d LOGDELTA=%d grouping %d: every key of %zu with 6 dense plaintexts", L, G, LD_, GR, ks.size()); }
    void rounds(int bits) { auto ks = keys(N, 0); int c = 0; for (int q = 0; q < N + 8; q++) { key(ks[c++ % ks.size()]); round(poly(q, bits), q); } bound("LOGQ=%d LOGN=%d LOGDELTA=%d grouping %d: round trip of all unit and 8 dense plaintexts", L, G, LD_, GR); }
};
// every sequence of calls up to a depth, each from a fresh process
template <class... Ts> static void sequences(int depth, int bits) {
    constexpr int W = sizeof...(Ts); int ops = W * 4; std::vector<int> seq; long runs = 0;
    auto exec = [&](int op, int i) { int w = op / 4, k = op & 1, f = op >> 1 & 1, j = 0; auto call = [&](auto *tp) { typedef std::remove_pointer_t<decltype(tp)> X; if (j++ != w) return; X t; auto ks = keys(t.N, 0); t.key(ks[k ? 12 % ks.size() : 0]); int q = t.N + 5 + (i + op) % 3; if (f) t.stc(t.vec(q, 0), t.vec(q, 1), bits, i + 5); else t.cts(t.poly(q, bits), i + 9); }; (call((Ts *)nullptr), ...); };
    std::function<void()> dfs = [&]() {
        if (seq.size()) { fflush(stdout); int pf[2]; if (pipe(pf)) fail("pipe"); pid_t p = fork(); if (!p) { close(pf[0]); dup2(pf[1], 2); env().reset(3); run().out = "/dev/stderr"; for (size_t i = 0; i < seq.size(); i++) exec(seq[i], i); _exit(0); }
            close(pf[1]); std::string e; char b[4096]; ssize_t r; while ((r = read(pf[0], b, sizeof b)) > 0) e.append(b, r); close(pf[0]); int st; waitpid(p, &st, 0); runs++; trace(); step(seq.size()); state(hbytes(seq.data(), 4 * seq.size()));
            if (st) { std::string d; for (int o : seq) d += fmt("%d,", o); fail("call sequence %s from a fresh process: status %d %s", d.c_str(), st, e.substr(0, 3000).c_str()); } }
        if ((int)seq.size() == depth) return; for (int o = 0; o < ops; o++) { seq.push_back(o); dfs(); seq.pop_back(); }
    };
    dfs(); bound("all %ld sequences of up to %d calls out of %d (%d instances x {CoeffToSlot, SlotToCoeff} x 2 keys), each from a fresh process", runs, depth, ops, W);
}
#if PART == 0
SCEN(g2, 0) { { T<120, 2, 40, 1> t; t.all(40); t.small(40); } { T<200, 2, 50, 1> t; t.rounds(40); } sample("LOGN=2: plaintext 2^40*X^3, all-ones key"); }
SCEN(g3, 0) { { T<170, 3, 50, 1> t; t.all(40); t.small(40); } { T<128, 3, 50, 2> t; t.all(40); t.small(40); } }
#elif PART == 1
SCEN(g4, 0) { { T<220, 4, 50, 1> t; t.all(40); } { T<129, 4, 50, 3> t; t.all(40); } { T<340, 4, 45, 1> t; t.rounds(40); } }
#elif PART == 2
SCEN(g5, 0) { { T<270, 5, 50, 1> t; t.all(40, 1); } { T<165, 5, 50, 2> t; t.all(40, 1); } { T<120, 5, 50, 4> t; t.all(40, 1); } }
#elif PART == 3
SCEN(seqs, 0) { sequences<T<128, 3, 50, 2>, T<110, 2, 40, 1>>(tier() ? 4 : 3, 40); sample("StC(k1), CtS(k2), StC(k2) from a fresh process"); }
#elif PART == 4
SCEN(g6, 0) { { T<310, 6, 50, 1> t; t.all(40, 3); } { T<210, 6, 30, 1> t; t.all(40, 4); } }
#elif PART == 5
SCEN(g7, 0) { { T<190, 7, 45, 3> t; t.all(40, 11); } { T<320, 7, 45, 1> t; t.all(40, 63); } }
SCEN(lowscale, 0) { { T<140, 4, 30, 1> t; t.all(40, 3); } { T<100, 5, 25, 2> t; t.all(40, 5); } }
SCEN(g8, 0) { T<380, 8, 48, 1> t; t.all(40, 300); }
#elif PART == 7
SCEN(g9, 0) { { T<165, 9, 50, 4> t; t.all(40, 600); } { T<270, 9, 50, 2> t; t.all(40, 600); } sample("LOGN=9, factors grouped by 4"); }
#elif PART == 8
SCEN(g10, 0) { { T<215, 10, 50, 3> t; t.all(40, 2000); } }
#elif PART == 9
SCEN(g10_one, 0) { { T<520, 10, 48, 1> t; t.all(40, 2000); } }
SCEN(g11, 1) { { T<320, 11, 50, 2> t; t.all(40, 4000); } }
#elif PART == 6
SCEN(deep, 1) { { T<350, 7, 50, 1> t; t.all(40, 9); } { T<215, 7, 50, 2> t; t.all(40, 9); } { T<310, 6, 50, 1> t; t.all(40, 1); } }
SCEN(deep9, 1) { { T<270, 9, 50, 2> t; t.all(40, 101); } { T<165, 9, 50, 4> t; t.all(40, 150); } }
#endif
}
MC_MAIN
