// C10: randomness of masks and noise, by exhaustive single-bit flips of the random source (GF(2) rank) and value enumeration.
#include "he.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
typedef std::vector<u64> BV;
static int rank_(std::vector<BV> rows, int bits) { int r = 0, w = (bits + 63) / 64; for (int b = 0; b < bits && r < (int)rows.size(); b++) { int p = -1; for (int i = r; i < (int)rows.size(); i++) if (rows[i][b / 64] >> (b % 64) & 1) { p = i; break; } if (p < 0) continue; std::swap(rows[r], rows[p]); for (int i = 0; i < (int)rows.size(); i++) if (i != r && rows[i][b / 64] >> (b % 64) & 1) for (int k = b / 64; k < w; k++) rows[i][k] ^= rows[r][k]; r++; } return r; }
// An encryption-like operation: runs on the current source, gives the mask and the noise.
struct Out { BV mask; std::vector<int> noise; bool operator==(const Out &o) const { return mask == o.mask && noise == o.noise; } };
template <int L, int N> static void bits(const R_Q<L, N> &a, BV &v) { v.assign((L * N + 63) / 64, 0); for (int i = 0; i < N; i++) for (int b = 0; b < L; b++) if (a[i].data[b / 64] >> (b % 64) & 1) { int p = i * L + b; v[p / 64] |= 1ull << (p % 64); } }
struct Op { std::string name; int bits, N; std::function<Out()> run; };
template <int L, int N> static Out finish_(const R_Q_square<L, N> &c, const K &s, const P &m) { Out o; bits(c[1], o.mask); P d = rdec(c, s); for (int i = 0; i < N; i++) { I e = center(d[i] - m[i], pow2(L)); if (e < -100) e = -100; if (e > 100) e = 100; o.noise.push_back((int)e); } return o; }
template <int L, int N> static Op encop(K s, P m) { return {fmt("enc<%d,%d>", L, N), L * N, N, [=] { static R_Q_square<L, N> c; static R_Q<L, N> p; int k[N]; memcpy(k, s.data(), sizeof k); pset(p, m); at("enc", L, N); HEAAN<L, N>::enc(p, k, c); step(); return finish_<L, N>(c, s, m); }}; }
template <int L, int N> static Op swkop(K fr, K to) { return {fmt("swkgen<%d,%d>", L, N), 2 * L * N, N, [=] { static R_Q_square<2 * L, N> c; int a[N], b[N]; memcpy(a, fr.data(), sizeof a); memcpy(b, to.data(), sizeof b); at("swkgen", L, N); HEAAN<L, N>::swkgen(a, b, c); step(); P m(N); for (int i = 0; i < N; i++) m[i] = I(fr[i]) << L; return finish_<2 * L, N>(c, to, m); }}; }
static void base(int b) { Env &e = env(); e.reset(11 + b); if (b == 1) { e.constant = 0; e.const_upto = 1L << 60; } if (b == 2) { e.constant = 0x7fffffff; e.const_upto = 1L << 60; } }
static void uniform(Op &o, std::vector<Op> same, int nbase) {
    for (int b = 0; b < nbase; b++) {
        base(b); env().logv.clear(); env().log = true; Out r0 = o.run(); env().log = false; std::vector<int> v = env().logv; long nc = v.size(); std::vector<BV> rows; std::vector<char> inmask(nc, 0), innoise(nc, 0);
        for (long i = 0; i < nc; i++) for (int k = 0; k < 31; k++) { base(b); env().over[i] = v[i] ^ (1 << k); Out r = o.run(); trace(); BV d = r.mask; bool nz = false; for (size_t j = 0; j < d.size(); j++) { d[j] ^= r0.mask[j]; nz |= d[j] != 0; } state(hash(b, i, k, hbytes(r.mask.data(), 8 * r.mask.size()))); if (nz) { rows.push_back(d); inmask[i] = 1; } if (r.noise != r0.noise) innoise[i] = 1; }
        int rk = rank_(rows, o.bits); MC_CHECK(rk == o.bits, "%s: the mask has only %d of %d independent random bits (source %d)", o.name.c_str(), rk, o.bits, b); outcome(rk);
        for (long i = 0; i < nc; i++) MC_CHECK(!(inmask[i] && innoise[i]), "%s: random answer %ld drives both mask and noise", o.name.c_str(), i);
        for (auto &p : same) { base(b); Out r = p.run(); MC_CHECK(r.mask == r0.mask, "%s: the mask depends on the message or key", o.name.c_str()); trace(); }
        bound("%s source %d: all 31 x %ld single-bit flips, mask rank %d", o.name.c_str(), b, nc, rk);
    }
}
static void noise(Op &o) {
    std::vector<int> vals; for (int k = 0; k < 18; k++) vals.push_back(k); for (int k = 0; k < 18; k++) vals.push_back((int)(119304647L * k + 59652323));
    static const int bs[6] = {0, 3, 4, 5, 6, 7}; base(0); o.run(); long nc = env().calls; std::vector<std::set<long>> dp(o.N); std::vector<std::vector<long>> dep(o.N); std::vector<std::set<int>> hits(nc);   // a sign is invisible when the magnitude is 0: use several base streams
    for (int b : bs) { base(b); Out r0 = o.run(); if (env().calls != nc) continue;
        for (long i = 0; i < nc; i++) for (int v : vals) { base(b); env().over[i] = v; Out r = o.run(); trace(); state(hash(b, i, v, 9)); for (int j = 0; j < o.N; j++) { MC_CHECK(abs(r.noise[j]) <= 8, "%s: noise %d at coefficient %d when random answer %ld is %d", o.name.c_str(), r.noise[j], j, i, v); if (r.noise[j] != r0.noise[j]) { hits[i].insert(j); dp[j].insert(i); } } } }
    for (long i = 0; i < nc; i++) MC_CHECK(hits[i].size() <= 1, "%s: random answer %ld drives the noise of %zu coefficients", o.name.c_str(), i, hits[i].size());
    for (int j = 0; j < o.N; j++) dep[j].assign(dp[j].begin(), dp[j].end());
    for (int j = 0; j < o.N; j++) { auto &D = dep[j]; MC_CHECK(!D.empty(), "%s: noise of coefficient %d is not random", o.name.c_str(), j); std::set<int> got; size_t n = D.size();
        if (n == 1) { for (int v : vals) { base(0); env().over[D[0]] = v; Out r = o.run(); got.insert(r.noise[j]); trace(); } }
        else for (size_t a = 0; a < n; a++) for (size_t b = a + 1; b < n; b++) for (int v : vals) for (int w : vals) { base(0); env().over[D[a]] = v; env().over[D[b]] = w; Out r = o.run(); got.insert(r.noise[j]); trace(); state(hash(j, v, w, a, b)); }
        for (int v : got) MC_CHECK(abs(v) <= 8, "%s: noise %d at coefficient %d", o.name.c_str(), v, j);
        if (n <= 2) for (int v = -8; v <= 8; v++) MC_CHECK(got.count(v), "%s: noise value %d never occurs at coefficient %d", o.name.c_str(), v, j);
        for (int v : got) outcome(hash(j, v)); }
    bound("%s: dependence of every noise coefficient on every random answer; all value combinations of the answers it depends on", o.name.c_str());
}
static void fresh(Op &o, int reps) {
    // the k-th operation's mask and noise come from random answers not used by the earlier ones
    base(0); std::vector<Out> r0; std::vector<long> mark; env().logv.clear(); env().log = true; for (int k = 0; k < 3; k++) { r0.push_back(o.run()); mark.push_back(env().calls); } env().log = false; auto v = env().logv;
    for (long i = 0; i < mark[1]; i++) for (int k : {0, 7, 15, 30}) { base(0); env().over[i] = v[i] ^ (1 << k); int first = i < mark[0] ? 0 : 1; for (int t = 0; t < 3; t++) { Out r = o.run(); MC_CHECK(t == first || r == r0[t], "%s: random answer %ld used by operation %d also drives operation %d", o.name.c_str(), i, first, t); } trace(); state(hash(i, k, 5)); }
    base(0); std::set<BV> seen; for (int k = 0; k < reps; k++) { Out r = o.run(); MC_CHECK(seen.insert(r.mask).second || o.bits < 50, "%s: operation number %d repeats an earlier mask", o.name.c_str(), k + 1); int big = 0; for (int e : r.noise) big += abs(e) > 8; MC_CHECK(!big, "%s: operation number %d has noise beyond 8", o.name.c_str(), k + 1); state(hbytes(r.mask.data(), 8 * r.mask.size(), k)); trace(); }
    bound("%s: answers of operations 1,2 flipped against operations 1..3; %d consecutive masks", o.name.c_str(), reps);
}
// a long life: no mask word is repeated however many operations ran, and the noise of no coefficient gets stuck
static void life(Op o, long reps, int dl) {
    base(0); std::unordered_set<u64> seen, word; std::vector<std::vector<int>> last(o.N); const int W = 24; if (dl < 60 || dl > 64) fail("life: precision");
    for (long k = 0; k < reps; k++) { Out r = o.run(); trace(); u64 h = hbytes(r.mask.data(), 8 * r.mask.size()); MC_CHECK(seen.insert(h).second, "%s: operation number %ld repeats an earlier mask", o.name.c_str(), k + 1); state(hash(h, k));
        for (int i = 0; i < o.N; i++) { u64 w = 0; for (int b = 0; b < dl; b++) { long q = (long)i * dl + b; w |= (r.mask[q / 64] >> (q % 64) & 1) << (b % 64); } MC_CHECK(word.insert(w).second, "%s: operation number %ld repeats a mask coefficient", o.name.c_str(), k + 1); }
        for (int j = 0; j < o.N; j++) { MC_CHECK(abs(r.noise[j]) <= 8, "%s: operation number %ld has noise %d", o.name.c_str(), k + 1, r.noise[j]); last[j].push_back(r.noise[j]); if ((int)last[j].size() == W) { bool v = false; for (int x : last[j]) v |= x != last[j][0]; MC_CHECK(v, "%s: the noise of coefficient %d is %d in %d operations in a row (up to number %ld)", o.name.c_str(), j, last[j][0], W, k + 1); last[j].clear(); } } }
    bound("%s: %ld consecutive operations: masks distinct, noises within 8 and never stuck", o.name.c_str(), reps);
}
// every operation of a long life uses the random source in the same way: the same answers give the same outcome
static void same(Op o, long reps) { for (int c : {0x50505050, 0x7ffffff5}) { base(3); env().constant = c; env().const_upto = 1L << 60; Out r0 = o.run(); for (long k = 1; k < reps; k++) { Out r = o.run(); trace(); MC_CHECK(r == r0, "%s: operation number %ld does not draw its mask and noise as the first one does (constant source %d)", o.name.c_str(), k + 1, c); } state(hash(c, reps)); } bound("%s: %ld operations under two constant sources give one outcome each", o.name.c_str(), reps); }
template <int L, int N> static void full(int lvl) {
    auto ps = polys(L, N, 0); K s1(N, 1), s0(N, 0), s2 = tern(N, 5); Op o = encop<L, N>(s2, ps[ps.size() - 1]); std::vector<Op> same; for (auto &s : {s1, s0, s2}) for (auto &p : ps) same.push_back(encop<L, N>(s, p));
    uniform(o, same, 3); if (lvl) { noise(o); fresh(o, 300); }
}
template <int L, int N> static void fullswk(int lvl) {
    K s1(N, 1), s0(N, 0), s2 = tern(N, 5), sq(N, 0); for (int i = 0; i < N; i++) sq[i] = i - N / 2; Op o = swkop<L, N>(sq, s2); std::vector<Op> same; for (auto &a : {s0, s1, s2, sq}) for (auto &b : {s0, s1, s2}) same.push_back(swkop<L, N>(a, b));
    uniform(o, same, lvl ? 3 : 2); if (lvl) { noise(o); fresh(o, 200); }
}
// Large rings: which coefficients each random answer drives, then all coefficients at once.
struct Delta { std::map<int, BV> m; };
template <int L> static void delta_(const BV &a, const BV &b, int N, std::map<int, BV> &m) { for (size_t w = 0; w < a.size(); w++) { u64 x = a[w] ^ b[w]; while (x) { int bit = __builtin_ctzll(x); x &= x - 1; long p = (long)w * 64 + bit; auto &v = m[p / L]; if (v.empty()) v.assign((L + 63) / 64, 0); v[p % L / 64] |= 1ull << (p % L % 64); } } }
// ML: bits per mask coefficient
template <int ML> static void bigmask(Op o, std::vector<Op> same) {
    const int N = o.N; base(0); env().logv.clear(); env().log = true; Out r0 = o.run(); env().log = false; std::vector<int> v = env().logv; const long nc = v.size();
    for (auto &p : same) { base(0); Out r = p.run(); MC_CHECK(r.mask == r0.mask, "%s: the mask depends on the message or key", o.name.c_str()); trace(); }
    std::vector<std::set<int>> mh(nc), nh(nc); bool fixed = true;
    for (long i = 0; i < nc; i++) for (int f : {0x7fffffff, 1, 0x40000000}) { base(0); env().over[i] = v[i] ^ f; Out r = o.run(); trace(); state(hash(i, f, hbytes(r.mask.data(), 8 * r.mask.size()))); if (env().calls != nc) fixed = false; std::map<int, BV> d; delta_<ML>(r.mask, r0.mask, N, d); for (auto &x : d) mh[i].insert(x.first); for (int j = 0; j < N; j++) if (r.noise[j] != r0.noise[j]) nh[i].insert(j); }
    if (!fixed) { bound("%s: number of random answers varies; large-ring independence not examined", o.name.c_str()); return; }
    for (int b : {3, 4, 5, 6, 7}) { base(b); env().logv.clear(); env().log = true; Out q0 = o.run(); env().log = false; auto w = env().logv; if ((long)w.size() != nc) { bound("%s: number of random answers varies", o.name.c_str()); return; }   // signs of zero magnitudes show under other streams
        std::set<int> got; for (auto &h : nh) for (int j : h) got.insert(j);
        for (long i = 0; i < nc; i++) if (mh[i].empty() && nh[i].empty()) { base(b); env().over[i] = w[i] ^ 0x7fffffff; Out r = o.run(); trace(); state(hash(b, i)); for (int j = 0; j < N; j++) if (r.noise[j] != q0.noise[j]) nh[i].insert(j); } }
    std::vector<std::vector<long>> nd(N), md(N); std::vector<int> uf(N); for (int j = 0; j < N; j++) uf[j] = j; std::function<int(int)> find = [&](int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; };
    for (long i = 0; i < nc; i++) { MC_CHECK(mh[i].empty() || nh[i].empty(), "%s: random answer %ld drives the mask (coefficient %d) and the noise (coefficient %d)", o.name.c_str(), i, *mh[i].begin(), *nh[i].begin()); MC_CHECK(nh[i].size() <= 1, "%s: random answer %ld drives the noise of %zu coefficients", o.name.c_str(), i, nh[i].size()); for (int j : nh[i]) nd[j].push_back(i); int p = -1; for (int j : mh[i]) { md[j].push_back(i); if (p >= 0) uf[find(j)] = find(p); p = j; } }
    for (int j = 0; j < N; j++) { MC_CHECK(!nd[j].empty(), "%s: noise of coefficient %d is not random", o.name.c_str(), j); MC_CHECK(!md[j].empty(), "%s: mask of coefficient %d is not random", o.name.c_str(), j); }
    // groups of coefficients that share answers; the t-th answer of every group is flipped in one run
    std::map<int, std::vector<int>> gr; for (int j = 0; j < N; j++) gr[find(j)].push_back(j); std::map<int, std::vector<long>> calls; size_t mx = 0; for (auto &g : gr) { std::set<long> c; for (int j : g.second) c.insert(md[j].begin(), md[j].end()); calls[g.first].assign(c.begin(), c.end()); mx = std::max(mx, c.size()); MC_CHECK(g.second.size() <= 64 || c.size() * 31 >= g.second.size() * ML, "%s: %zu mask coefficients are driven by only %zu random answers", o.name.c_str(), g.second.size(), c.size()); }
    if (mx > 200) { bound("%s: random answers shared between %zu coefficients; rank not computed", o.name.c_str(), mx); return; }
    std::map<int, std::vector<BV>> rows; 
    for (size_t t = 0; t < mx; t++) for (int k = 0; k < 31; k++) { base(0); for (auto &c : calls) if (t < c.second.size()) env().over[c.second[t]] = v[c.second[t]] ^ (1 << k); Out r = o.run(); trace(); state(hash(t, k, 77)); std::map<int, BV> d; delta_<ML>(r.mask, r0.mask, N, d);
        for (auto &g : gr) { BV row((g.second.size() * ML + 63) / 64, 0); bool nz = false; for (size_t q = 0; q < g.second.size(); q++) { auto it = d.find(g.second[q]); if (it != d.end()) for (int b = 0; b < ML; b++) if (it->second[b / 64] >> (b % 64) & 1) { size_t p = q * ML + b; row[p / 64] |= 1ull << (p % 64); nz = true; } } if (nz) rows[g.first].push_back(row); } }
    for (auto &g : gr) { int want = g.second.size() * ML, rk = rank_(rows[g.first], want); MC_CHECK(rk == want, "%s: the mask at coefficient %d%s has only %d of %d independent random bits", o.name.c_str(), g.second[0], g.second.size() > 1 ? " and those sharing its answers" : "", rk, want); outcome(rk); }
    // every noise value at every coefficient
    std::vector<int> vals; for (int k = 0; k < 18; k++) vals.push_back(k); for (int k = 0; k < 18; k++) vals.push_back((int)(119304647L * k + 59652323)); std::vector<std::set<int>> got(N); size_t nm = 0; for (auto &d : nd) nm = std::max(nm, d.size());
    auto put = [&](Out r) { trace(); for (int j = 0; j < N; j++) { MC_CHECK(abs(r.noise[j]) <= 8, "%s: noise %d at coefficient %d", o.name.c_str(), r.noise[j], j); got[j].insert(r.noise[j]); } };
    if (nm == 1) for (int x : vals) { base(0); for (auto &d : nd) env().over[d[0]] = x; put(o.run()); state(hash(x, 55)); }
    if (nm == 2) for (int x : vals) for (int y : vals) { base(0); for (auto &d : nd) { env().over[d[0]] = x; if (d.size() > 1) env().over[d[1]] = y; } put(o.run()); state(hash(x, y, 56)); }
    if (nm <= 2) for (int j = 0; j < N; j++) for (int e = -8; e <= 8; e++) MC_CHECK(got[j].count(e), "%s: noise value %d never occurs at coefficient %d", o.name.c_str(), e, j);
    bound("%s: %ld random answers; each flipped alone, then together per coefficient group (%zu groups), %zu bits of rank per group; all noise values at all coefficients", o.name.c_str(), nc, gr.size(), (size_t)ML * gr.begin()->second.size());
}
// no mask word is ever used twice, within or across encryptions
template <int L> static void words(Op o, int reps) { static_assert(L >= 60, ""); base(0); std::set<BV> seen; for (int k = 0; k < reps; k++) { Out r = o.run(); trace(); for (int i = 0; i < o.N; i++) { BV w((L + 63) / 64, 0); for (int b = 0; b < L; b++) { long p = (long)i * L + b; if (r.mask[p / 64] >> (p % 64) & 1) w[b / 64] |= 1ull << (b % 64); } MC_CHECK(seen.insert(w).second, "%s: operation %d repeats an earlier mask coefficient at %d", o.name.c_str(), k + 1, i); } int big = 0, nz = 0; for (int e : r.noise) { big += abs(e) > 8; nz += e != 0; } MC_CHECK(!big && nz > o.N / 2, "%s: operation %d: %d noises beyond 8, %d nonzero", o.name.c_str(), k + 1, big, nz); state(hbytes(r.mask.data(), 8 * r.mask.size(), k)); } bound("%s: all mask coefficients of %d consecutive operations distinct", o.name.c_str(), reps); }
static K unitkey(int N, int p) { K k(N, 0); k[p] = 1; k[(p * 7 + 3) % N] = -1; return k; }
template <int L, int N> static void bigenc() { P m(N); for (int i = 0; i < N; i++) m[i] = center(I(i) * 977, pow2(L)); bigmask<L>(encop<L, N>(unitkey(N, 1), m), {encop<L, N>(unitkey(N, N / 2), m), encop<L, N>(K(N, 0), P(N, I(0))), encop<L, N>(unitkey(N, 1), P(N, -pow2(L - 1)))}); }
template <int L, int N> static void bigswk() { K f(N); for (int i = 0; i < N; i++) f[i] = i % 5 - 2; bigmask<2 * L>(swkop<L, N>(f, unitkey(N, 1)), {swkop<L, N>(unitkey(N, 2), unitkey(N, N / 2)), swkop<L, N>(K(N, 0), K(N, 0))}); }
template <int L> struct Sz { static void go() { if (L >= 5) full<L, 2>(L % 8 == 5); else { Op o = encop<L, 2>(K{1, -1}, P(2, I(0))); uniform(o, {}, 3); } } };
#if PART == 0
SCEN(precisions_a, 0) { each_t<Sz>(Range<1, 40>()); sample("LOGQ=7 N=2: 31 flips of each rand() answer, mask rank 14 of 14"); }
#elif PART == 1
SCEN(precisions_b, 0) { each_t<Sz>(List<59, 60, 61, 62, 63, 64, 65, 66, 93, 94, 95, 96, 124, 125, 126, 127, 128, 129, 130, 192>()); }
#elif PART == 2
SCEN(sizes, 0) { full<60, 4>(1); full<64, 8>(1); full<65, 4>(1); full<17, 16>(1); full<128, 4>(1); full<200, 4>(0); }
SCEN(wide, 0) { full<640, 2>(0); if (tier()) full<1450, 2>(0); }
#elif PART == 3
SCEN(switching, 0) { fullswk<30, 2>(1); fullswk<32, 4>(1); fullswk<33, 2>(1); fullswk<60, 4>(1); fullswk<64, 2>(1); fullswk<65, 2>(0); fullswk<100, 2>(0); sample("swkgen<60,4>: mask of 480 bits has rank 480"); }
SCEN(interplay, 0) {   // encryptions and switching keys drawn alternately never share answers
    Op a = encop<60, 4>(K{1, 0, -1, 0}, P(4, I(5))), b = swkop<30, 4>(K{0, 1, 0, -1}, K{1, 0, -1, 0}); std::vector<Op *> seq = {&a, &b, &b, &a};
    base(0); env().logv.clear(); env().log = true; std::vector<Out> r0; std::vector<long> mark; for (auto o : seq) { r0.push_back(o->run()); mark.push_back(env().calls); } env().log = false; auto v = env().logv;
    MC_CHECK(r0[0].mask != r0[1].mask && r0[1].mask != r0[2].mask && r0[0].mask != r0[3].mask, "two operations share a mask");
    for (long i = 0; i < mark[2]; i++) for (int k : {0, 13, 30}) { base(0); env().over[i] = v[i] ^ (1 << k); int own = i < mark[0] ? 0 : i < mark[1] ? 1 : 2; for (int t = 0; t < 4; t++) { Out r = seq[t]->run(); MC_CHECK(t == own || r == r0[t], "random answer %ld of operation %d also drives operation %d", i, own, t); } trace(); state(hash(i, k)); }
    bound("enc, swkgen, swkgen, enc in one stream");
}
#endif
#if PART == 4
SCEN(life_enc, 0) { life(encop<60, 2>(K{1, -1}, P(2, I(3))), tier() ? 1100000 : 140000, 60); }
SCEN(life_same, 0) { same(encop<60, 2>(K{1, -1}, P(2, I(3))), tier() ? 600000 : 70000); same(encop<60, 256>(unitkey(256, 1), P(256, I(3))), tier() ? 6000 : 1100); same(swkop<30, 2>(K{1, -1}, K{0, 1}), 70000); }
SCEN(life_swk, 0) { life(swkop<30, 2>(K{1, -1}, K{0, 1}), tier() ? 600000 : 70000, 60); }
SCEN(big_enc, 0) { bigenc<60, 64>(); bigenc<64, 128>(); bigenc<60, 256>(); bigenc<65, 512>(); }
SCEN(big_swk, 0) { bigswk<30, 64>(); bigswk<32, 128>(); bigswk<60, 256>(); }
SCEN(words, 0) { words<60>(encop<60, 1024>(unitkey(1024, 1), P(1024, I(3))), 12); words<60>(encop<60, 8192>(unitkey(8192, 1), P(8192, I(3))), 4); words<65>(encop<65, 4096>(unitkey(4096, 1), P(4096, I(3))), 4); words<1450>(encop<1450, 512>(unitkey(512, 1), P(512, I(3))), 4); words<120>(swkop<60, 2048>(K(2048, 1), unitkey(2048, 1)), 4); words<60>(encop<60, 65536>(unitkey(65536, 1), P(65536, I(3))), 2); }
#elif PART == 5
SCEN(big_enc, 0) { bigenc<60, 1024>(); sample("enc<60,1024>: each of the ~5000 random answers of one encryption flipped alone and in groups"); }
#elif PART == 6
SCEN(big_swk, 0) { bigswk<30, 1024>(); }
#elif PART == 7
SCEN(big_enc2, 1) { bigenc<65, 2048>(); bigswk<60, 1024>(); }
#endif
}
MC_MAIN
