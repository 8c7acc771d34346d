// C08: keygen under an enumerated random source.
#include "he.h"
namespace mc {
static const int CAN = 0x5bd1e995;
template <int N> struct G {
    std::vector<int> buf = std::vector<int>(N + 64, CAN); int *s = &buf[32];
    void go(int h, int prior) {
        for (int i = 0; i < 32; i++) buf[i] = buf[32 + N + i] = CAN;
        for (int i = 0; i < N; i++) s[i] = prior == 0 ? 0 : prior == 1 ? 1 : prior == 2 ? (int)0x80000000 : prior == 3 ? i - 3 : -1;
        at("keygen", N, h, prior); HEAAN<60, N>::keygen(h, s); step();
        for (int i = 0; i < 32; i++) MC_CHECK(buf[i] == CAN && buf[32 + N + i] == CAN, "keygen(h=%d,N=%d) wrote outside the key", h, N);
        int w = 0; for (int i = 0; i < N; i++) { MC_CHECK(s[i] >= -1 && s[i] <= 1, "keygen(h=%d,N=%d): coefficient %d is %d (array held %d before)", h, N, i, s[i], prior); w += s[i] != 0; }
        MC_CHECK(w == h, "keygen(h=%d,N=%d): %d nonzero coefficients (array pre-fill %d)", h, N, w, prior);
    }
};
// every answer sequence of the random source up to a depth; exact probability of every key
static std::vector<int> alphabet(int m) { std::vector<int> v; for (int k = 0; k < m; k++) v.push_back((int)((long)m * (long)ceil(k * 2147483648.0 / m / m) + (5 * k) % m)); return v; }
// many answers, evenly spread over every window of binary digits
static std::vector<int> fine(int m) { std::vector<int> v; for (int k = 0; k < m; k++) v.push_back((int)((u64)(k + 1) * 0x4f1bbcddu & 0x7fffffff)); return v; }
// m answers stand for all of them exactly when only the residue modulo m, or only the interval, of an answer matters
template <int N> static bool exact(int h, int m) {
    G<N> g; Env &e = env(); bool res = true, top = true; auto run = [&](int seed, int c, long v) { e.reset(seed); e.over[c] = (int)v; g.go(h, 0); return hash(hbytes(g.s, 4 * N), e.calls); };
    for (int seed = 1; seed <= 6; seed++) for (int c = 0; c < 2 * h + 2; c++) for (int r = 0; r < m; r++) { u64 a = run(seed, c, r), b = run(seed, c, (long)(r * 2147483648.0 / m) + 1); for (int k = 1; k <= 24; k++) { res &= a == run(seed, c, r + (long)m * (long)(hash(k) % (2147483647L / m - 1))); top &= b == run(seed, c, (long)(r * 2147483648.0 / m) + 1 + (long)(hash(k) % (u64)(2147483648.0 / m - 2))); } if (!res && !top) return false; }
    return true;
}
template <int N> static std::string tree1(int h, const std::vector<int> &al, long cap, double tol) {
    int m = al.size(); G<N> g; std::map<K, double> mass; double miss = 0; std::vector<int> pre; int D = 0; { double c = 1; while (c * m <= cap) { c *= m; D++; } }
    long runs = 0; Env &e = env();
    std::function<void()> dfs = [&]() {
        e.reset(7); for (size_t i = 0; i < pre.size(); i++) e.over[i] = pre[i];
        g.go(h, runs % 5); runs++; trace(); long used = e.calls; double p = pow(1.0 / m, (double)pre.size());
        if (used <= (long)pre.size()) { K k(g.s, g.s + N); mass[k] += p; state(hbytes(k.data(), 4 * N, hbytes(pre.data(), 4 * pre.size(), h))); return; }
        if ((int)pre.size() >= D) { miss += p; return; }
        for (int a : al) { pre.push_back(a); dfs(); pre.pop_back(); }
    };
    dfs(); double want = 1; for (int i = 0; i < h; i++) want = want * (N - i) / (i + 1) * 2;
    if ((double)mass.size() != want) return fmt("keygen(h=%d,N=%d): %zu different keys reachable within %d random answers, want %.0f", h, N, mass.size(), D, want);
    for (auto &kv : mass) { outcome(hbytes(kv.first.data(), 4 * N, h)); if (!(fabs(kv.second - 1 / want) <= miss + 1e-9 + tol / want)) return fmt("keygen(h=%d,N=%d): key %s has probability %.6f (+ at most %.6f), want %.6f", h, N, KS(kv.first).c_str(), kv.second, miss, 1 / want); }
    bound("N=%d h=%d: all answer sequences over %d values per call to depth %d; %zu keys, undecided probability %.4g", N, h, m, D, mass.size(), miss); return "";
}
// an uneven distribution over m answers counts if these answers stand for all of them; if not, answers that also divide evenly
// among the remaining positions are tried, and at last a finer grid of answers with a tolerance
template <int N> static void tree(int h, int m, long cap) {
    std::string f = tree1<N>(h, alphabet(m), cap, 0); if (f.empty()) return; bool ex = exact<N>(h, m); MC_CHECK(!ex, "%s", f.c_str());
    long l = N < 2 ? 2 : N; for (int k = N - h + 1; k < N; k++) l = l / std::__gcd(l, (long)k) * k;
    if (l != m && pow((double)l, 2 * h) <= 4e7) { f = tree1<N>(h, alphabet(l), std::max(cap, (long)(pow((double)l, 2 * h) + 1)), 0); if (f.empty()) return; ex = exact<N>(h, l); MC_CHECK(!ex, "%s", f.c_str()); }
    int q = h <= 1 ? 1536 : std::max(m, h == 2 ? 48 : 14); f = tree1<N>(h, fine(q), (long)(pow((double)q, 2 * std::max(h, 1)) + 1), h <= 1 ? 0.12 : 0.7); MC_CHECK(f.empty(), "%s", f.c_str());
}
SCEN(answer_trees, 0) {
    long c = tier() ? 40000000 : 3000000;
    tree<2>(0, 4, c); tree<2>(1, 4, c); tree<2>(2, 4, c); tree<4>(0, 8, c); tree<4>(1, 8, c); tree<4>(2, 8, c); tree<4>(1, 24, c); tree<8>(1, 16, c); tree<4>(2, 24, c); tree<16>(1, 32, c);
    sample("N=4 h=2: every answer sequence over 8 residues, all 24 keys equally likely");
}
SCEN(answer_trees3, 0) { long c = tier() ? 100000000 : 6000000; tree<8>(2, 16, c * 3); tree<2>(2, 4, c * 3); }
template <int N> struct Sizes { static void go() {
    G<N> g; std::set<int> hs; for (int h = 0; h <= N && h <= 40; h++) hs.insert(h); for (int h : {64, 128, 192, N / 2, N - 2, N - 1, N}) if (h >= 0 && h <= N) hs.insert(h);
    for (int h : hs) for (int prior = 0; prior < 5; prior++) {
        K k0; for (int seed = 1; seed <= (N <= 64 ? 8 : 2); seed++) { env().reset(seed); g.go(h, prior); trace(); state(hash(N, h, prior, hbytes(g.s, 4 * N)));
            K k(g.s, g.s + N); env().reset(seed); g.go(h, 0); MC_CHECK(k == K(g.s, g.s + N), "keygen(h=%d,N=%d) depends on what the array held before", h, N); }
        // a source that repeats itself for long before it moves on
        if (h) for (int c : {0, 1, N - 1, 0x7fffffff, N / 2}) for (long upto : {2L, 3L, 50L, 1001L}) { env().reset(3); env().constant = c; env().const_upto = upto; env().limit = upto + 400L * N + 100000; g.go(h, prior); trace(); state(hash(N, h, c, upto)); }
        env().limit = 200000000;
    }
    bound("N=%d: %zu weights, 5 array pre-fills, seeds, repeating sources", N, hs.size());
} };
SCEN(small_sizes, 0) { each_t<Sizes>(List<1, 2, 4, 8, 16, 32, 64>()); sample("N=8,h=8, array pre-filled with -1"); }
SCEN(mid_sizes, 0) { each_t<Sizes>(List<128, 256, 512, 1024>()); }
template <int N> static void huge(std::vector<int> hs) { G<N> g; for (int h : hs) for (int pr : {0, 2, 4}) { env().reset(pr + 1); g.go(h, pr); trace(); state(hash(N, h, pr)); } bound("N=%d, %zu weights", N, hs.size()); }
SCEN(big_sizes, 0) { huge<8192>({0, 1, 64, 128, 192, 4096, 8191, 8192}); huge<65536>({0, 1, 192, 32768, 65536}); huge<131072>({192, 131072}); }
// the first nonzero coefficient at large N: every position and both signs are named by some answer
template <int N> static void first() {
    static int s[N]; std::vector<char> hp(N, 0), hm(N, 0); Env &e = env();
    auto run = [&](int seed, long a0, long a1) { e.reset(seed); if (a0 >= 0) e.over[0] = (int)(a0 & 0x7fffffff); if (a1 >= 0) e.over[1] = (int)(a1 & 0x7fffffff); at("keygen", N, 1, a0, a1); HEAAN<60, N>::keygen(1, s); step(); int p = -1, w = 0; for (int i = 0; i < N; i++) if (s[i]) { p = i; w++; } MC_CHECK(w == 1 && abs(s[p]) == 1, "keygen(h=1,N=%d): weight %d", N, w); (s[p] > 0 ? hp : hm)[p] = 1; return p; };
    long st = 2147483648L / N; const long second[] = {0, 1, 0x7fffffff, 0x40000000, 0x5555aaaa, 0x12345678, 0x2aaa5555, 0x0ff0f00f, 0x700ff0f0, 0x31415926, 0x27182818, 0x61803398};
    for (long v = 0; v < N; v++) { int p = run(5, v * st + v, 0); state(hash(N, v, p, s[p])); for (int k = 1; k < 12 && !(hp[p] && hm[p]); k++) if (run(5, v * st + v, second[k]) != p) break; }
    // answers that vary in other digits, for positions not named yet
    auto open = [&]() { for (int i = 0; i < N; i++) if (!hp[i] || !hm[i]) return true; return false; };
    int miss = 0; for (int i = 0; i < N; i++) miss += !hp[i] || !hm[i]; auto both = [&](long a) { run(6, a, 0); run(6, a, 1); run(6, a, 0x7fffffff); run(6, a, hash(a) & 0x7fffffff); };
    if (miss * 10 < N || N <= 512) { for (int p = 0; p < N; p++) for (int k = 0; k < 32 && !(hp[p] && hm[p]); k++) both(k == 31 ? p * st + st / 2 : (long)p << k); for (int sh = 0; sh < 31 && N <= 512 && open(); sh++) for (long v = 0; v < 8L * N && (v << sh) < (8L << 31); v++) { both((v << sh) + (v * 40503 & 0xff)); run(6, v, hash(v) & 0x7fffffff); } }
    else {   // the position follows from the first answer but its sign from neither a fixed second answer nor the answers tried: vary everything else in the first answer and the answers after it
        int dec = 0; for (long q = 0; q < 512; q++) { long p = (q * (N / 512) + q) % N; for (int form = 0; form < 2; form++) { int n = 0, seen = 0; bool same = true; int at_ = -1; for (long t = 0; t < 96 && same && seen != 3; t++) { long a = form == 0 ? (p + N * (long)(hash(t, p) % (u64)st)) & 0x7fffffff : p * st + (long)(hash(t, p) % (u64)st); int got = run(5 + t % 3, a, t % 4 == 3 ? -1 : (long)(hash(t, p, 5) & 0x7fffffff)); if (at_ < 0) at_ = got; same &= got == at_; seen |= s[got] > 0 ? 1 : 2; n++; }
            MC_CHECK(!same || seen == 3, "keygen(h=1,N=%d): coefficient %d is %d under %d first answers that vary in every other digit and every answer after them", N, at_, s[at_], n); dec += same; } }
        bound("N=%d: positions are drawn in an unforeseen way (%d sign families decided); the rest decided for N<=512 only", N, dec); return; }
    for (int call = 1; call < 3; call++) for (long v = 0; v < (N > 20000 ? 65 : 130); v++) { e.reset(5 + v % 2); e.over[call] = (int)(v * st + v & 0x7fffffff); at("keygen", N, 1, call, v); HEAAN<60, N>::keygen(1, s); step(); int w = 0; for (int i = 0; i < N; i++) w += s[i] != 0 ? (s[i] == 1 || s[i] == -1 ? 1 : N + 1) : 0; MC_CHECK(w == 1, "keygen(h=1,N=%d): not one coefficient of +-1", N); }
    trace(N); for (int i = 0; i < N; i++) MC_CHECK(hp[i] && hm[i], "keygen(h=1,N=%d): coefficient %d never becomes %d under any first random answer", N, i, hp[i] ? -1 : 1);
    bound("N=%d h=1: all N answers to the first call x several answers to the next: every position with both signs", N);
}
SCEN(first_position, 0) { first<64>(); first<512>(); first<1024>(); first<4096>(); first<8192>(); }
SCEN(first_position_b, 0) { first<32768>(); }
SCEN(first_position_c, 0) { first<65536>(); }
// consecutive keys differ and do not depend on the previous one
SCEN(histories, 0) {
    G<16> g; std::set<K> seen; env().reset(5); for (int r = 0; r < 400; r++) { g.go(8, r % 5); seen.insert(K(g.s, g.s + 16)); trace(); }
    MC_CHECK(seen.size() > 390, "400 consecutive keys: only %zu different", seen.size()); for (auto &k : seen) state(hbytes(k.data(), 64));
    // position and sign statistics over the fixed stream: every position and sign used
    G<64> q; std::vector<int> plus(64), minus(64); for (int r = 0; r < 600; r++) { q.go(8, 0); trace(); for (int i = 0; i < 64; i++) { plus[i] += q.s[i] == 1; minus[i] += q.s[i] == -1; } }
    for (int i = 0; i < 64; i++) MC_CHECK(plus[i] > 5 && minus[i] > 5, "position %d is +1 %d times and -1 %d times in 600 keys", i, plus[i], minus[i]);
    bound("1000 consecutive keys from one stream");
}
}
MC_MAIN
