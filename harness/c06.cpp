// C06: CRT<L,LOGQ> splitting and recombination.
#include "zref.h"
#include "HEAAN/arith/conv/crt.h"
#include "primes.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
typedef std::vector<u64> V;
static std::string VS(const V &v) { std::string s = "("; for (size_t i = 0; i < v.size() && i < 12; i++) s += fmt("%s%llu", i ? "," : "", (unsigned long long)v[i]); return s + ")"; }
struct Ref { V q; I Q; std::vector<I> w;
    Ref(const V &q_) : q(q_), Q(1) { for (u64 x : q) Q *= x; for (u64 x : q) { I m = Q / x; u64 r = (u64)(m % x), inv = 1; { U128 b = r % x, e = 1; u64 n = x - 2; while (n) { if (n & 1) e = e * b % x; b = b * b % x; n >>= 1; } inv = (u64)e; } w.push_back(m * inv); } }
    I join(const V &r) const { I s = 0; for (size_t i = 0; i < q.size(); i++) s += w[i] * (r[i] % q[i]); return center(s, Q); }
    V split(const I &x) const { V r; for (u64 p : q) r.push_back((u64)modp(x, I(p))); return r; } };
template <int L, int LOGQ> struct C {
    Ref ref; std::vector<CRT<L, LOGQ>> c; 
    C(const V &q) : ref(q) { at("CRT constructor", L, LOGQ); c.emplace_back(q.data()); }
    void split(const I &x) {      // x: centered value of the ring
        Z_Q<LOGQ> z; zset<LOGQ>(z, x); Z_Q<LOGQ> k(z); V r(L, 0x77); at("icrt", L, LOGQ); c[0].icrt(z, r.data()); step(); state(zhash(z, L * 1000));
        I s = center(x, pow2(LOGQ)); V w = ref.split(s); trace();
        MC_CHECK(r == w, "icrt<%d,%d>%s(%s) = %s, want %s", L, LOGQ, VS(ref.q).c_str(), S(s).c_str(), VS(r).c_str(), VS(w).c_str());
        MC_CHECK(!memcmp(k.data, z.data, sizeof z.data), "icrt<%d,%d> changed its input", L, LOGQ);
        I a = s < 0 ? I(-s) : s; if (2 * a < ref.Q) { Z_Q<LOGQ> o; memset(o.data, 0xff, sizeof o.data); c[0].crt(r.data(), o); step(); MC_CHECK(uval(o) == uval(z), "crt(icrt(%s)) = %s for <%d,%d>%s", S(s).c_str(), S(sval(o)).c_str(), L, LOGQ, VS(ref.q).c_str()); }
    }
    void join(const V &r) {
        Z_Q<LOGQ> o; memset(o.data, 0xff, sizeof o.data); V k(r); at("crt", L, LOGQ); c[0].crt(k.data(), o); step(); state(hbytes(r.data(), 8 * L, LOGQ)); trace();
        I x = ref.join(r); MC_CHECK(uval(o) == modp(x, pow2(LOGQ)), "crt<%d,%d>%s of %s = %s, want %s", L, LOGQ, VS(ref.q).c_str(), VS(r).c_str(), S(uval(o)).c_str(), S(modp(x, pow2(LOGQ))).c_str());
        MC_CHECK(k == r, "crt<%d,%d> changed the residues", L, LOGQ);
    }
};
static void tuples(const V &q, u64 over, std::function<void(const V &)> f) { V r(q.size(), 0); while (1) { f(r); size_t i = 0; while (i < q.size() && ++r[i] == q[i] + over) r[i++] = 0; if (i == q.size()) return; } }
// complete: every residue tuple (also unreduced up to q+over), every ring value
template <int L, int LOGQ> static void complete(const V &q, u64 over) {
    C<L, LOGQ> c(q); tuples(q, over, [&](const V &r) { c.join(r); });
    if (LOGQ <= 12) for (u64 x = 0; x < (1ull << LOGQ); x++) c.split(I(x));
    else { I h = c.ref.Q / 2; int n = h < 3000 ? (int)h : 3000; for (int x = -n - 3; x <= n + 3; x++) c.split(I(x)); for (auto &x : zalpha(LOGQ, 0)) c.split(center(x, pow2(LOGQ))); }
    bound("L=%d LOGQ=%d %s: every residue tuple%s", L, LOGQ, VS(q).c_str(), LOGQ <= 12 ? ", every ring value" : "");
}
template <int LOGQ> struct Small { static void go() {
    for (u64 p : {3ull, 5ull, 7ull, 17ull, 251ull}) complete<1, LOGQ>({p}, p);
    complete<2, LOGQ>({3, 5}, 4); complete<2, LOGQ>({17, 13}, 1); complete<2, LOGQ>({257, 3}, 0); complete<3, LOGQ>({3, 5, 7}, 2); complete<3, LOGQ>({13, 11, 7}, 0); complete<4, LOGQ>({3, 5, 7, 11}, 1);
} };
#if PART == 0
SCEN(complete_small, 0) { each_t<Small>(Range<1, 12>()); sample("L=3 (3,5,7), LOGQ=1..12: all 9*11... residue tuples incl. unreduced, all ring values"); }
SCEN(complete_five, 0) { complete<5, 6>({3, 5, 7, 11, 13}, 0); complete<5, 15>({3, 5, 7, 11, 13}, 0); complete<5, 20>({17, 3, 7, 5, 11}, 0); if (tier()) complete<6, 19>({3, 5, 7, 11, 13, 17}, 0); }
#elif PART == 1
SCEN(complete_wide, 0) { each_t<Small>(List<31, 32, 33, 59, 60, 61, 62, 63, 64, 65, 66, 127, 128, 129, 192, 193>()); sample("LOGQ=64 with modulus 17: icrt of -2^63.."); }
#endif
// boundaries with word-size primes
template <int L, int LOGQ> static void big(const V &q0, int lvl) {
    V q(q0.begin(), q0.begin() + L); C<L, LOGQ> c(q); const I &Q = c.ref.Q; std::set<I> xs;
    for (auto &x : zalpha(LOGQ, lvl)) xs.insert(center(x, pow2(LOGQ)));
    std::vector<I> centres = {I(0), Q / 2, -Q / 2, Q / 3, pow2(LOGQ - 1), -pow2(LOGQ - 1)};
    for (int i = 0; i < L; i += 1 + L / 6) for (u64 k : {1ull, 2ull, 3ull, 1ull << 32, ~0ull}) { centres.push_back(I(q[i]) * k); centres.push_back(-I(q[i]) * k); if (i + 1 < L) centres.push_back(I(q[i]) * q[i + 1] * k); }
    for (auto &x : centres) for (int d = -2; d <= 2; d++) xs.insert(center(x + d, pow2(LOGQ)));
    size_t n = 0, cap = tier() ? 100000 : 400000 / (L * L + 20); size_t st = 1 + xs.size() / (cap + 1);
    for (auto &x : xs) if (n++ % st == 0) c.split(x);
    for (auto &x : centres) c.split(center(x, pow2(LOGQ)));
    // residue tuples: of values next to 0 and +-Q/2, corners, and unreduced words
    std::vector<V> R; for (auto &x : centres) for (int d = -2; d <= 2; d++) R.push_back(c.ref.split(x + d));
    for (int b = 0; b < (1 << (L < 7 ? L : 7)); b++) { V r(L); for (int i = 0; i < L; i++) r[i] = b >> (i % 7) & 1 ? q[i] - 1 : 0; R.push_back(r); for (int i = 0; i < L; i++) r[i] = b >> (i % 7) & 1 ? ~0ull : q[i]; R.push_back(r); for (int i = 0; i < L; i++) r[i] = b >> (i % 7) & 1 ? q[i] / 2 : q[i] / 2 + 1; R.push_back(r); }
    for (int i = 0; i < L; i++) { V r(L, 0); for (u64 v : V{1, q[i] - 1, q[i], ~0ull, 1ull << 63}) { r[i] = v; R.push_back(r); } }
    // tuples at which the terms of the reconstruction sum are all maximal (q_i-1)*Q/q_i or minimal, for every prefix and suffix of them: the sum reaches (L-1)Q and more before reduction
    { V top(L), one(L); for (int i = 0; i < L; i++) { u64 m = (u64)((Q / q[i]) % q[i]); top[i] = (u64)((U128)m * (q[i] - 1) % q[i]); one[i] = m % q[i]; }
      for (int k = 0; k <= L; k += 1 + L / 12) for (int e = 0; e < 4; e++) { V a(L), b(L), d(L); for (int i = 0; i < L; i++) { a[i] = i < k ? top[i] : one[i] * (e == 1) ; b[i] = i < k ? one[i] * (e == 2) : top[i]; d[i] = (i * 7 + e) % (L + 1) < k ? top[i] : (u64)((U128)one[i] * (q[i] / 2 + e) % q[i]); } R.push_back(a); R.push_back(b); R.push_back(d); } R.push_back(top); V t(top); for (int i = 0; i < L; i += 1 + L / 9) { t[i] = (u64)(((U128)t[i] + q[i] - one[i]) % q[i]); R.push_back(t); } }
    for (auto &r : R) { c.join(r); V u(r); for (int i = 0; i < L; i++) if (u[i] < ~0ull - q[i]) u[i] += q[i]; c.join(u); }
    bound("L=%d LOGQ=%d: %zu values, %zu residue tuples", L, LOGQ, xs.size() / st, 2 * R.size());
}
static const V TP(TABLE_PRIMES, TABLE_PRIMES + 102);
static const V BP = {0xFFFFFFFFFFFFFFC5ull, 0xffffffff00000001ull, 0x7fffe00000000001ull, 0x3fffc00000000001ull, 0xfffe400000000001ull, 3, 0xFFFFFFFBull};
#if PART == 2
SCEN(boundaries_small, 0) { big<1, 5>(TP, 1); big<1, 29>(TP, 1); big<1, 59>(TP, 1); big<1, 60>(TP, 1); big<1, 61>(TP, 1); big<1, 63>(TP, 1); big<1, 64>(TP, 1); big<1, 65>(TP, 1); big<1, 130>(TP, 1); big<2, 51>(TP, 1); big<2, 60>(TP, 1); big<2, 64>(TP, 1); big<3, 61>(TP, 1); big<3, 62>(TP, 1); big<3, 63>(TP, 1); big<3, 64>(TP, 1); big<3, 65>(TP, 1); big<3, 80>(TP, 1); big<4, 100>(TP, 1); big<5, 128>(TP, 1); big<5, 129>(TP, 0); }
SCEN(boundaries_big_primes, 0) { big<1, 64>(BP, 1); big<2, 64>(BP, 1); big<2, 63>(BP, 1); big<3, 64>(BP, 1); big<3, 100>(BP, 1); big<4, 128>(BP, 1); big<5, 61>(BP, 1); big<6, 192>(BP, 1); big<7, 200>(BP, 0); big<7, 20>(BP, 1); sample("moduli (2^64-59, 2^64-2^32+1, ...) residues all ~0"); }
#elif PART == 3
SCEN(boundaries_mid, 0) { big<8, 200>(TP, 0); big<9, 260>(TP, 0); big<11, 320>(TP, 0); big<22, 640>(TP, 0); big<22, 641>(TP, 0); big<43, 1270>(TP, 0); big<49, 1450>(TP, 0); bound("table primes as used by the convolution"); }
SCEN(boundaries_large, 0) { big<97, 2900>(TP, 0); big<102, 3051>(TP, 0); }
#endif
}
MC_MAIN
