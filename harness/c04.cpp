// C04: word-size modular arithmetic (mod.h) and the 64x64 product of Z_Q.h.
#include "zref.h"
#include "HEAAN/arith/conv/mod.h"
namespace mc {
static u64 rmod(U128 x, u64 q) { return (u64)(x % q); }
static u64 rpow(u64 a, u64 n, u64 q) { U128 r = 1 % q, b = a % q; while (n) { if (n & 1) r = r * b % q; b = b * b % q; n >>= 1; } return (u64)r; }
#define CK(name, got, want, a, b, q) do { u64 g_ = (got), w_ = (want); step(); if (g_ != w_) fail(name "(%llu,%llu) mod %llu = %llu, want %llu", (unsigned long long)(a), (unsigned long long)(b), (unsigned long long)(q), (unsigned long long)g_, (unsigned long long)w_); } while (0)
static void pairop(u64 a, u64 b, u64 q) {
    CK("add_mod", add_mod(a, b, q), rmod((U128)a + b, q), a, b, q);
    CK("sub_mod", sub_mod(a, b, q), (u64)(((U128)(a % q) + q - b % q) % q), a, b, q);
    CK("mul_mod", mul_mod(a, b, q), rmod((U128)a * b, q), a, b, q);
    CK("mod(lo,hi)", mod(a, b, q), rmod((U128)b << 64 | a, q), a, b, q);
    state(hash(a, b, q));
}
SCEN(complete_small, 0) {
    for (u64 q = 1; q <= 64; q++) for (u64 a = 0; a < 3 * q + 2; a++) for (u64 b = 0; b < 3 * q + 2; b++) pairop(a, b, q);
    trace(64); bound("every q=1..64, every a,b in [0,3q+1]: add,sub,mul,mod"); sample("q=7: all a,b in 0..22");
}
static std::vector<u64> words(bool more) {
    std::set<u64> s;
    for (int k = 0; k < 64; k++) { bool b = more || k < 3 || k > 60 || (k > 29 && k < 35) || k == 48; if (!b) continue; for (int d = -1; d <= 1; d++) { s.insert((1ull << k) + d); s.insert(0 - (1ull << k) + d); } }
    for (int d = 0; d < 4; d++) { s.insert(d); s.insert(0ull - d); }
    for (u64 x : {0xAAAAAAAAAAAAAAAAull, 0x5555555555555555ull, 0x0123456789ABCDEFull, 0xFFFFFFFF00000000ull, 0x00000000FFFFFFFFull, 0xFFFFFFFF00000001ull, 0xFFFFFFFEFFFFFFFFull, 0xFFFFFFFFFFFFFFC5ull, 0xffffffffffc0001ull, 0x1000000000980001ull}) s.insert(x);
    return std::vector<u64>(s.begin(), s.end());
}
SCEN(words_all, 0) {
    auto w = words(tier()); for (u64 q : w) if (q) { for (u64 a : w) for (u64 b : w) pairop(a, b, q);
        for (int d = -2; d <= 2; d++) for (int e = -2; e <= 2; e++) for (u64 k : {1ull, 2ull, 3ull}) { pairop(q * k + d, q * k + e, q); pairop(q / 2 + d, q / 2 + e, q); } }
    trace(w.size()); bound("all triples (a,b,q) of %zu boundary words, and a,b next to multiples of q", w.size()); sample("q=0xFFFFFFFFFFFFFFC5 a=2^63-1 b=2^64-1");
}
SCEN(product, 0) {
    auto w = words(true); std::vector<u64> v = w; for (u64 x : {0ull, 1ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0xFFFFFFFEull, 0x80000001ull}) for (u64 y : {0ull, 1ull, 0x7FFFFFFFull, 0x80000000ull, 0xFFFFFFFFull, 0xFFFFFFFEull, 0x80000001ull}) v.push_back(x << 32 | y);
    for (u64 a : v) for (u64 b : v) { U128 p = (U128)a * b; u64 lo = 9, hi = 9; mul_(a, b, lo, hi); step(); MC_CHECK(lo == (u64)p && hi == (u64)(p >> 64), "mul_(%llu,%llu) = %llu,%llu", a, b, lo, hi);
        lo = hi = 7; mul(a, b, lo, hi); step(); MC_CHECK(lo == (u64)p && hi == (u64)(p >> 64), "mul(%llu,%llu) = %llu,%llu", a, b, lo, hi);
        lo = a; hi = b; mul(lo, hi, lo, hi); MC_CHECK(lo == (u64)p && hi == (u64)(p >> 64), "mul(%llu,%llu) in place = %llu,%llu", a, b, lo, hi);
        lo = a; hi = b; mul_(lo, hi, lo, hi); step(2); MC_CHECK(lo == (u64)p && hi == (u64)(p >> 64), "mul_(%llu,%llu) in place = %llu,%llu", a, b, lo, hi); state(hash(a, b)); }
    // every assignment of the eight 16-bit halves from {0, 1, 0x7fff, 0xffff}
    const u64 h[] = {0, 1, 0x7fff, 0xffff};
    for (int c = 0; c < 65536; c++) { u64 a = 0, b = 0; for (int i = 0; i < 4; i++) { a |= h[c >> (2 * i) & 3] << (16 * i); b |= h[c >> (8 + 2 * i) & 3] << (16 * i); }
        U128 p = (U128)a * b; u64 lo, hi; mul_(a, b, lo, hi); MC_CHECK(lo == (u64)p && hi == (u64)(p >> 64), "mul_(%llu,%llu) = %llu,%llu", a, b, lo, hi); mul(a, b, lo, hi); step(2); MC_CHECK(lo == (u64)p && hi == (u64)(p >> 64), "mul(%llu,%llu) = %llu,%llu", a, b, lo, hi); state(hash(a, b)); }
    trace(2); bound("all pairs of %zu words, and all 4^8 assignments of 16-bit pieces from {0,1,7fff,ffff}", v.size());
}
static std::vector<u64> primes(u64 n) { std::vector<u64> p; for (u64 i = 2; i < n; i++) { bool ok = true; for (u64 j = 2; j * j <= i; j++) if (i % j == 0) { ok = false; break; } if (ok) p.push_back(i); } return p; }
static const u64 BIGP[] = {0xffffffffffc0001ULL, 0xfffffffff840001ULL, 0x1000000000980001ULL, 0x1000000011340001ULL, 0xfffffffee8c0001ULL, 0xffffffff00000001ULL, 0xfffe400000000001ULL, 0x7fffe00000000001ULL, 0x3fffc00000000001ULL, 0xFFFFFFFFFFFFFFC5ULL, 0x1fffffffffffffffULL, 4294967291ull, 4294967311ull, 2147483647ull, 65537ull, 786433ull};
SCEN(power_inverse, 0) {
    for (u64 q = 1; q <= 40; q++) for (u64 a = 0; a < 2 * q + 1; a++) for (u64 n = 0; n <= 70; n++) { CK("pow_mod", pow_mod(a, n, q), rpow(a, n, q), a, n, q); state(hash(a, n, q)); }
    auto w = words(true);
    for (u64 q : BIGP) for (u64 a : w) for (u64 n : w) if (tier() || (a ^ n) % 3 == 0 || n < 70) { CK("pow_mod", pow_mod(a, n, q), rpow(a, n, q), a, n, q); state(hash(a, n, q)); }
    for (u64 q : {1ull << 32, 1ull << 63, ~0ull, 12ull, 0x100000001ull}) for (u64 a : w) for (u64 n : w) if ((a ^ n) % 7 == 0) CK("pow_mod", pow_mod(a, n, q), rpow(a, n, q), a, n, q);
    auto P = primes(tier() ? 2000 : 400);
    for (u64 q : P) for (u64 a = 1; a < 3 * q; a++) if (a % q) { u64 v = inv_mod(a, q); step(); MC_CHECK(v < q && (U128)v * (a % q) % q == 1 % q, "inv_mod(%llu,%llu) = %llu", a, q, v); state(hash(a, q)); }
    for (u64 q : BIGP) for (u64 a : w) for (u64 b : {a, q - a % q, q / 2 + a}) if (b % q) { u64 v = inv_mod(b, q); step(); MC_CHECK(v < q && (U128)v * (b % q) % q == 1, "inv_mod(%llu,%llu) = %llu", b, q, v); state(hash(b, q)); }
    trace(3); bound("pow: q=1..40, all a, n<=70; %zu words squared for 16 large primes; inverse: every residue of %zu primes, boundary residues of 16 large primes", w.size(), P.size()); sample("inv_mod over every residue of every prime < 400");
}
}
MC_MAIN
