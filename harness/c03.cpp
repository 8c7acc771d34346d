// C03: decimal text, signs, doubles and limb queries of Z_Q / R_Q.
#include "zref.h"
#include "HEAAN/arith/R_Q_square.h"
#include "cap.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
static std::vector<I> vals(int L, int level) {
    std::set<I> s; I Q = pow2(L);
    for (auto &x : zalpha(L, level)) s.insert(x);
    I p = 1; while (p < Q) { for (int d = -1; d <= 1; d++) s.insert(modp(p + d, Q)); if (9 * p < Q) s.insert(9 * p); p *= 10; }
    p = 5; while (p < Q) { s.insert(p); s.insert(p - 1); p = p * 10 + 5; }
    for (int b : {31, 32, 33, 63, 64, 95, 96, 127, 128}) if (b < L) for (int d : {31, 32, 33}) if (b + d < L) { s.insert(pow2(b + d) + pow2(b)); s.insert(pow2(b + d) - pow2(b)); }
    return std::vector<I>(s.begin(), s.end());
}
static double todouble_err(const I &x, double d) {   // |d - x| / |x|
    if (x == 0) return d == 0 ? 0 : 1;
    int e; double m = frexp(d, &e); long long mi = (long long)ldexp(m, 53); I v = mi; int sh = e - 53;
    I num; if (sh >= 0) num = (v << sh) - x; else num = v - (x << -sh); if (num < 0) num = -num;
    I den = x < 0 ? I(-x) : x; if (sh < 0) den <<= -sh;
    I r = (num << 60) / den; return r.convert_to<double>() / ldexp(1.0, 60);
}
template <int L> static void value(const I &x, int n) {
    Z_Q<L> z; zset(z, x); I c = center(x, pow2(L)); at("value", L);
    state(zhash(z));
    Z_Q<L> keep(z);
    if (L <= 1300) { char s[640]; memset(s, '7', sizeof s); z.to_str(s); step(); std::string w = x.str(); MC_CHECK(w == s, "to_str<%d>(%s) = %.500s, want %s", L, S(x).c_str(), s, w.c_str()); }
    { std::string w = x.str(); if (w.size() <= 519) { Z_Q<L> r; memset(r.data, 0x5a, sizeof r.data); r.fr_str(w.c_str()); step(); MC_CHECK(uval(r) == x, "fr_str<%d>(\"%s\") = %s", L, w.c_str(), S(uval(r)).c_str());
        if (n % 4 == 0 && w.size() < 500) { std::string w0 = "000" + w; r.fr_str(w0.c_str()); step(); MC_CHECK(uval(r) == x, "fr_str<%d>(\"%s\") = %s", L, w0.c_str(), S(uval(r)).c_str()); } } }
    MC_CHECK(z.is_bigger_than_halfQ() == (2 * x >= pow2(L)), "is_bigger_than_halfQ<%d>(%s)", L, S(x).c_str()); step();
    I a = c < 0 ? I(-c) : c;
    if (a < pow2(1023)) { double d = (double)z; step(); double e = todouble_err(c, d); MC_CHECK(e < ldexp(1.0, -50), "double(Z_Q<%d> %s) = %a (relative error %g)", L, S(c).c_str(), d, e); }
    { int d = z.max_valid_digit(), len = (L + 63) / 64, w = -1; bool neg = c < 0; step();
      for (int i = 0; i < len; i++) { u64 pad = neg ? ~0ull : 0; if (i == len - 1 && L % 64) pad &= ~0ull >> (64 - L % 64); if (z.data[i] != pad) w = i; }
      MC_CHECK(d == w, "max_valid_digit<%d>(%s) = %d, want %d", L, S(c).c_str(), d, w); }
    MC_CHECK(!memcmp(keep.data, z.data, sizeof z.data), "a query changed Z_Q<%d> %s", L, S(x).c_str());
}
template <int L> struct All { static void go() { auto v = vals(L, 0); int n = 0; for (auto &x : v) value<L>(x, n++); trace(); } };
template <int L> struct Complete { static void go() { for (u64 x = 0; x < (1ull << L); x++) value<L>(I(x), x); trace(); } };
#if PART == 0
SCEN(complete, 0) { each_t<Complete>(Range<1, 12>()); bound("every value for LOGQ=1..12"); sample("LOGQ=1..12: every value through to_str, fr_str, sign, double, max_valid_digit"); }
#endif
#if PART < 4
SCEN(all_sizes, 0) { each_t<All>(Range<1 + 50 * PART, 50 + 50 * PART>()); bound("LOGQ=%d..%d: structured values, powers of ten and neighbours", 1 + 50 * PART, 50 + 50 * PART); sample("LOGQ=%d: 10^k-1, 10^k, 10^k+1, 2^k+-1, Q/2+-d", 1 + 50 * PART); }
#else
SCEN(big_sizes, 0) { each_t<All>(List<255, 256, 257, 319, 320, 321, 512, 640, 641, 1000, 1023, 1024, 1025, 1216, 1217, 1270, 1279, 1280, 1281, 1299, 1300>()); bound("21 sizes from 255 to 1300"); }
SCEN(huge_sizes, 0) { each_t<All>(List<1301, 1450, 1472, 2900, 3051>()); bound("sign, double and limb queries at 1301..3051"); }
// printing
template <int L, int N> static void printing(size_t most = 1 << 30) {
    auto v = vals(L, 0); static R_Q<L, N> p; static R_Q_square<L, N> c;
    for (size_t r = 0; r * N < v.size() && r < most; r++) {
        std::vector<std::string> u, s;
        for (int i = 0; i < N; i++) { I x = v[(r * N + i) % v.size()]; zset(p[i], x); u.push_back(x.str()); s.push_back(center(x, pow2(L)).str()); }
        at("print", L, N, r); state(hash(phash(p), N));
        auto got = numbers(capture([&] { p.print_unsigned(); })); step(); MC_CHECK(got == u, "R_Q<%d,%d>::print_unsigned round %zu: %zu numbers, first %s want %s", L, N, r, got.size(), got.size() ? got[0].c_str() : "-", u[0].c_str());
        got = numbers(capture([&] { p.print_signed(); })); step();
        for (int i = 0; i < N; i++) MC_CHECK((int)got.size() == N && got[i] == s[i], "R_Q<%d,%d>::print_signed round %zu coefficient %d: %s want %s", L, N, r, i, i < (int)got.size() ? got[i].c_str() : "-", s[i].c_str());
        got = numbers(capture([&] { p[0].print_unsigned(); })); step(); MC_CHECK(got.size() == 1 && got[0] == u[0], "Z_Q<%d>::print_unsigned %s", L, u[0].c_str());
        for (int i = 0; i < N; i++) MC_CHECK(uval(p[i]) == v[(r * N + i) % v.size()], "printing changed R_Q<%d,%d>", L, N);
        c[0] = p; c[1] = p; c[1] += p; std::vector<std::string> w(u); for (int i = 0; i < N; i++) w.push_back(uval(c[1][i]).str());
        got = numbers(capture([&] { c.print(); })); step(); MC_CHECK(got == w, "R_Q_square<%d,%d>::print round %zu", L, N, r);
    }
    trace();
}
SCEN(printing_large, 0) { printing<64, 1024>(1); printing<130, 2048>(1); printing<60, 4096>(1); bound("the same at N=1024,2048,4096"); }
SCEN(printing_all, 0) { printing<1, 1>(); printing<5, 2>(); printing<31, 4>(); printing<32, 4>(); printing<60, 8>(); printing<64, 4>(); printing<65, 4>(); printing<128, 8>(); printing<200, 4>(); printing<640, 8>(); printing<1300, 4>(); bound("print_unsigned, print_signed, R_Q_square::print for 11 (LOGQ,N)"); sample("R_Q<65,4>::print_signed of values around 2^64"); }
#endif
}
MC_MAIN
