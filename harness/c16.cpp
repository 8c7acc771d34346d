// C16: encode rounds Delta * inverse embedding; decode / decode_log embed the centered coefficients over the scale.
#include "zref.h"
#include "fref.h"
#include "HEAAN/linear_transform.h"
#include "impl/message.h"
#include "impl/plaintext.h"
#include "impl/simple_plaintext.h"
namespace mc {
#ifndef PART
#define PART 0
#endif
static LD toLD(const I &x) { I a = x < 0 ? I(-x) : x; int sh = 0; int b = a == 0 ? 0 : (int)msb(a); if (b > 100) { sh = b - 100; a >>= sh; } LD r = ldexpl(a.convert_to<LD>(), sh); return x < 0 ? -r : r; }
template <int L, int G> struct E {
    static const int N = 1 << G, M = N / 2; std::unique_ptr<R_Q<L, N>> p{new R_Q<L, N>}; int n = 0; Message<G> z, w; const I Q = pow2(L);
    void dirty() { for (int i = 0; i < N; i++) memset((*p)[i].data, n & 1 ? 0xff : 0, sizeof (*p)[i].data); n++; for (int i = 0; i < M; i++) { w.r[i] = 1e77; w.i[i] = -1e99; } }
    // encode; coefficients must be inside (-2^(L-1), 2^(L-1))
    void enc(const V &re, const V &im, u64 D) {
        V m = iemb(re, im); LD sc = 0; for (int i = 0; i < M; i++) sc = std::max(sc, fabsl(re[i]) + fabsl(im[i])); LD big = 0; for (LD x : m) big = std::max(big, fabsl(x) * D); if (big > ldexpl(1, L - 1) * (1 - 1e-13L) - 1) return;
        for (int i = 0; i < M; i++) { z.r[i] = (double)re[i]; z.i[i] = (double)im[i]; } dirty(); at("encode", L, G, (long)D, n); encode<L, G>(z, D, *p); step(); trace(); state(hash(dhash(z.r, M, dhash(z.i, M)), D, L)); for (int i = 0; i < M; i++) MC_CHECK(z.r[i] == (double)re[i] && z.i[i] == (double)im[i], "encode<%d,%d> changed the message", L, G);
        MC_CHECK(pcanon(*p), "encode<%d,%d> at scale %llu wrote a non-canonical coefficient", L, G, (unsigned long long)D); P v = pval(*p); LD eps = 1e-13L * G * sc * D;
        for (int i = 0; i < N; i++) { LD e = fabsl(toLD(v[i]) - m[i] * D); MC_CHECK(e <= 0.5L + eps, "encode<%d,%d> at scale %llu: coefficient %d is %s, want nearest to %.20Lg", L, G, (unsigned long long)D, i, S(v[i]).c_str(), m[i] * D); }
        dirty0(); decode<L, G>(*p, D, w); step(); for (int i = 0; i < M; i++) MC_CHECK(fabsl(w.r[i] - re[i]) + fabsl(w.i[i] - im[i]) <= 1.5L * N / 2 / D + 1e-12L * sc * G, "decode(encode(z))<%d,%d> at scale %llu: slot %d is (%.17g,%.17g) want (%.17Lg,%.17Lg)", L, G, (unsigned long long)D, i, w.r[i], w.i[i], re[i], im[i]);
        static SimplePlaintext<G> sp, sr; for (int i = 0; i < N; i++) sp[i] = sr[i] = 1e99; encode(z, D, sp); encode_raw(z, D, sr); step(2); for (int i = 0; i < N; i++) { LD e = fabsl(sp[i] - toLD(v[i])); bool tie = fabsl(fabsl(m[i] * D - floorl(m[i] * D)) - 0.5L) <= eps + 1e-9L; MC_CHECK(e <= eps + (tie ? 1.0L : 0.0L), "SimplePlaintext encode<%d> coefficient %d is %.17g, integer type has %s", G, i, sp[i], S(v[i]).c_str()); MC_CHECK(sp[i] == floor(sp[i]), "SimplePlaintext encode<%d> coefficient %d is not an integer", G, i); MC_CHECK(fabsl(sr[i] - m[i] * D) <= eps + 1e-300L, "encode_raw<%d> coefficient %d is %.17g want %.17Lg", G, i, sr[i], m[i] * D); }
        Message<G> u; decode(sp, D, u); step(); for (int i = 0; i < M; i++) MC_CHECK(fabs(u.r[i] - w.r[i]) + fabs(u.i[i] - w.i[i]) <= 2.0 * (N) / D * 0.5 + 1e-12 * G * (double)sc, "SimplePlaintext decode<%d> slot %d is (%.17g,%.17g), integer type gives (%.17g,%.17g)", G, i, u.r[i], u.i[i], w.r[i], w.i[i]);
    }
    // constant messages at power-of-two scales: the product with the scale is exact in double, so the rounding must be too
    void exact(double val, u64 D) {
        double c = val / (double)D; if (c * (double)D != val || !std::isfinite(c)) return; if (fabs(val) >= ldexp(1.0, std::min(L - 1, 1000)) - 1) return; static double m0[N];
        for (int half = 0; half < 2; half++) { for (int i = 0; i < M; i++) { z.r[i] = half ? 0 : c; z.i[i] = half ? c : 0; } ifft<G>(z.r, z.i, m0); dirty(); at("encode exact", L, G, (long)D, n); encode<L, G>(z, D, *p); step(); trace(); state(hash(dhash(z.r, M, dhash(z.i, M)), D, L, 9)); MC_CHECK(pcanon(*p), "encode<%d,%d> at scale %llu wrote a non-canonical coefficient", L, G, (unsigned long long)D);
            I v = sval<L>((*p)[half * M]), a = v < 0 ? I(-v) : v; auto near = [&](LD x) { x = fabsl(x); LD f = floorl(x); I q; { int ex; LD mm = frexpl(f, &ex); q = I((u64)ldexpl(mm, 64)); if (ex >= 64) q <<= ex - 64; else q >>= 64 - ex; } LD d = x - f; return d < 0.5L ? a == q : d > 0.5L ? a == q + 1 : a == q || a == q + 1; };
            bool sg = v == 0 || (v < 0) == (val < 0); MC_CHECK(sg && (near(val) || near((LD)m0[half * M] * D)), "encode<%d,%d> at scale %llu: coefficient %d is %s, want nearest to %.20Lg", L, G, (unsigned long long)D, half * M, S(v).c_str(), (LD)val); }
    }
    void exacts() {
        int cnt = 0; for (int k = 0; k < std::min(L, 1000); k += k < 70 || k % 64 == 62 || k % 64 == 63 || k % 64 == 0 || k % 64 == 1 ? 1 : k % 64 < 60 ? 7 : 1) for (double f : {0.0, 0.5, 1.0, 1.5, 3.0, 7.0}) for (int u = -2; u <= 2; u++) for (int s : {1, -1}) { double v = ldexp(1.0, k) + f; for (int t = 0; t < abs(u); t++) v = nextafter(v, u < 0 ? 0 : 1e300); for (u64 D : {1ull, 1ull << 30, 1ull << 50, 1ull << 62}) { exact(s * v, D); cnt++; } if (k == 0) exact(s * (v - 1), 1), exact(s * v / 2, 1 << 20), exact(s * v / 4, 1); }
        bound("encode LOGQ=%d LOGN=%d: %d constants at 2^k+f and the doubles next to them, exact rounding", L, G, cnt);
    }
    void dirty0() { for (int i = 0; i < M; i++) { w.r[i] = 1e77; w.i[i] = -1e99; } }
    void decv(const P &v) {   // decode any polynomial at many scales
        pset(*p, v); u64 h = phash(*p); state(hash(h, L, G, 3)); V c(N); int top = 0; for (int i = 0; i < N; i++) { I x = center(v[i], Q); c[i] = toLD(x); if (x != 0) top = std::max(top, (int)msb(x < 0 ? I(-x) : x)); }
        V re, im; emb(c, re, im); LD s = l1(c);
        auto chk = [&](LD D, const char *what, long k) { LD t = 1e-13L * G * s / D + 1e-310L; for (int i = 0; i < M; i++) MC_CHECK(fabsl(w.r[i] - re[i] / D) <= t && fabsl(w.i[i] - im[i] / D) <= t, "%s<%d,%d> at scale %ld of %s: slot %d is (%.17g,%.17g), want (%.17Lg,%.17Lg)", what, L, G, k, PS(v).c_str(), i, w.r[i], w.i[i], re[i] / D, im[i] / D); MC_CHECK(phash(*p) == h, "%s<%d,%d> changed the plaintext", what, L, G); };
        if (top < 1010) for (u64 D : {1ull, 3ull, 1ull << 20, 1ull << 50, 1ull << 60, 1ull << 63, ~0ull}) { dirty0(); at("decode", L, G, (long)D); decode<L, G>(*p, D, w); step(); trace(); chk((LD)D, "decode", (long)D); }
        for (int k : {0, 1, 20, 50, 60, 63, 64, 65, 127, 128, 130, 200, 400, 700, 1000, 1300, -5}) if (top - k < 1010 && k - top < 980) { dirty0(); at("decode_log", L, G, k); decode_log<L, G>(*p, k, w); step(); trace(); chk(ldexpl(1, k), "decode_log", k); }
    }
    void decodes(int lvl) {
        auto a = zalpha(L, lvl); u64 q = 0; for (auto &x : a) { P v(N, I(0)); v[(q * 3) % N] = x; decv(v); q++; } for (size_t i = 0; i < a.size(); i += N / 2) { P v(N); for (int j = 0; j < N; j++) v[j] = a[(i + j) % a.size()]; decv(v); } P e(N, -pow2(L - 1)); decv(e); e.assign(N, pow2(L - 1) - 1); decv(e); e.assign(N, I(0)); decv(e); bound("decode LOGQ=%d LOGN=%d: %zu structured coefficient values, 7 scales, 17 logarithmic scales", L, G, a.size());
    }
    void encodes() {
        V o(M, 0), one(M, 1); int b = std::min(L - 1, 63); int cnt = 0;
        // constant messages give one exactly known coefficient: fractions around every tie
        for (int k = 0; k < b; k++) for (double f : {0.0, 0.25, 0.49, 0.5, 0.51, 0.75, -0.25}) for (int s : {1, -1}) { if (k > 48 && f != 0) continue; double val = s * (ldexp(1.0, k) + f); for (u64 D : {1ull, 1ull << 10, 1ull << 40}) { V c(M, (LD)(val / (double)D)); enc(c, o, D); enc(o, c, D); cnt++; } }
        for (double f : {0.25, 0.49, -0.49, 0.75, -0.75, 1e-30, -1e-30, 0.0, -0.0}) { V c(M, f); enc(c, o, 1); enc(o, c, 1); }
        // dense messages at growing scales
        u64 s = 7 + L; for (int e = 0; e < b - 1; e += 3) { V a(M), c(M); for (int i = 0; i < M; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; a[i] = (double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4; s = s * 6364136223846793005ull + 1442695040888963407ull; c[i] = (double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4; } enc(a, c, 1ull << e); enc(a, c, (1ull << e) + (1ull << e) / 3); }
        for (int i = 0; i < M; i++) for (int e : {2, 10, 30, 50, 60}) if (e < b) { V a(M, 0); a[i] = 0.7; enc(a, o, 1ull << e); a[i] = -0.7; enc(o, a, 1ull << e); }
        // coefficients of several limbs: dense and one-slot messages of growing magnitude
        for (int e = 60; e < std::min(L - 1, 1000); e += e % 64 > 58 || e % 64 < 3 ? 1 : 9) { V a(M), c(M); for (int i = 0; i < M; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; a[i] = ldexp((double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4, e - 50); s = s * 6364136223846793005ull + 1442695040888963407ull; c[i] = ldexp((double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4, e - 50); } enc(a, c, 1ull << 50); enc(c, a, (1ull << 50) + 12345); V one1(M, 0); one1[e % M] = e % 2 ? -ldexp(1.25, e - 62) : ldexp(1.5, e - 62); enc(one1, o, 1ull << 62); enc(o, one1, 1ull << 62); }
        bound("encode LOGQ=%d LOGN=%d: constants 2^k+fraction for k<%d, dense and one-slot messages at scales 2^0..2^%d, coefficients up to 2^%d", L, G, b, b - 1, L - 2); (void)cnt;
    }
};
// large slot counts
template <int L, int G> static void big(bool full) { typedef E<L, G> X; auto up = std::make_unique<X>(); X &e = *up; const int N = X::N, M = X::M; V o(M, 0); int b = std::min(L - 2, 59);
    if (full) { u64 s = 7 + L; for (int k : {0, 10, 30, b}) { V a(M), c(M); for (int i = 0; i < M; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; a[i] = (double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4; s = s * 6364136223846793005ull + 1442695040888963407ull; c[i] = (double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4; } e.enc(a, c, (1ull << k) + (k % 3 ? (1ull << k) / 3 : 0)); }
        if (L >= 130) { V a(M), c(M); for (int i = 0; i < M; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; a[i] = ldexp((double)((int64_t)s >> 11) / 4503599627370496.0 * 0.4, i % 64); c[i] = i % 3 ? -a[i] : ldexp(1.0, i % 60); } e.enc(a, c, 1ull << 62); }
        V c(M, 3.75); e.enc(c, o, 1ull << 20); e.enc(o, c, 1ull << 20); P v(N); auto al = zalpha(L, 0); for (int i = 0; i < N; i++) v[i] = al[(i * 5) % al.size()]; e.decv(v); for (int i = 0; i < N; i++) v[i] = i % 2 ? I(-pow2(L - 1)) : I(pow2(L - 1) - 1); e.decv(v); }
    for (int i : {0, 1, M / 2, M - 1}) { V a(M, 0); a[i] = 0.7; e.enc(a, o, 1ull << b); a[i] = -1.5; e.enc(o, a, 1ull << (b - 1)); P v(N, I(0)); v[i * 2 + 1] = -pow2(L - 1); v[i] = pow2(L - 1) - 1; e.decv(v); }
    bound("LOGQ=%d LOGN=%d: %sone-slot messages, sparse plaintexts at every scale", L, G, full ? "dense, constant, " : ""); }
template <int L> struct Enc { static void go() { E<L, 2> e; if (L >= 2) { e.encodes(); e.exacts(); } E<L, 2> d; d.decodes(L <= 66 ? 1 : 0); } };
#if PART < 4
SCEN(all_precisions, 0) { each_t<Enc>(Range<1 + 33 * PART, 33 + 33 * PART>()); sample("LOGQ=%d LOGN=2: decode of every power of two, sign boundary and limb pattern at 24 scales", 33 + 33 * PART); }
#elif PART == 4
SCEN(limb_edges, 0) { each_t<Enc>(List<191, 192, 193, 255, 256, 257, 319, 320, 321, 385, 449, 513, 640, 641, 705>()); }
SCEN(wide, 0) { { E<1001, 2> d; d.decodes(0); } { E<1025, 2> d; d.decodes(0); } { E<1450, 2> d; d.decodes(0); } { E<1300, 3> d; d.decodes(0); } { E<2900, 2> d; d.decodes(0); } }
#else
SCEN(sizes, 0) { { E<60, 3> e; e.encodes(); e.decodes(1); } { E<64, 4> e; e.encodes(); e.decodes(1); } { E<65, 3> e; e.encodes(); e.decodes(0); } { E<128, 5> e; e.encodes(); e.decodes(0); } { E<130, 6> e; e.encodes(); } { E<60, 9> e; e.encodes(); } { E<640, 4> e; e.encodes(); e.decodes(0); } }
template <int G> static void sconv() { const int N = 1 << G; static SimplePlaintext<G> a, b, c; for (int q = 0; q < 80; q += G > 8 ? 7 : 1) { P x(N), y(N); for (int i = 0; i < N; i++) { x[i] = q % 4 == 0 ? (i == q / 4 % N ? 1 : 0) : (i * 7 + q) % 11 - 5; y[i] = (i * i * 3 + q) % 13 - 6; a[i] = (double)x[i]; b[i] = (double)y[i]; c[i] = 1e9; } const SimplePlaintext<G> &bb = q % 5 ? b : a; P w = pmul(x, q % 5 ? y : x); conv(a, bb, c); step(); trace(); state(hash(G, q, 8)); for (int i = 0; i < N; i++) MC_CHECK(c[i] == (double)w[i], "SimplePlaintext conv<%d> coefficient %d is %g want %s", G, i, c[i], S(w[i]).c_str());
    add(a, b, c); for (int i = 0; i < N; i++) MC_CHECK(c[i] == (double)x[i] + (double)y[i], "SimplePlaintext add<%d>", G); sub(a, b, c); double ss = 0; for (int i = 0; i < N; i++) { ss += (double)(x[i] * x[i]); MC_CHECK(c[i] == (double)x[i] - (double)y[i], "SimplePlaintext sub<%d>", G); } MC_CHECK(square_sum(a) == ss && fabs(norm(a) - sqrt(ss)) <= 1e-12 * sqrt(ss), "SimplePlaintext norm<%d>", G); step(4); } bound("SimplePlaintext conv/add/sub/norm LOGN=%d: 80 operand pairs", G); }
SCEN(large, 0) { big<60, 7>(true); big<64, 8>(true); big<65, 9>(true); big<60, 10>(true); big<130, 10>(true); big<1450, 9>(true); big<640, 10>(true); }
SCEN(large_b, 0) { big<60, 11>(true); big<64, 12>(true); big<60, 13>(false); big<65, 14>(false); }
SCEN(large_c, 0) { big<60, 15>(false); big<60, 16>(false); big<30, 17>(false); }
SCEN(simple, 0) { sconv<9>(); sconv<10>(); sconv<2>(); sconv<3>(); sconv<5>(); sconv<7>(); }
SCEN(sizes_deep, 1) { { E<60, 10> e; e.encodes(); } { E<640, 6> e; e.encodes(); e.decodes(1); } { E<1450, 5> e; e.decodes(1); } }
#endif
}
MC_MAIN
