// C26: memory. SAN builds run every operation variant cold and warm under AddressSanitizer and UBSan; PAINT builds (no
// automatic initialisation) repeat every variant with stack, heap and output buffers painted with several patterns and
// require the same result; INPUTS builds compare every input object byte for byte after the call.
#if defined PAINT
#define OPBUF
#else
#define OPBUF static
#endif
#ifdef INPUTS
#define MC_INPUTS
#endif
#include "ops.h"
#include <malloc.h>
namespace mc {
static u64 exec(int o, int v) { env().reset(100 + o % 3); at(ops[o].name.c_str(), v); step(); return ops[o].f(v); }
static void paint(int pat) { size_t n = 3 << 20; volatile unsigned char *p = (volatile unsigned char *)alloca(n); u64 x = 0x1234567 + pat; if (pat >= 0) for (size_t i = 0; i < n; i++) p[i] = pat < 256 ? pat : (unsigned char)((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56); mallopt(M_PERTURB, pat < 0 ? 0 : pat & 255); }
static __attribute__((noinline)) void painted(int pat) { paint(pat); asm volatile("" ::: "memory"); }
static __attribute__((noinline)) u64 call(int o, int v) { return exec(o, v); }
#ifdef PAINT
static void all(int part, int parts) { defs(); std::vector<int> pats = {-1, 0x00, 0xff, 0xa5, 0x7f, 0x01, 256, 300}; if (tier()) for (int x : {0x80, 0x3f, 0x40, 0xfe, 0x55, 301, 302, 303}) pats.push_back(x); long n = 0;
    for (int o = part; o < (int)ops.size(); o += parts) for (int v = 0; v < ops[o].nv; v++) { u64 w = 0; for (size_t k = 0; k < pats.size(); k++) { painted(pats[k]); u64 h = call(o, v); n++; state(hash(o, v, pats[k])); outcome(h); if (k == 0) w = h; else if (h != w) fail("%s/%d: the result with memory previously filled with pattern %d differs from the one with pattern %d", ops[o].name.c_str(), v, pats[k], pats[0]); } trace(pats.size()); }
    bound("%zu operations, all variants, %zu contents of stack, heap and output buffers before the call (part %d of %d): %ld executions", ops.size(), pats.size(), part, parts, n); }
#elif defined INPUTS
static void all(int part, int parts) { defs(); long n = 0, m = 0; for (int o = part; o < (int)ops.size(); o += parts) for (int v = 0; v < ops[o].nv; v++) { inputs_.clear(); call(o, v); n++; state(hash(o, v)); for (auto &i : inputs_) { m++; if (memcmp(i.second.p, i.second.v.data(), i.second.v.size())) fail("%s/%d changes an input of %zu bytes (byte %zu)", ops[o].name.c_str(), v, i.second.v.size(), (size_t)(std::mismatch(i.second.v.begin(), i.second.v.end(), i.second.p).first - i.second.v.begin())); } trace(); } if (part == 0 && parts == 1 && !m) fail("no inputs registered"); bound("%zu operations, all variants (part %d of %d): %ld calls, %ld input objects compared byte for byte", ops.size(), part, parts, n, m); }
#else
static void all(int part, int parts) { defs(); long n = 0; for (int r = 0; r < 2; r++) for (int o = part; o < (int)ops.size(); o += parts) for (int v = 0; v < ops[o].nv; v++) { u64 h = call(o, v); n++; state(hash(o, v, r)); outcome(h); trace(); } bound("%zu operations, all variants, cold and warm (part %d of %d): %ld calls under AddressSanitizer and UBSan", ops.size(), part, parts, n); }
#endif
SCEN(all0, 0) { all(0, 2); sample("%s, every variant, cold then warm / over 8 memory contents", ops[0].name.c_str()); } SCEN(all1, 0) { all(1, 2); }
}
MC_MAIN
