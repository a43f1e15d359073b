#include <stdexcept>
#include <iostream>
#include "sf.hpp"
SymF SymF::field;
#include "naf.hpp"
#include "misc.hpp"
#include "fft.hpp"
#define X extern "C" __attribute__((noinline))
X void h_naf(uint8_t *r, uint8_t *s, unsigned n) { buildNaf(r, s, n); }
X uint64_t h_log2(uint32_t v) { return log2(v); }
X uint64_t h_br(uint64_t x, uint64_t p) { return BR(x, p); }
X uint64_t h_divide(int n, int t, int *out, uint64_t cap) {
    std::vector<int> v = ThreadPool::divideWork(n, t);
    for (uint64_t i = 0; i < v.size() && i < cap; i++) out[i] = v[i];
    return v.size();
}
