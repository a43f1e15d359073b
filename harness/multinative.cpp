#include <cstdint>
extern "C" {
void sf_add(uint64_t *r, const uint64_t *a, const uint64_t *b);
int64_t pool_threads = 1, pool_reverse = 0;
void pool_task(int64_t, void *) {}
void hg_mul(uint64_t *r, const uint64_t *b, const uint8_t *s, uint64_t n) {
    uint64_t y = 0, x = *b;
    for (uint64_t i = n * 8; i-- > 0;) { sf_add(&y, &y, &y); if (s[i >> 3] >> (i & 7) & 1) sf_add(&y, &y, &x); }
    *r = y;
}
}
