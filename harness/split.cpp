#include "splitparstr.hpp"
#include <cstdint>
#include <cstring>
extern "C" __attribute__((noinline)) uint64_t h_split(const char *s, uint64_t n, uint64_t *lens, char *out, uint64_t cap) {
    std::vector<std::string> v = splitParStr(std::string(s, n));
    uint64_t o = 0;
    for (uint64_t i = 0; i < v.size(); i++) {
        if (i < cap) lens[i] = v[i].size();
        for (uint64_t j = 0; j < v[i].size(); j++) { if (o < 2 * n + 8) out[o] = v[i][j]; o++; }
    }
    return v.size();
}
