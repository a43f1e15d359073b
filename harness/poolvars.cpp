#include <cstdint>
extern "C" { int64_t pool_threads = 1, pool_reverse = 0; }
