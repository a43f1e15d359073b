// stands in for misc.hpp: a thread pool of a chosen size that runs the pieces one after the other, forwards or
// backwards (what the real pool does with them is decided separately)
#ifndef MISC_H
#define MISC_H
#ifdef USE_OPENMP
#include <omp.h>
#endif
#include <cstdint>
#include <cassert>
#include <vector>
#include <thread>
#include <atomic>
#include <mutex>
#include <condition_variable>
#include <functional>
uint32_t log2(uint32_t value);
extern "C" { extern int64_t pool_threads, pool_reverse; void pool_task(int64_t k, void *frame); }
#ifdef _OPENMP
class ThreadLimit { public: ThreadLimit(uint32_t) {} };
#endif
class ThreadPool {
public:
    ThreadPool(unsigned int = 0) {}
    static unsigned int defaultThreadCount() { return (unsigned int)pool_threads; }
    static ThreadPool &defaultPool() { static ThreadPool p; return p; }
    unsigned int getThreadCount() const { return (unsigned int)pool_threads; }
    static std::vector<int> divideWork(int n, int t) {
        assert(n > 0); assert(t > 0);
        int k = n < t ? n : t;
        std::vector<int> v(k, n / k);
        for (int i = 0; i < n % k; i++) v[i]++;
        return v;
    }
    // out of line, so that a piece's own variables are in a frame of their own
    template<typename F> __attribute__((noinline)) static void piece3(F &f, int a, int b, int i) { f(a, b, i); }
    template<typename F> __attribute__((noinline)) static void piece2(F &f, int a, int b) { f(a, b); }
    template<typename F> __attribute__((noinline)) void parallelFor(int begin, int end, F &&f) {
        auto v = divideWork(end - begin, (int)pool_threads);
        int n = (int)v.size(), at = begin;
        std::vector<int> st(n);
        for (int i = 0; i < n; i++) { st[i] = at; at += v[i]; }
        for (int j = 0; j < n; j++) {
            int i = pool_reverse ? n - 1 - j : j;
            pool_task(i, __builtin_frame_address(0));
            piece3(f, st[i], st[i] + v[i], i);
            pool_task(-1, __builtin_frame_address(0));
        }
        pool_task(-2, __builtin_frame_address(0));
    }
    template<typename F> __attribute__((noinline)) void parallelBlock(F &&f) {
        int n = (int)pool_threads;
        for (int j = 0; j < n; j++) {
            int i = pool_reverse ? n - 1 - j : j;
            pool_task(i, __builtin_frame_address(0));
            piece2(f, i, n);
            pool_task(-1, __builtin_frame_address(0));
        }
        pool_task(-2, __builtin_frame_address(0));
    }
};
#endif
