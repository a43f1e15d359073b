#include <stdexcept>
#ifdef USE_OPENMP
#include "misc.hpp"
extern "C" { extern int64_t pool_threads, pool_reverse; void pool_task(int64_t k, void *frame); }
#else
#include "stubpool.hpp"
#endif
#include <iostream>
#include <memory>
#include "absgrp.hpp"
#include "msm.hpp"
#include "multiexp.hpp"
typedef HG::Point P; typedef HG::PointAffine A;
#define X extern "C" __attribute__((noinline))
#ifndef USE_OPENMP
X void h_msm(P*r,A*b,uint8_t*s,uint64_t ss,uint64_t n){HG g; MSM<HG,SymF> m(g); m.run(*r,b,s,ss,n);}
#endif
X void h_multi(P*r,A*b,uint8_t*s,uint64_t ss,uint64_t n,uint64_t nt){HG g; ParallelMultiexp<HG> m(g); m.multiexp(*r,b,s,ss,n,nt);}
X void h_multix(P*r,A*b,uint8_t*s,uint64_t*q){HG g; ParallelMultiexp<HG> m(g); m.multiexp(*r,b,s,q[0],q[1],q[2],q+4,q[3]);}
X void h_setpool(int64_t t,int64_t rev){pool_threads=t;pool_reverse=rev;}
