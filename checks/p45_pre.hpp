// Every rank is a process of its own: the counters of calls, which are static variables of the algorithms, get one value per
// rank here, and start from zero in every execution.
#pragma once
#include <bits/stdc++.h>
#include <mpi.h>
#include <blas.hh>
#include <lapack.hh>
#include <vp/hb.hpp>
#include <vp/runtime.hpp>
#include <pika/execution.hpp>
#include <pika/semaphore.hpp>
#include <pika/thread.hpp>
#include <pika/mutex.hpp>
namespace vp {
inline unsigned h5_execution = 0;
}
namespace std {
template <class T>
class vp_counter {
  unsigned execution_ = 0;
  T v_[64] = {}, start_;
  T& get() {
    if (execution_ != vp::h5_execution) {
      for (T& x : v_)
        x = start_;
      execution_ = vp::h5_execution;
    }
    return v_[vp::current_rank()];
  }

public:
  vp_counter(T x) : start_(x) {}
  operator T() {
    vp::HbIgnore h;
    return get();
  }
  T operator++() {
    vp::HbIgnore h;
    return ++get();
  }
  T operator++(int) {
    vp::HbIgnore h;
    return get()++;
  }
  T operator+=(T x) {
    vp::HbIgnore h;
    return get() += x;
  }
  T load() {
    return *this;
  }
  T fetch_add(T x) {
    vp::HbIgnore h;
    const T r = get();
    get() += x;
    return r;
  }
};
}
#define atomic vp_counter
