// A cooperative scheduler with stand-ins for the standard threading types.
// Every thread of the code under test is a fiber; exactly one runs at a time,
// and control moves between them only at synchronisation operations (and where
// a driver calls Point).  Which fiber goes next is decided by a Policy, so an
// execution is a function of its choices: it can be repeated, chosen at random
// or enumerated.
//
// The file is given to the compiler with -include.  The code under test lives
// in namespace ceres::internal and writes std::mutex and so on; the namespace
// ceres::internal::std declared at the end makes those names mean the
// stand-ins there, and leaves every other name of ::std alone.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#include "race.h"

// The stand-ins are not themselves watched for races.
#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)

namespace sched {

inline bool Acquires(std::memory_order o) { return o != std::memory_order_relaxed && o != std::memory_order_release; }
inline bool Releases(std::memory_order o) {
  return o == std::memory_order_release || o == std::memory_order_acq_rel || o == std::memory_order_seq_cst;
}

// ---- scheduling -----------------------------------------------------------
struct Policy {
  virtual ~Policy() = default;
  // Picks one of the n candidates.  `current` is the index of the fiber that
  // is running now among them, or -1 if it cannot go on.
  virtual int Pick(int n, int current, const int* ids) = 0;
  // Whether a waiting fiber is woken for no reason at this point.
  virtual bool Spurious() { return false; }
};
enum Outcome { FINISHED, DEADLOCK, LIVELOCK, ABORTED };
// Runs main as the first fiber until it returns.
Outcome Run(Policy* policy, const std::function<void()>& main, long max_steps = 400000);
extern std::string failure;       // what ABORTED means
int Leftover();                   // fibers not finished when main returned
bool Active();                    // inside a fiber
int Self();                       // its id (0 is main)
void Point();                     // others may run now
void YieldPoint();                // others should run now
void WaitQuiet();                 // go on when nothing else can
void Block(const void* key);      // until Wake(key)
void BlockCv(const void* key);    // until Wake, or for no reason
void Wake(const void* key, bool all);
void Fail(const std::string& why);
int Spawn(std::function<void()> f);
bool Done(int fiber);
extern unsigned hardware;         // hardware_concurrency()

// ---- the stand-ins --------------------------------------------------------
class mutex {
 public:
  constexpr mutex() noexcept = default;
  mutex(const mutex&) = delete;
  mutex& operator=(const mutex&) = delete;
  void lock() {
    Point();
    Acquire();
  }
  bool try_lock() {
    Point();
    if (owner_ != -1) return false;
    owner_ = Self();
    HbAcquire(this);
    return true;
  }
  void unlock() {
    Release();
    Point();
  }
  void Acquire() {
    if (owner_ == Self()) Fail("a thread locks a mutex it holds");
    while (owner_ != -1) Block(this);
    owner_ = Self();
    HbAcquire(this);
  }
  void Release() {
    if (owner_ != Self()) Fail("a thread unlocks a mutex it does not hold");
    owner_ = -1;
    HbRelease(this);
    Wake(this, true);
  }
  bool Held() const { return owner_ == Self(); }

 private:
  int owner_ = -1;
};

class recursive_mutex {
 public:
  void lock() {
    Point();
    while (n_ > 0 && owner_ != Self()) Block(this);
    owner_ = Self();
    HbAcquire(this);
    ++n_;
  }
  bool try_lock() {
    Point();
    if (n_ > 0 && owner_ != Self()) return false;
    owner_ = Self();
    HbAcquire(this);
    ++n_;
    return true;
  }
  void unlock() {
    if (n_ <= 0 || owner_ != Self()) Fail("a thread unlocks a mutex it does not hold");
    HbRelease(this);
    if (--n_ == 0) Wake(this, true);
    Point();
  }

 private:
  int owner_ = -1, n_ = 0;
};

class shared_mutex {
 public:
  void lock() {
    Point();
    while (writer_ || readers_) Block(this);
    HbAcquire(this);
    writer_ = true;
  }
  bool try_lock() {
    Point();
    if (writer_ || readers_) return false;
    HbAcquire(this);
    return writer_ = true;
  }
  void unlock() {
    HbRelease(this);
    writer_ = false;
    Wake(this, true);
    Point();
  }
  void lock_shared() {
    Point();
    while (writer_) Block(this);
    HbAcquire(this);
    ++readers_;
  }
  bool try_lock_shared() {
    Point();
    if (writer_) return false;
    HbAcquire(this);
    ++readers_;
    return true;
  }
  void unlock_shared() {
    HbRelease(this);
    --readers_;
    Wake(this, true);
    Point();
  }

 private:
  bool writer_ = false;
  int readers_ = 0;
};

enum class cv_status { no_timeout, timeout };

class condition_variable_any {
 public:
  condition_variable_any() = default;
  condition_variable_any(const condition_variable_any&) = delete;
  void notify_one() noexcept {
    Point();
    Wake(this, false);
  }
  void notify_all() noexcept {
    Point();
    Wake(this, true);
  }
  template <class L>
  void wait(L& lock) {
    // Releasing the lock and starting to wait are one step.
    if constexpr (std::is_same_v<L, std::unique_lock<mutex>>) {
      if (!lock.owns_lock()) Fail("wait without the lock");
      lock.mutex()->Release();
      BlockCv(this);
      lock.mutex()->Acquire();
    } else {
      lock.unlock();
      BlockCv(this);
      lock.lock();
    }
  }
  template <class L, class P>
  void wait(L& lock, P pred) {
    while (!pred()) wait(lock);
  }
  template <class L, class D>
  cv_status wait_for(L& lock, const D&) {
    lock.unlock();
    YieldPoint();
    lock.lock();
    return cv_status::timeout;
  }
  template <class L, class D, class P>
  bool wait_for(L& lock, const D& d, P pred) {
    while (!pred()) wait_for(lock, d);
    return true;
  }

 private:
  char key_ = 0;
};
using condition_variable = condition_variable_any;

template <class T>
class atomic {
 public:
  using value_type = T;
  atomic() noexcept : v_() {}
  constexpr atomic(T v) noexcept : v_(v) {}
  atomic(const atomic&) = delete;
  atomic& operator=(const atomic&) = delete;
  T load(std::memory_order o = std::memory_order_seq_cst) const { Point(); if (Acquires(o)) HbAcquire(this); return v_; }
  void store(T v, std::memory_order o = std::memory_order_seq_cst) { Point(); v_ = v; HbReset(this); if (Releases(o)) HbRelease(this); }
  operator T() const { return load(); }
  T operator=(T v) { store(v); return v; }
  template <class G> T Update(G g, std::memory_order o) {
    Point();
    if (Acquires(o)) HbAcquire(this);
    T old = v_;
    v_ = g(old);
    if (Releases(o)) HbRelease(this);
    return old;
  }
  T exchange(T v, std::memory_order o = std::memory_order_seq_cst) { return Update([&](T) { return v; }, o); }
  bool compare_exchange_strong(T& e, T d, std::memory_order o = std::memory_order_seq_cst, std::memory_order = std::memory_order_seq_cst) {
    Point();
    if (Acquires(o)) HbAcquire(this);
    if (v_ == e) { v_ = d; if (Releases(o)) HbRelease(this); return true; }
    e = v_;
    return false;
  }
  template <class... O> bool compare_exchange_weak(T& e, T d, O... o) { return compare_exchange_strong(e, d, o...); }
  template <class U> T fetch_add(U d, std::memory_order o = std::memory_order_seq_cst) { return Update([&](T x) { return T(x + d); }, o); }
  template <class U> T fetch_sub(U d, std::memory_order o = std::memory_order_seq_cst) { return Update([&](T x) { return T(x - d); }, o); }
  template <class U> T fetch_or(U d, std::memory_order o = std::memory_order_seq_cst) { return Update([&](T x) { return T(x | d); }, o); }
  template <class U> T fetch_and(U d, std::memory_order o = std::memory_order_seq_cst) { return Update([&](T x) { return T(x & d); }, o); }
  template <class U> T operator+=(U d) { return fetch_add(d) + d; }
  template <class U> T operator-=(U d) { return fetch_sub(d) - d; }
  T operator++() { return fetch_add(1) + 1; }
  T operator--() { return fetch_sub(1) - 1; }
  T operator++(int) { return fetch_add(1); }
  T operator--(int) { return fetch_sub(1); }
  bool is_lock_free() const { return true; }

 private:
  T v_;
};
using atomic_int = atomic<int>;
using atomic_bool = atomic<bool>;
struct atomic_flag {
  atomic<bool> v{false};
  bool test_and_set(std::memory_order o = std::memory_order_seq_cst) { return v.exchange(true, o); }
  void clear(std::memory_order o = std::memory_order_seq_cst) { v.store(false, o); }
};

class thread {
 public:
  using id = int;
  thread() noexcept = default;
  template <class F, class... A,
            class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, thread>>>
  explicit thread(F&& f, A&&... a) {
    auto call = [f = std::decay_t<F>(std::forward<F>(f)),
                 t = std::make_tuple(std::decay_t<A>(std::forward<A>(a))...)]() mutable {
      std::apply([&](auto&... x) { std::invoke(f, x...); }, t);
    };
    auto box = std::make_shared<decltype(call)>(std::move(call));
    id_ = Spawn([box] { (*box)(); });
    Point();
  }
  thread(thread&& o) noexcept : id_(o.id_) { o.id_ = -1; }
  thread& operator=(thread&& o) noexcept {
    if (id_ != -1) Fail("a joinable thread is assigned to");
    id_ = o.id_;
    o.id_ = -1;
    return *this;
  }
  ~thread() { if (id_ != -1) Fail("a joinable thread is destroyed"); }
  bool joinable() const { return id_ != -1; }
  void join() {
    if (id_ == -1) Fail("join of no thread");
    if (id_ == Self()) Fail("a thread joins itself");
    Point();
    while (!Done(id_)) Block(Key(id_));
    HbAcquire(Key(id_));
    id_ = -1;
  }
  void detach() { id_ = -1; }
  id get_id() const { return id_; }
  void swap(thread& o) { std::swap(id_, o.id_); }
  static unsigned hardware_concurrency() { return hardware; }
  static const void* Key(int id) { return reinterpret_cast<const void*>(intptr_t(id) * 16 + 7); }

 private:
  int id_ = -1;
};

namespace this_thread {
inline thread::id get_id() { return Self(); }
inline void yield() { YieldPoint(); }
template <class D> void sleep_for(const D&) { YieldPoint(); }
template <class D> void sleep_until(const D&) { YieldPoint(); }
}  // namespace this_thread

}  // namespace sched

#pragma clang attribute pop

namespace ceres::internal::std {
using namespace ::std;
using ::sched::atomic;
using ::sched::atomic_bool;
using ::sched::atomic_flag;
using ::sched::atomic_int;
using ::sched::condition_variable;
using ::sched::condition_variable_any;
using ::sched::cv_status;
using ::sched::mutex;
using ::sched::recursive_mutex;
using ::sched::shared_mutex;
using ::sched::thread;
namespace this_thread = ::sched::this_thread;
}  // namespace ceres::internal::std
