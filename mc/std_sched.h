// Replaces the standard synchronisation types by scheduler-controlled ones in headers included after
// this one.  Include every standard header the code under test may use *before* the macros.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <deque>
#include <exception>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include "mcsched.h"
#define VP_NI __attribute__((no_sanitize("thread"), noinline))
namespace std {
struct vp_mutex { sched::MutexImpl m; vp_mutex() = default; vp_mutex(const vp_mutex&) = delete; vp_mutex& operator=(const vp_mutex&) = delete;
	VP_NI void lock() { sched::lock(m); } VP_NI bool try_lock() { return sched::try_lock(m); } VP_NI void unlock() { sched::unlock(m); } };
struct vp_recursive_mutex { sched::MutexImpl m; VP_NI void lock() { sched::lock(m, true); } VP_NI bool try_lock() { return sched::try_lock(m, true); } VP_NI void unlock() { sched::unlock(m); } };
struct vp_shared_mutex { sched::MutexImpl m; VP_NI void lock() { sched::lock(m); } VP_NI bool try_lock() { return sched::try_lock(m); } VP_NI void unlock() { sched::unlock(m); }
	VP_NI void lock_shared() { sched::lock_shared(m); } VP_NI void unlock_shared() { sched::unlock_shared(m); } VP_NI bool try_lock_shared() { sched::lock_shared(m); return true; } };
struct vp_condition_variable { sched::CvImpl c; vp_condition_variable() = default; vp_condition_variable(const vp_condition_variable&) = delete;
	VP_NI void notify_one() noexcept { sched::cv_notify(c, false); } VP_NI void notify_all() noexcept { sched::cv_notify(c, true); }
	template<class L> VP_NI void wait(L& l) { sched::cv_wait(c, [&l] { l.unlock(); }, [&l] { l.lock(); }); }
	template<class L, class P> void wait(L& l, P p) { while (!p()) wait(l); }
	template<class L, class R, class Pd> VP_NI cv_status wait_for(L& l, const chrono::duration<R, Pd>&) { return sched::cv_wait_timed(c, [&l] { l.unlock(); }, [&l] { l.lock(); }) ? cv_status::no_timeout : cv_status::timeout; }
	template<class L, class R, class Pd, class P> bool wait_for(L& l, const chrono::duration<R, Pd>& d, P p) { while (!p()) if (wait_for(l, d) == cv_status::timeout) return p(); return true; }
	template<class L, class C, class D> cv_status wait_until(L& l, const chrono::time_point<C, D>&) { return wait_for(l, chrono::seconds(1)); }
	template<class L, class C, class D, class P> bool wait_until(L& l, const chrono::time_point<C, D>&, P p) { return wait_for(l, chrono::seconds(1), p); }
};
struct vp_thread { int id = -1; std::function<void()>* dummy = nullptr;
	vp_thread() noexcept = default;
	template<class F, class... A> VP_NI explicit vp_thread(F&& f, A&&... a) { auto t = std::make_tuple(std::decay_t<F>(std::forward<F>(f)), std::decay_t<A>(std::forward<A>(a))...);
		auto p = std::make_shared<decltype(t)>(std::move(t)); id = sched::spawn([p] { std::apply([](auto& fn, auto&... as) { std::invoke(std::move(fn), std::move(as)...); }, *p); }); }
	vp_thread(vp_thread&& o) noexcept : id(o.id) { o.id = -1; } vp_thread(const vp_thread&) = delete;
	vp_thread& operator=(vp_thread&& o) noexcept { if (id >= 0) std::terminate(); id = o.id; o.id = -1; return *this; }
	~vp_thread() { if (id >= 0) sched::fail("terminate", "a joinable thread object was destroyed"); }
	bool joinable() const noexcept { return id >= 0; }
	VP_NI void join() { int i = id; id = -1; sched::join(i); } VP_NI void detach() { id = -1; }
	std::thread::id get_id() const noexcept { return std::thread::id(); } int native_handle() { return id; }
	static unsigned hardware_concurrency() noexcept { return 2; } };
namespace vp_this_thread { inline void yield() { sched::yield(); } template<class D> void sleep_for(const D&) { sched::sleep_like(); } template<class D> void sleep_until(const D&) { sched::sleep_like(); } inline int get_id() { return sched::self(); } }
template<class T> struct vp_atomic {
	T v; VP_NI vp_atomic(T x = T()) noexcept : v(x) { sched::atomic_forget(this); } vp_atomic(const vp_atomic&) = delete; vp_atomic& operator=(const vp_atomic&) = delete;
	static bool acq(memory_order o) { return o == memory_order_acquire || o == memory_order_acq_rel || o == memory_order_seq_cst || o == memory_order_consume; }
	static bool rel(memory_order o) { return o == memory_order_release || o == memory_order_acq_rel || o == memory_order_seq_cst; }
	VP_NI T load(memory_order o = memory_order_seq_cst) const noexcept { sched::atomic_pre(this); if (acq(o)) sched::atomic_acquire(this); return v; }
	VP_NI void store(T x, memory_order o = memory_order_seq_cst) noexcept { sched::atomic_pre(this); if (rel(o)) sched::atomic_release(this, false); else sched::atomic_forget(this); v = x; }
	template<class F> VP_NI T rmw(F f, memory_order o) noexcept { sched::atomic_pre(this); if (acq(o)) sched::atomic_acquire(this); if (rel(o)) sched::atomic_release(this, true); T old = v; v = f(old); return old; }
	T exchange(T x, memory_order o = memory_order_seq_cst) noexcept { return rmw([x](T) { return x; }, o); }
	VP_NI bool compare_exchange_strong(T& e, T x, memory_order o = memory_order_seq_cst, memory_order = memory_order_seq_cst) noexcept { sched::atomic_pre(this); if (acq(o)) sched::atomic_acquire(this); if (v == e) { if (rel(o)) sched::atomic_release(this, true); v = x; return true; } e = v; return false; }
	bool compare_exchange_weak(T& e, T x, memory_order o = memory_order_seq_cst, memory_order p = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, x, o, p); }
	template<class U = T> T fetch_add(U d, memory_order o = memory_order_seq_cst) noexcept { return rmw([d](T x) { return T(x + d); }, o); }
	template<class U = T> T fetch_sub(U d, memory_order o = memory_order_seq_cst) noexcept { return rmw([d](T x) { return T(x - d); }, o); }
	template<class U = T> T fetch_or(U d, memory_order o = memory_order_seq_cst) noexcept { return rmw([d](T x) { return T(x | d); }, o); }
	template<class U = T> T fetch_and(U d, memory_order o = memory_order_seq_cst) noexcept { return rmw([d](T x) { return T(x & d); }, o); }
	T operator++() noexcept { return T(fetch_add(1) + 1); } T operator--() noexcept { return T(fetch_sub(1) - 1); } T operator++(int) noexcept { return fetch_add(1); } T operator--(int) noexcept { return fetch_sub(1); }
	T operator+=(T d) noexcept { return T(fetch_add(d) + d); } T operator-=(T d) noexcept { return T(fetch_sub(d) - d); }
	operator T() const noexcept { return load(); } T operator=(T x) noexcept { store(x); return x; }
	bool is_lock_free() const noexcept { return true; }
};
struct vp_atomic_flag { vp_atomic<bool> b{false}; vp_atomic_flag() = default; bool test_and_set(memory_order o = memory_order_seq_cst) noexcept { return b.exchange(true, o); } void clear(memory_order o = memory_order_seq_cst) noexcept { b.store(false, o); } };
using vp_atomic_bool = vp_atomic<bool>; using vp_atomic_int = vp_atomic<int>; using vp_atomic_size_t = vp_atomic<size_t>; using vp_atomic_uint = vp_atomic<unsigned>; using vp_atomic_long = vp_atomic<long>;
}
#define mutex vp_mutex
#define recursive_mutex vp_recursive_mutex
#define shared_mutex vp_shared_mutex
#define timed_mutex vp_mutex
#define condition_variable vp_condition_variable
#define condition_variable_any vp_condition_variable
#define thread vp_thread
#define this_thread vp_this_thread
#define atomic vp_atomic
#define atomic_flag vp_atomic_flag
#define atomic_bool vp_atomic_bool
#define atomic_int vp_atomic_int
#define atomic_size_t vp_atomic_size_t
#define atomic_uint vp_atomic_uint
#define atomic_long vp_atomic_long
#undef ATOMIC_FLAG_INIT
#define ATOMIC_FLAG_INIT {}
#undef ATOMIC_VAR_INIT
#define ATOMIC_VAR_INIT(x) x
