// Controlled scheduler: user-level fibers, every synchronisation operation is a scheduling point,
// the next thread is an explorer choice (bounded number of preemptions), vector-clock race
// detection on every instrumented plain memory access.
#pragma once
#include "mc.h"
#include <cstddef>
#include <functional>
namespace sched {
struct Opts { int preemptions = 2; int spurious = 0; int horizon = 20000; };
void run(mc::Ctx& ctx, const Opts& o, std::function<void()> main_body); // runs body as fiber 0 until every fiber ended
int  spawn(std::function<void()> f);
void join(int id);
bool finished(int id);
int  self();
void yield();                              // voluntary switch point (costs no preemption)
void point();                              // plain scheduling point
void sleep_like();                         // lets every other enabled thread run first
void block_until(std::function<bool()> p, const char* what); // enabled only while p() holds
[[noreturn]] void fail(const std::string& key, const std::string& msg);
void check(bool ok, const char* key, const std::string& msg);
int  choose(int n);
void note(const std::string&);
bool active();
// mutex / cv / atomics
struct MutexImpl { int owner = -1; int depth = 0; int readers = 0; void* vc = nullptr; ~MutexImpl(); };
void lock(MutexImpl&, bool recursive = false); bool try_lock(MutexImpl&, bool recursive = false); void unlock(MutexImpl&);
void lock_shared(MutexImpl&); void unlock_shared(MutexImpl&);
struct CvImpl { void* q = nullptr; ~CvImpl(); };
void cv_wait(CvImpl&, std::function<void()> unlock, std::function<void()> lock);
bool cv_wait_timed(CvImpl&, std::function<void()> unlock, std::function<void()> lock); // false: timed out
void cv_notify(CvImpl&, bool all);
void atomic_pre(const void* addr);                              // scheduling point before an atomic access
void atomic_acquire(const void* addr); void atomic_release(const void* addr, bool rmw); // clock transfer
void atomic_forget(const void* addr);
// happens-before queries for the oracle
uint64_t event();                          // a new event of the running fiber; returns an id
bool happened_before(uint64_t ev);         // event ev happens-before "now" of the running fiber
int  nfibers();
struct Stat { uint64_t points = 0, switches = 0; };
Stat stats();
}
