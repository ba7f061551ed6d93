// Shared driver of the ThreadPool explorations (C01, C02): real ThreadPool.h on the controlled scheduler.
#pragma once
#include "std_sched.h"
#include <mml/tools/ThreadPool.h>
#include <memory>
#include <vector>
#include <string>
namespace pool {
using sched::check;

struct Rec { int starts = 0, ends = 0; bool enq_done = false, throws = false; int payload = 0; uint64_t enq_ev = 0; };
#define NOI __attribute__((no_sanitize("thread"), noinline))
// exception objects are released through reference counts inside libstdc++ (not instrumented)
struct TaskErr : std::runtime_error { int id; NOI TaskErr(int i) : std::runtime_error("task"), id(i) {} NOI TaskErr(const TaskErr& o) : std::runtime_error(o), id(o.id) {} NOI ~TaskErr() {} };
// Bookkeeping containers live outside race instrumentation (the scheduler runs one fiber at a time).
template<class T> struct List { T a[24]; int n = 0;
	NOI void push_back(const T& x) { if (n == 24) sched::fail("runaway", "more events than any correct run can produce"); a[n++] = x; }
	NOI T& operator[](size_t i) { return a[i]; } NOI size_t size() const { return n; } NOI T& back() { return a[n - 1]; } NOI T* begin() { return a; } NOI T* end() { return a + n; }
	NOI std::vector<T> sorted() { std::vector<T> v(a, a + n); std::sort(v.begin(), v.end()); return v; } NOI std::vector<T> vec() { return std::vector<T>(a, a + n); } };
struct World {
	List<Rec> t; List<int> order; MML::ThreadPool* p = nullptr;
	NOI int fresh(bool th) { t.push_back(Rec{}); t.back().throws = th; return (int)t.size() - 1; }
};
// `payload` is a genuine shared plain variable watched by the race detector (put/get are instrumented).
NOI inline void on_start(World& w, int i) { w.t[i].starts++; w.order.push_back(i); sched::note("start task " + std::to_string(i)); }
NOI inline void on_end(World& w, int i) { w.t[i].ends++; sched::note("end task " + std::to_string(i)); }
__attribute__((noinline)) inline void put(World& w, int i) { w.t.a[i].payload = 100 + i; }
__attribute__((noinline)) inline int get(World& w, int i) { return w.t.a[i].payload; }
NOI inline void task_ok(World& w, int i, bool yields) { on_start(w, i); put(w, i); if (yields) sched::point(); on_end(w, i); }
NOI inline void task_throw(World& w, int i) { on_start(w, i); put(w, i); on_end(w, i); throw TaskErr(i); }
NOI inline void mark_enq(World& w, int i) { w.t[i].enq_done = true; }
NOI inline int fresh(World& w, bool th) { return w.fresh(th); }
NOI inline int enq_ok(World& w, bool y = false) { int i = fresh(w, false); sched::note("enqueue " + std::to_string(i)); w.p->enqueue([&w, i, y] { task_ok(w, i, y); }); mark_enq(w, i); return i; }
NOI inline int enq_throw(World& w) { int i = fresh(w, true); sched::note("enqueue throwing " + std::to_string(i)); w.p->enqueue([&w, i] { task_throw(w, i); }); mark_enq(w, i); return i; }
NOI inline int enq_nested(World& w) { int i = fresh(w, false); sched::note("enqueue nesting " + std::to_string(i)); w.p->enqueue([&w, i] { on_start(w, i); put(w, i); enq_ok(w); on_end(w, i); }); mark_enq(w, i); return i; }
NOI inline std::vector<int> enqueued(World& w) { std::vector<int> r; for (size_t i = 0; i < w.t.size(); i++) if (w.t[i].enq_done) r.push_back((int)i); return r; }
// every task in `ids` has completed and its effects are visible (plain read => race detector)
NOI inline void all_done(World& w, const std::vector<int>& ids, const char* key) {
	for (int i : ids) {
		check(w.t[i].ends == 1, key, "task " + std::to_string(i) + " had not completed (starts=" + std::to_string(w.t[i].starts) + " ends=" + std::to_string(w.t[i].ends) + ")");
		check(get(w, i) == 100 + i, key, "effect of task not visible");
	}
}
NOI inline void final_check(World& w) {
	for (size_t i = 0; i < w.t.size(); i++) {
		check(w.t[i].starts <= 1 && w.t[i].ends <= 1, "task-ran-twice", "task " + std::to_string(i) + " started " + std::to_string(w.t[i].starts) + " times");
		check(w.t[i].starts == 1 && w.t[i].ends == 1, "task-lost", "task " + std::to_string(i) + " was not run before the pool was gone");
		check(get(w, i) == 100 + (int)i, "effect-lost", "effect of a task not visible after destruction");
	}
}
} // namespace pool
