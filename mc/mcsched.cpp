#include "mcsched.h"
#include <vector>
#include <map>
#include <unordered_map>
#include <deque>
#include <algorithm>
#include <sys/mman.h>
#include <dlfcn.h>
#include <cxxabi.h>

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

// Minimal x86-64 System V context switch (callee-saved registers, mxcsr/x87 control words): no system call.
extern "C" void mc_ctx_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl mc_ctx_switch
.type mc_ctx_switch,@function
mc_ctx_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mc_ctx_switch,.-mc_ctx_switch
)");
namespace sched {
using VC = std::vector<uint32_t>;
static void vjoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static const size_t STK = 256 * 1024;
struct Fiber {
	void* sp = nullptr; char* stk = nullptr; std::function<void()> f;
	bool done = false; std::function<bool()> blocked; const char* why = ""; bool timed = false, timeout_fired = false; bool in_cv = false, spur = false;
	VC vc; char eh[16] = {0};
	bool yielded = false;
};
struct Acc { int wt = -1; uint32_t wc = 0; std::vector<std::pair<int, uint32_t>> rd; const void* wpc = nullptr; const void* rpc = nullptr; };
struct S {
	mc::Ctx* ctx; Opts o; std::vector<Fiber*> fb; int cur = -1; void* root; char rooteh[16];
	bool failed = false, pruned = false; mc::Failure fl; int pre = 0, spur = 0; uint64_t steps = 0;
	std::unordered_map<const void*, VC> avc; std::unordered_map<uintptr_t, Acc> shadow;
	std::vector<std::pair<int, uint32_t>> events; Stat st;
};
static S* g = nullptr;
static bool quiet = false;   // true while scheduler/engine code runs: shared template instances are not the subject
struct Quiet { bool old; Quiet() : old(quiet) { quiet = true; } ~Quiet() { quiet = old; } };
static std::vector<char*> stkpool;
static char* getstk() { if (!stkpool.empty()) { char* p = stkpool.back(); stkpool.pop_back(); return p; } return (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
bool active() { return g != nullptr && g->cur >= 0; }
int self() { return g->cur; }
int nfibers() { return (int)g->fb.size(); }
static bool enabled(Fiber* f) { return !f->done && (!f->blocked || f->blocked()); }
static void save_eh(char* d) { memcpy(d, (void*)__cxxabiv1::__cxa_get_globals(), 16); }
static void load_eh(const char* d) { memcpy((void*)__cxxabiv1::__cxa_get_globals(), d, 16); }
static void to_root() {
	Fiber* me = g->fb[g->cur]; save_eh(me->eh); load_eh(g->rooteh); mc_ctx_switch(&me->sp, g->root); abort();
}
void fail(const std::string& key, const std::string& msg) { quiet = true; g->failed = true; g->fl = mc::Failure{key, msg}; to_root(); abort(); }
void check(bool ok, const char* key, const std::string& msg) { g->ctx->checks++; if (!ok) fail(key, msg); }
void note(const std::string& s) { Quiet q; if (g && g->ctx->verbose) g->ctx->trace += "T" + std::to_string(g->cur) + ":" + s + "; "; }
int choose(int n) {
	if (n <= 1) return 0;
	Quiet q;
	int r = 0; bool pr = false;
	try { r = g->ctx->choose(n); } catch (mc::Prune&) { pr = true; }
	if (pr) { g->pruned = true; to_root(); }
	return r;
}
static void switch_to(int id) {
	int from = g->cur; if (from == id) { g->fb[id]->blocked = nullptr; return; }
	g->st.switches++; g->cur = id; Fiber* a = g->fb[from]; Fiber* b = g->fb[id];
	save_eh(a->eh); load_eh(b->eh);
	mc_ctx_switch(&a->sp, b->sp);
	// back
}
// pick the next fiber. must_leave: the current fiber cannot (or does not want to) continue
static void reschedule(bool voluntary) {
	Quiet q;
	if (++g->steps > (uint64_t)g->o.horizon) fail("livelock", "no completion within the step horizon");
	g->st.points++;
	int me = g->cur; std::vector<int> en; bool mine = enabled(g->fb[me]);
	if (mine && !voluntary) en.push_back(me);
	for (int i = 0; i < (int)g->fb.size(); i++) if (i != me && enabled(g->fb[i])) en.push_back(i);
	if (mine && voluntary) en.push_back(me);
	size_t nreal = en.size();
	if (nreal == 0) {
		// time passes only when nothing else can run: fire one timed wait
		std::vector<int> tm; for (int i = 0; i < (int)g->fb.size(); i++) if (!g->fb[i]->done && g->fb[i]->timed) tm.push_back(i);
		if (!tm.empty()) { int k = tm[choose((int)tm.size())]; g->fb[k]->timeout_fired = true; en.push_back(k); }
		else {
			std::string s = "no enabled thread:"; for (size_t i = 0; i < g->fb.size(); i++) if (!g->fb[i]->done) s += " T" + std::to_string(i) + " waits for " + g->fb[i]->why + ";";
			fail("deadlock", s);
		}
	}
	int pick;
	std::vector<int> sp;
	if (g->spur < g->o.spurious) for (int i = 0; i < (int)g->fb.size(); i++) if (!g->fb[i]->done && g->fb[i]->in_cv && !g->fb[i]->spur && !enabled(g->fb[i])) sp.push_back(i);
	bool canpre = g->pre < g->o.preemptions;
	int nopt = (mine && !voluntary && !canpre) ? 1 : (int)en.size();
	if (nreal == 0) nopt = 1;
	int k = choose(nopt + (int)sp.size());
	if (k >= nopt) { // spurious wake-up: the waiter becomes runnable, then continue scheduling
		g->spur++; g->fb[sp[k - nopt]]->spur = true; note("spurious wake-up of T" + std::to_string(sp[k - nopt])); reschedule(voluntary); return;
	}
	pick = en[k];
	if (mine && !voluntary && pick != me) g->pre++;
	if (pick != me && g->ctx->verbose) note("-> T" + std::to_string(pick));
	switch_to(pick);
}
void point() { if (!active()) return; reschedule(false); }
void yield() { if (!active()) return; reschedule(true); }
void sleep_like() { yield(); }
static void block(std::function<bool()> p, const char* why) {
	Fiber* f = g->fb[g->cur]; f->why = why;
	if (p()) return;
	f->blocked = p; reschedule(false); f->blocked = nullptr;
}
void block_until(std::function<bool()> p, const char* w) { point(); block(p, w); }
static void tick() { Fiber* f = g->fb[g->cur]; if (f->vc.size() <= (size_t)g->cur) f->vc.resize(g->cur + 1, 0); f->vc[g->cur]++; }
static void entry() {
	Fiber* f = g->fb[g->cur];
	try { quiet = false; f->f(); quiet = true; }
	catch (const std::exception& e) { fail("uncaught-exception", std::string("exception left a thread: ") + e.what()); }
	catch (...) { fail("uncaught-exception", "exception left a thread"); }
	f->f = nullptr; tick(); f->done = true;
	bool all = true; for (auto* x : g->fb) if (!x->done) all = false;
	if (all) to_root();
	reschedule(true); abort();
}
static void init_stack(Fiber* f) {
	void** sp = (void**)(f->stk + STK); *--sp = nullptr; *--sp = (void*)entry; // keeps (rsp+8)%16==0 at entry
	for (int i = 0; i < 6; i++) *--sp = nullptr;
	--sp; unsigned mx; unsigned short cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw)); ((unsigned*)sp)[0] = mx; ((unsigned*)sp)[1] = cw;
	f->sp = sp;
}
int spawn(std::function<void()> fn) {
	point();
	int id = (int)g->fb.size(); if (id >= 12) fail("harness", "too many threads");
	Fiber* f = new Fiber; f->f = std::move(fn); f->stk = getstk(); tick(); f->vc = g->fb[g->cur]->vc; if (f->vc.size() <= (size_t)id) f->vc.resize(id + 1, 0); f->vc[id] = 1;
	init_stack(f);
	g->fb.push_back(f); return id;
}
bool finished(int id) { return g->fb[id]->done; }
void join(int id) { point(); S* s = g; block([s, id] { return s->fb[id]->done; }, "join"); vjoin(g->fb[g->cur]->vc, g->fb[id]->vc); }
void run(mc::Ctx& ctx, const Opts& o, std::function<void()> body) {
	quiet = false; S s; s.ctx = &ctx; s.o = o; g = &s;
	Fiber* f = new Fiber; f->f = std::move(body); f->stk = getstk(); f->vc = {1};
	init_stack(f);
	s.fb.push_back(f); s.cur = 0; save_eh(s.rooteh); char z[16] = {0}; load_eh(z);
	mc_ctx_switch(&s.root, f->sp);
	load_eh(s.rooteh); g = nullptr; quiet = true;
	for (auto* x : s.fb) { stkpool.push_back(x->stk); if (!s.failed && !s.pruned) delete x; }
	ctx.step(s.st.points);
	if (s.pruned) throw mc::Prune{};
	if (s.failed) throw s.fl;
}
Stat stats() { return g ? g->st : Stat{}; }
// --- mutex
MutexImpl::~MutexImpl() { delete (VC*)vc; }
static void acq(void*& v) { if (v) vjoin(g->fb[g->cur]->vc, *(VC*)v); }
static void rel(void*& v) { tick(); if (!v) v = new VC; *(VC*)v = g->fb[g->cur]->vc; tick(); }
static void rel_join(void*& v) { tick(); if (!v) v = new VC; vjoin(*(VC*)v, g->fb[g->cur]->vc); tick(); }
void lock(MutexImpl& m, bool rec) {
	if (!active()) { m.owner = -2; return; }
	point();
	if (m.owner == g->cur) { if (rec) { m.depth++; return; } fail("self-deadlock", "thread locks a mutex it already owns"); }
	block([&m] { return m.owner == -1 && m.readers == 0; }, "mutex");
	m.owner = g->cur; m.depth = 1; acq(m.vc);
}
bool try_lock(MutexImpl& m, bool rec) {
	if (!active()) { m.owner = -2; return true; }
	point();
	if (rec && m.owner == g->cur) { m.depth++; return true; }
	if (m.owner != -1 || m.readers) return false;
	m.owner = g->cur; m.depth = 1; acq(m.vc); return true;
}
void unlock(MutexImpl& m) {
	if (!active()) { m.owner = -1; return; }
	if (m.owner != g->cur) fail("bad-unlock", "unlock of a mutex not owned by this thread");
	if (--m.depth > 0) return;
	rel(m.vc); m.owner = -1;
}
void lock_shared(MutexImpl& m) { if (!active()) return; point(); block([&m] { return m.owner == -1; }, "shared mutex"); m.readers++; acq(m.vc); }
void unlock_shared(MutexImpl& m) { if (!active()) return; rel_join(m.vc); m.readers--; }
// --- condition variable
struct Waiter { int id; bool signalled; };
using Q = std::deque<Waiter*>;
CvImpl::~CvImpl() { delete (Q*)q; }
static bool cvw(CvImpl& c, std::function<void()>& ul, std::function<void()>& lk, bool timed) {
	if (!active()) return true;
	point();
	if (!c.q) c.q = new Q; Q* q = (Q*)c.q;
	Waiter w{g->cur, false}; q->push_back(&w); Fiber* f = g->fb[g->cur];
	ul();
	f->in_cv = true; f->spur = false; f->timed = timed; f->timeout_fired = false;
	block([&w, f] { return w.signalled || f->spur || f->timeout_fired; }, "condition variable");
	f->in_cv = false; f->timed = false; bool to = f->timeout_fired && !w.signalled; f->spur = false; f->timeout_fired = false;
	auto it = std::find(q->begin(), q->end(), &w); if (it != q->end()) q->erase(it);
	lk();
	return !to;
}
void cv_wait(CvImpl& c, std::function<void()> ul, std::function<void()> lk) { cvw(c, ul, lk, false); }
bool cv_wait_timed(CvImpl& c, std::function<void()> ul, std::function<void()> lk) { return cvw(c, ul, lk, true); }
void cv_notify(CvImpl& c, bool all) {
	if (!active()) return;
	point();
	if (!c.q) return; Q* q = (Q*)c.q;
	if (all) { for (auto* w : *q) w->signalled = true; q->clear(); return; }
	if (q->empty()) return;
	int k = choose((int)q->size()); (*q)[k]->signalled = true; q->erase(q->begin() + k);
}
// --- atomics
void atomic_pre(const void*) { if (active()) point(); }
void atomic_acquire(const void* a) { if (!active()) return; auto it = g->avc.find(a); if (it != g->avc.end()) vjoin(g->fb[g->cur]->vc, it->second); }
void atomic_release(const void* a, bool rmw) { if (!active()) return; tick(); if (rmw) vjoin(g->avc[a], g->fb[g->cur]->vc); else g->avc[a] = g->fb[g->cur]->vc; tick(); }
void atomic_forget(const void* a) { if (g) g->avc.erase(a); }
// --- oracle events
uint64_t event() { tick(); g->events.push_back({g->cur, g->fb[g->cur]->vc[g->cur]}); return g->events.size() - 1; }
bool happened_before(uint64_t e) { auto [t, c] = g->events[e]; VC& v = g->fb[g->cur]->vc; return t < (int)v.size() && v[t] >= c; }
// --- race detection on instrumented accesses
extern "C" char __executable_start;
static std::string where(const void* a, const void* b) { char s[96]; snprintf(s, 96, " [code +%lx vs +%lx]", (unsigned long)((char*)a - &__executable_start), (unsigned long)((char*)b - &__executable_start)); return s; }
static void access(const void* p, size_t n, bool wr, const void* pc) {
	if (!active() || quiet) return;
	// fiber stacks are private unless an object on them is shared by reference; they are tracked too
	Fiber* f = g->fb[g->cur]; VC& v = f->vc; int t = g->cur;
	auto hb = [&](int ot, uint32_t oc) { return ot == t || (ot < (int)v.size() && v[ot] >= oc); };
	for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; a += 8) {
		Acc& x = g->shadow[a];
		if (x.wt >= 0 && !hb(x.wt, x.wc)) fail("data-race", std::string(wr ? "write" : "read") + " by T" + std::to_string(t) + " races with a write by T" + std::to_string(x.wt) + where(pc, x.wpc));
		if (wr) {
			for (auto& r : x.rd) if (!hb(r.first, r.second)) fail("data-race", "write by T" + std::to_string(t) + " races with a read by T" + std::to_string(r.first));
			x.rd.clear(); x.wpc = pc; x.wt = t; x.wc = v.size() > (size_t)t ? v[t] : 0;
		} else {
			bool found = false; for (auto& r : x.rd) if (r.first == t) { r.second = v[t]; found = true; }
			if (!found) x.rd.push_back({t, v[t]});
		}
	}
}
static void forget(void* p, size_t n) { if (g && g->cur >= 0) for (uintptr_t a = (uintptr_t)p & ~7ull; a < (uintptr_t)p + n; a += 8) g->shadow.erase(a); }
void on_alloc(void* p, size_t n) { forget(p, n); }
} // namespace sched

// callbacks emitted by -fsanitize=thread instrumentation (libtsan itself is not linked)
#include <malloc.h>
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void* p) { sched::access(p, N, false, PC); } void __tsan_write##N(void* p) { sched::access(p, N, true, PC); } \
	void __tsan_unaligned_read##N(void* p) { sched::access(p, N, false, PC); } void __tsan_unaligned_write##N(void* p) { sched::access(p, N, true, PC); } \
	void __tsan_volatile_read##N(void* p) { sched::access(p, N, false, PC); } void __tsan_volatile_write##N(void* p) { sched::access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { sched::access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { sched::access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { sched::access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { sched::access(p, 8, false, PC); }
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T* a, int) { sched::atomic_pre((void*)a); sched::atomic_acquire((void*)a); return *a; } \
	void __tsan_atomic##B##_store(volatile T* a, T v, int) { sched::atomic_pre((void*)a); sched::atomic_release((void*)a, false); *a = v; } \
	T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { sched::atomic_pre((void*)a); sched::atomic_acquire((void*)a); sched::atomic_release((void*)a, true); T o = *a; *a = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { sched::atomic_acquire((void*)a); sched::atomic_release((void*)a, true); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { sched::atomic_acquire((void*)a); sched::atomic_release((void*)a, true); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { sched::atomic_acquire((void*)a); sched::atomic_release((void*)a, true); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { sched::atomic_acquire((void*)a); sched::atomic_release((void*)a, true); T o = *a; *a = o & v; return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { sched::atomic_pre((void*)a); sched::atomic_acquire((void*)a); if (*a == *e) { sched::atomic_release((void*)a, true); *a = v; return 1; } *e = *a; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int m, int n) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, m, n); } \
	T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int m, int n) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, m, n); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
// allocation resets the shadow of the block (memory reuse is not a race)
extern "C" void* __cxa_allocate_exception(size_t n) noexcept {
	static void* (*real)(size_t) = (void* (*)(size_t))dlsym(RTLD_NEXT, "__cxa_allocate_exception");
	void* p = real(n); sched::on_alloc(p, n); return p;
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); sched::on_alloc(p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
