// mc-file-flags: -fsanitize=thread
// mc-flags: -O1 -g
// ThreadPool: execution, completion barrier, shutdown - all schedules up to a preemption bound.
#include "pool_common.h"
using namespace pool;

static sched::Opts opts(mc::Ctx& ctx, int q, int t, int spur = 0) { sched::Opts o; o.preemptions = ctx.thorough ? t : q; o.spurious = spur; return o; }
static void hash_orders(mc::Ctx& ctx, World& w) { mc::Hash h; for (int i : w.order) h.u(i); h.u(w.t.size()); ctx.outcome(h); ctx.state(h.u(sched::stats().points)); ctx.nontrivial(); }
static const char* OPN[] = {"E", "X", "N", "W"};

// one client: every script of up to L operations {enqueue, enqueue failing, enqueue nesting, wait}
NOI static void client(World& w, const std::vector<int>& script, bool quiet_others) {
	for (int op : script) switch (op) {
		case 0: enq_ok(w); break;
		case 1: enq_throw(w); break;
		case 2: enq_nested(w); break;
		case 3: {
			auto before = enqueued(w);
			sched::note("wait"); w.p->wait_for_tasks(); sched::note("wait returned");
			all_done(w, before, "barrier");
			if (quiet_others) {
				for (size_t i = 0; i < w.t.size(); i++) check(w.t[i].ends == 1, "barrier-nested", "a task (possibly submitted by a task) unfinished when the barrier returned");
				check(!w.p->has_tasks(), "barrier-has-tasks", "has_tasks() true after the barrier with nobody submitting");
				check(w.p->queued_tasks() == 0 && w.p->pending_tasks() == 0, "barrier-counters", "counters non-zero after the barrier");
			}
			break;
		}
	}
}
static void script_run(mc::Ctx& ctx, int workers, std::vector<int> a, std::vector<int> b, int q, int t, int spur) {
	std::string s; for (int x : a) s += OPN[x]; s += "/"; for (int x : b) s += OPN[x];
	ctx.note("workers=", workers, " scripts ", s);
	World w;
	sched::run(ctx, opts(ctx, q, t, spur), [&] {
		{
			MML::ThreadPool p(workers); w.p = &p;
			check(p.thread_count() == (size_t)workers, "thread-count", "thread_count");
			bool two = !b.empty(); bool bq = true; for (int x : b) if (x != 3) bq = false;
			bool aq = true; for (int x : a) if (x != 3) aq = false;
			int c = -1;
			if (two) c = sched::spawn([&] { client(w, b, aq); });
			client(w, a, bq);
			if (two) sched::join(c);
			sched::note("destruct");
		}
		sched::note("destroyed");
		final_check(w);
		if (workers == 1 && b.empty()) { // submission order = start order when nothing nests
			bool nest = false; for (int x : a) if (x == 2) nest = true;
			if (!nest) for (size_t i = 0; i < w.order.size(); i++) check(w.order[i] == (int)i, "fifo", "a single worker started tasks out of submission order");
		}
		hash_orders(ctx, w);
	});
}
MC_SCENARIO(scripts_one_client, 8) {
	int workers = 1 + ctx.choose(2);
	int L = 1 + ctx.choose(ctx.thorough ? 4 : 3);
	std::vector<int> a; for (int i = 0; i < L; i++) a.push_back(ctx.choose(4));
	int tasks = 0; for (int x : a) tasks += x == 2 ? 2 : x < 2;
	if (tasks > 4) ctx.prune();
	script_run(ctx, workers, a, {}, workers == 1 ? 2 : L >= 3 ? 1 : 2, L <= 2 ? 3 : 2, 0);
}
MC_SCENARIO(scripts_two_clients, 8) {
	int workers = 1 + ctx.choose(2);
	int la = 1 + ctx.choose(2), lb = 1 + ctx.choose(ctx.thorough ? 2 : 1);
	std::vector<int> a, b; for (int i = 0; i < la; i++) a.push_back(ctx.choose(4)); for (int i = 0; i < lb; i++) b.push_back(ctx.choose(4));
	script_run(ctx, workers, a, b, la + lb <= 2 && workers == 1 ? 2 : la + lb <= 2 ? 1 : workers == 1 ? 1 : 0, la + lb <= 3 ? 2 : 1, 0);
}
// every condition-variable wait may also return without a notification
MC_SCENARIO(spurious_wakeups, 8) {
	int workers = 1 + ctx.choose(2);
	int which = ctx.choose(4);
	std::vector<int> a = which == 0 ? std::vector<int>{0, 3} : which == 1 ? std::vector<int>{2, 3} : which == 2 ? std::vector<int>{3, 0} : std::vector<int>{1};
	script_run(ctx, workers, a, {}, 1, workers == 1 ? 2 : 1, workers == 1 ? 2 : 1 + ctx.thorough);
}
static bool in[2];
NOI static void meet(World& w, int k, int i) {
	struct P { int k; NOI bool operator()() const { return in[1 - k]; } };
	on_start(w, i); put(w, i); in[k] = true; sched::block_until(P{k}, "the other task"); on_end(w, i);
}
// two tasks that each need the other to be running: possible iff both workers really run in parallel
MC_SCENARIO(parallel_rendezvous, 8) {
	int pre = ctx.choose(2), w3 = ctx.choose(ctx.thorough ? 2 : 1);
	World w; in[0] = in[1] = false;
	sched::run(ctx, opts(ctx, 2, 3), [&] {
		{
			MML::ThreadPool p(2 + w3); w.p = &p;
			if (pre) { enq_ok(w); p.wait_for_tasks(); }
			for (int k = 0; k < 2; k++) { int i = fresh(w, false); p.enqueue([&w, k, i] { meet(w, k, i); }); mark_enq(w, i); }
			p.wait_for_tasks();
			all_done(w, enqueued(w), "barrier");
		}
		final_check(w); hash_orders(ctx, w);
	});
}
// observers called concurrently with everything else
MC_SCENARIO(observers, 8) {
	int workers = 1 + ctx.choose(2), obs = ctx.choose(3), n = 1 + ctx.choose(2);
	World w;
	sched::run(ctx, opts(ctx, workers + n >= 4 ? 1 : 2, 2), [&] {
		{
			MML::ThreadPool p(workers); w.p = &p;
			int c = sched::spawn([&] {
				for (int k = 0; k < 2; k++) {
					auto before = enqueued(w);
					if (obs == 0) { if (!p.has_tasks()) all_done(w, before, "has-tasks-false"); }
					else if (obs == 1) { size_t x = p.pending_tasks(); check(x <= (size_t)workers, "pending-exceeds-workers", "pending_tasks()=" + std::to_string(x)); }
					else { size_t x = p.queued_tasks(); check(x <= w.t.size(), "queued-exceeds-submitted", "queued_tasks()=" + std::to_string(x));
						int unstarted = 0; for (auto& r : w.t) if (!r.starts) unstarted++; (void)unstarted; }
				}
			});
			for (int i = 0; i < n; i++) enq_ok(w);
			sched::join(c);
		}
		final_check(w); hash_orders(ctx, w);
	});
}
// a task may itself be the only client left: it enqueues while the pool is being destroyed
MC_SCENARIO(enqueue_during_destruction, 7) {
	int workers = 1 + ctx.choose(2), depth = 1 + ctx.choose(2);
	World w;
	struct R { static NOI void go(World& w, int d) { int i = fresh(w, false); w.p->enqueue([&w, i, d] { on_start(w, i); put(w, i); if (d > 0) go(w, d - 1); on_end(w, i); }); mark_enq(w, i); } };
	sched::run(ctx, opts(ctx, 2, 3), [&] {
		{ MML::ThreadPool p(workers); w.p = &p; R::go(w, depth); if (workers == 2) R::go(w, 0); }
		final_check(w); hash_orders(ctx, w);
	});
}
MC_SCENARIO(zero_threads_rejected, 0) {
	sched::run(ctx, opts(ctx, 0, 0), [&] {
		bool th = false; try { MML::ThreadPool p(0); } catch (const std::invalid_argument&) { th = true; }
		check(th, "zero-threads", "a pool of 0 threads was accepted");
	});
	ctx.step(); ctx.state(1);
}
