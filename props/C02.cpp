// mc-file-flags: -fsanitize=thread
// ThreadPool: exception capture and error callback - all schedules up to a preemption bound.
#include "pool_common.h"
using namespace pool;
static sched::Opts opts(mc::Ctx& ctx, int q, int t) { sched::Opts o; o.preemptions = ctx.thorough ? t : q; return o; }
static void hash(mc::Ctx& ctx, World& w, List<int>& got) { mc::Hash h; for (int i : w.order) h.u(i); for (int i : got) h.u(i + 50); ctx.outcome(h); ctx.state(h.u(sched::stats().points)); ctx.nontrivial(); }
NOI static int id_of(std::exception_ptr e) {
	try { std::rethrow_exception(e); } catch (const TaskErr& t) { return t.id; } catch (int k) { return 1000 + k; } catch (...) { return -1; }
}
NOI static void do_throw_int(World& w, int i) { on_start(w, i); put(w, i); on_end(w, i); throw i; }
NOI static int enq_throw_int(World& w) { int i = fresh(w, true); w.p->enqueue([&w, i] { do_throw_int(w, i); }); mark_enq(w, i); return i; }

// tasks: each of n tasks ok / throws std / throws int; retrieval: get_exception loop / rethrow loop / clear; callback none/ok/throwing
MC_SCENARIO(capture_then_retrieve, 8) {
	int workers = 1 + ctx.choose(2), n = 1 + ctx.choose(ctx.thorough ? 3 : 2);
	int cb = ctx.choose(3), how = ctx.choose(workers == 1 || ctx.thorough ? 3 : 1);
	std::vector<int> kind; for (int i = 0; i < n; i++) kind.push_back(ctx.choose(3));
	ctx.note("workers=", workers, " kinds=", kind, " cb=", cb, " how=", how);
	World w; List<int> got, cbs;
	int pb = (n >= 2 && workers == 2) ? 0 : (n >= 2 || workers == 2) ? (how == 0 && cb < 2) : 2;
	sched::run(ctx, opts(ctx, pb, pb + (n < 3)), [&] {
		MML::ThreadPool p(workers); w.p = &p;
		if (cb) p.set_error_callback([&](std::exception_ptr e) { int k = id_of(e); cbs.push_back(k); sched::note("callback " + std::to_string(k)); if (cb == 2) throw std::logic_error("cb"); });
		int thrown = 0;
		for (int k : kind) { if (k == 0) enq_ok(w); else if (k == 1) enq_throw(w), thrown++; else enq_throw_int(w), thrown++; }
		p.wait_for_tasks();
		all_done(w, enqueued(w), "barrier-after-throw");
		check(p.exception_count() == (size_t)thrown, "exception-count", "exception_count()=" + std::to_string(p.exception_count()) + " after " + std::to_string(thrown) + " failures");
		check(p.has_exceptions() == (thrown > 0), "has-exceptions", "has_exceptions()");
		std::vector<int> expect; for (int i = 0; i < n; i++) if (kind[i]) expect.push_back(kind[i] == 1 ? i : 1000 + i);
		if (how == 0) { for (;;) { auto e = p.get_exception(); if (!e) break; got.push_back(id_of(e)); check(got.size() <= 8, "endless-exceptions", ""); } }
		else if (how == 1) { for (int k = 0; k < 8; k++) { bool th = false; try { p.rethrow_if_exception(); } catch (...) { th = true; got.push_back(id_of(std::current_exception())); } if (!th) break; } }
		else { p.clear_exceptions(); }
		check(!p.has_exceptions() && p.exception_count() == 0 && p.get_exception() == nullptr, "not-drained", "exceptions left after draining");
		if (how != 2) {
			auto s = got.sorted(), x = expect; std::sort(x.begin(), x.end());
			check(s == x, "exceptions-lost-or-duplicated", "retrieved set differs from thrown set");
			if (workers == 1) check(got.vec() == expect, "exception-order", "not oldest first");
		}
		if (cb) { auto s = cbs.sorted(), x = expect; std::sort(x.begin(), x.end()); check(s == x, "callback-once-per-failure", "callback calls differ from failures"); }
		// the pool still works
		int i = enq_ok(w); p.wait_for_tasks(); all_done(w, {i}, "pool-unusable-after-throw");
		hash(ctx, w, got);
	});
}
// retrieval / callback replacement concurrent with failures
MC_SCENARIO(concurrent_retrieval, 7) {
	int workers = 1 + ctx.choose(2), n = 1 + ctx.choose(2), op = ctx.choose(4);
	World w; List<int> got, c1, c2;
	sched::run(ctx, opts(ctx, n == 1 && workers == 1 ? 2 : workers + n <= 3 ? 1 : 0, 2), [&] {
		{
			MML::ThreadPool p(workers); w.p = &p;
			if (op == 3) p.set_error_callback([&](std::exception_ptr e) { c1.push_back(id_of(e)); });
			int c = sched::spawn([&] {
				if (op == 0) { for (int k = 0; k < 2; k++) if (auto e = p.get_exception()) got.push_back(id_of(e)); }
				else if (op == 1) { try { p.rethrow_if_exception(); } catch (...) { got.push_back(id_of(std::current_exception())); } }
				else if (op == 2) { size_t a = p.exception_count(); bool h = p.has_exceptions(); size_t b = p.exception_count(); check(b >= a && (h || a == 0), "observer-inconsistent", "failures went away"); }
				else p.set_error_callback([&](std::exception_ptr e) { c2.push_back(id_of(e)); });
			});
			for (int i = 0; i < n; i++) enq_throw(w);
			sched::join(c);
			p.wait_for_tasks();
			while (auto e = p.get_exception()) got.push_back(id_of(e));
			check((int)got.size() == n, "exceptions-lost-or-duplicated", "retrieved " + std::to_string(got.size()) + " of " + std::to_string(n));
			auto s = got.sorted(); for (int i = 0; i < n; i++) check(s[i] == i, "exceptions-lost-or-duplicated", "wrong identity");
		}
		if (op == 3) check((int)(c1.size() + c2.size()) == n, "callback-once-per-failure", "callbacks " + std::to_string(c1.size() + c2.size()));
		final_check(w); hash(ctx, w, got);
	});
}
// failures while the pool is being destroyed
MC_SCENARIO(throw_during_destruction, 7) {
	int workers = 1 + ctx.choose(2), cb = ctx.choose(3), n = 1 + ctx.choose(2);
	World w; List<int> cbs;
	sched::run(ctx, opts(ctx, 2, 3), [&] {
		{ MML::ThreadPool p(workers); w.p = &p; if (cb) p.set_error_callback([&](std::exception_ptr e) { cbs.push_back(id_of(e)); if (cb == 2) throw 3; }); for (int i = 0; i < n; i++) enq_throw(w); }
		final_check(w); if (cb) check((int)cbs.size() == n, "callback-once-per-failure", "callbacks lost at shutdown"); hash(ctx, w, cbs);
	});
}
// the error callback itself uses the pool: retrieves, observes, submits, replaces the callback
MC_SCENARIO(callback_uses_pool, 7) {
	int workers = 1 + ctx.choose(2), op = ctx.choose(7), n = 1 + ctx.choose(2);
	World w; List<int> got; int calls = 0;
	sched::run(ctx, opts(ctx, n == 1 ? 1 : 0, 2), [&] {
		{
			MML::ThreadPool p(workers); w.p = &p;
			p.set_error_callback([&](std::exception_ptr e) {
				calls++;
				if (op == 0) { if (auto x = p.get_exception()) got.push_back(id_of(x)); }
				else if (op == 1) check(p.exception_count() >= 1 && p.has_exceptions(), "observer-inconsistent", "failure not visible in the callback");
				else if (op == 2) { if (calls < 3) enq_ok(w); }
				else if (op == 3) { check(p.has_tasks(), "observer-inconsistent", "has_tasks() in a callback"); (void)p.queued_tasks(); (void)p.pending_tasks(); }
				else if (op == 4) p.set_error_callback(nullptr);
				else if (op == 5) { try { p.rethrow_if_exception(); } catch (...) { got.push_back(id_of(std::current_exception())); } }
				else p.clear_exceptions();
			});
			for (int i = 0; i < n; i++) enq_throw(w);
			p.wait_for_tasks();
			all_done(w, enqueued(w), "barrier-after-throw");
			if (op == 0 || op == 5) { while (auto e = p.get_exception()) got.push_back(id_of(e)); check((int)got.size() == n, "exceptions-lost-or-duplicated", "retrieved " + std::to_string(got.size()) + " of " + std::to_string(n)); }
			else if (op != 6) check((int)p.exception_count() == n, "exception-count", "exception_count()");
		}
		final_check(w); if (op != 4) check(calls == n, "callback-once-per-failure", "callback calls differ from failures"); hash(ctx, w, got);
	});
}
