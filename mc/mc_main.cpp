// Engine: exhaustive DFS over choice sequences, sharded over forked workers, with crash and
// hang containment (the current choice sequence of every worker lives in shared memory).
#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <fstream>
#include <iostream>

namespace mc {
std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }

static const size_t MAXCH = 4096;
struct Shared {                 // one per worker
	volatile uint64_t execs;     // completed executions (progress)
	volatile int scen;
	volatile int nchoices;
	volatile int done;
	volatile int stop;
	int choices[MAXCH];
};
struct Stats { uint64_t execs = 0, pruned = 0, steps = 0, checks = 0, nontriv = 0, maxdepth = 0; };
struct Viol { std::string scen, key, msg, trace; std::vector<int> choices; bool confirmed = true; };

struct Engine {
	std::unordered_set<uint64_t> states, outcomes;
	bool states_capped = false;
	Shared* sh = nullptr;
};
static const size_t STATE_CAP = 3000000;

int Ctx::choose(int n) {
	if (n <= 0) { fprintf(stderr, "mc: choose(%d)\n", n); _exit(97); }
	int c;
	if (pos < choices.size()) {
		c = choices[pos];
		if (pos < arity.size() && arity[pos] != 0 && arity[pos] != n) {
			fprintf(stderr, "mc: nondeterministic scenario: arity %d became %d at choice %zu\n", arity[pos], n, pos); _exit(97);
		}
		if (c >= n) { fprintf(stderr, "mc: replay choice %d out of range %d\n", c, n); _exit(97); }
		if (pos >= arity.size()) arity.push_back(n); else arity[pos] = n;
	} else {
		c = 0; choices.push_back(0); arity.push_back(n);
	}
	++pos;
	if (Engine* e = (Engine*)engine; e && e->sh && pos <= MAXCH) { e->sh->choices[pos - 1] = c; e->sh->nchoices = (int)pos; }
	if (nshards > 1 && pos == (size_t)split) {
		uint64_t idx = 0;                          // mixed-radix index of the prefix
		for (size_t i = 0; i < pos; i++) idx = idx * 1315423911ull + (uint64_t)choices[i] * 2654435761ull + 17;
		idx ^= idx >> 29; idx *= 0x9e3779b97f4a7c15ull; idx ^= idx >> 32;
		if ((int)(idx % nshards) != shard) { skip_shard = true; throw Prune{}; }
	}
	return c;
}
void Ctx::state(uint64_t h) {
	Engine* e = (Engine*)engine; if (!e) return;
	if (e->states.size() < STATE_CAP) e->states.insert(h); else e->states_capped = true;
}
void Ctx::outcome(uint64_t h) {
	Engine* e = (Engine*)engine; if (!e) return;
	if (e->outcomes.size() < STATE_CAP) e->outcomes.insert(h);
}

// One execution. Returns 0 ok, 1 pruned, 2 failure, 3 skipped (other shard)
static int run_once(Scenario& s, Ctx& c, Failure& f) {
	c.pos = 0; c.trace.clear(); c.skip_shard = false; c.nontriv = false; c.softs.clear();
	try { s.fn(c); }
	catch (const Prune&) { if (c.softs.empty()) return c.skip_shard ? 3 : 1; }
	catch (const Failure& x) { c.softs.push_back(x); }
	catch (const std::exception& x) { c.softs.push_back(Failure{"unexpected-exception", std::string("scenario ended by exception: ") + x.what()}); }
	catch (...) { c.softs.push_back(Failure{"unexpected-exception", "scenario ended by a non-standard exception"}); }
	if (c.softs.empty()) return 0;
	f = c.softs[0];
	return 2;
}
static std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
		else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
		else o += ch;
	}
	return o;
}
static std::string jarr(const std::vector<int>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += std::to_string(v[i]); } return o + "]"; }
static std::string viol_json(const Viol& v) {
	return "{\"scenario\":\"" + esc(v.scen) + "\",\"key\":\"" + esc(v.key) + "\",\"msg\":\"" + esc(v.msg) + "\",\"trace\":\"" + esc(v.trace.substr(0, 6000)) +
		"\",\"confirmed\":" + (v.confirmed ? "true" : "false") + ",\"choices\":" + jarr(v.choices) + "}";
}
static bool next_seq(Ctx& c) {             // advance to the next choice sequence; false when exhausted
	c.choices.resize(c.pos < c.choices.size() ? c.pos : c.choices.size());
	c.arity.resize(c.choices.size());
	while (!c.choices.empty()) {
		if (c.choices.back() + 1 < c.arity.back()) { c.choices.back()++; return true; }
		c.choices.pop_back(); c.arity.pop_back();
	}
	return false;
}
static size_t MAXV = 400; static uint64_t overflow = 0;

static void worker(int w, int W, Shared* sh, const std::vector<int>& scs, bool thorough, const std::string& outfile) {
	Engine eng; eng.sh = sh;
	std::map<int, Stats> st;
	std::vector<Viol> viols; std::map<std::string, int> perkey;
	std::vector<std::string> samples;
	for (int si : scs) {
		Scenario& s = scenarios()[si];
		Ctx c; c.engine = &eng; c.thorough = thorough;
		c.shard = w; c.nshards = W; c.split = s.split;
		sh->scen = si;
		Stats& t = st[si];
		uint64_t nextsample = 1; int nsamp = 0;
		for (;;) {
			Failure f;
			uint64_t s0 = c.steps, k0 = c.checks;
			sh->nchoices = 0;
			int r = run_once(s, c, f);
			// a scenario that makes fewer choices than `split` runs only in worker 0
			if (r != 3 && W > 1 && c.pos < (size_t)s.split && w != 0) { c.steps = s0; c.checks = k0; r = 3; }
			if (r == 0 || r == 2) { t.execs++; t.steps += c.steps - s0; t.checks += c.checks - k0; if (c.nontriv) t.nontriv++; if (c.pos > t.maxdepth) t.maxdepth = c.pos; }
			else if (r == 1) t.pruned++;
			sh->execs = sh->execs + 1;
			if (r == 0 && w == 0 && t.execs == nextsample && nsamp < 6) {   // exponentially spaced samples
				Ctx v; v.verbose = true; v.thorough = thorough; v.choices.assign(c.choices.begin(), c.choices.begin() + c.pos); Failure f2;
				run_once(s, v, f2);
				samples.push_back(s.name + " choices=" + jarr(v.choices) + " : " + v.trace.substr(0, 700)); nextsample *= 7; nsamp++;
			}
			if (r == 2) {
				std::vector<Failure> fs = c.softs; c.softs.clear();
				for (auto& f1 : fs) {
					int& n = perkey[s.name + "|" + f1.key];
					if (n >= 2 || viols.size() >= MAXV) { if (!n) overflow++; continue; }
					n++;
					Viol v; v.scen = s.name; v.key = f1.key; v.msg = f1.msg; v.choices.assign(c.choices.begin(), c.choices.begin() + c.pos);
					// replay before report, with the trace on
					Ctx rc; rc.verbose = true; rc.thorough = thorough; rc.choices = v.choices; Failure f2;
					run_once(s, rc, f2);
					v.confirmed = false;
					for (auto& x : rc.softs) if (x.key == f1.key) v.confirmed = true;
					v.trace = rc.trace;
					viols.push_back(v);
					std::ofstream(outfile + ".v", std::ios::binary | std::ios::app) << viol_json(v) << '\n';   // survives a later hang or crash of this worker
				}
			}
			if (sh->stop) break;
			if (!next_seq(c)) break;
		}
		if (sh->stop) break;
	}
	std::ofstream o(outfile, std::ios::binary);
	for (auto& [si, t] : st) o << "STAT\t" << si << '\t' << t.execs << '\t' << t.pruned << '\t' << t.steps << '\t' << t.checks << '\t' << t.nontriv << '\t' << t.maxdepth << '\n';
	for (auto& s : samples) o << "SAMP\t" << esc(s) << '\n';
	if (overflow) o << "OVER\t" << overflow << "\n";
	if (eng.states_capped) o << "CAP\tstates\n";
	o << "END\n";
	o.close();
	std::ofstream b(outfile + ".st", std::ios::binary);
	for (uint64_t h : eng.states) b.write((char*)&h, 8);
	b.close();
	std::ofstream b2(outfile + ".oc", std::ios::binary);
	for (uint64_t h : eng.outcomes) b2.write((char*)&h, 8);
	b2.close();
	sh->done = 1;
}

static void limit_mem() {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
	rlimit r{3ull << 30, 3ull << 30}; setrlimit(RLIMIT_AS, &r);
#endif
	rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// run one choice sequence in a child; returns "ok" / "fail" / "crash SIG" / "hang"
static std::string run_isolated(int si, const std::vector<int>& ch, bool thorough, double limit, Viol* out) {
	std::string tmp = "/tmp/mc_iso_" + std::to_string(getpid());
	pid_t p = fork();
	if (p == 0) {
		limit_mem();
		Ctx c; c.verbose = true; c.thorough = thorough; c.choices = ch; Failure f;
		int r = run_once(scenarios()[si], c, f);
		std::ofstream o(tmp); o << r << '\n' << f.key << '\n' << esc(f.msg) << '\n' << esc(c.trace) << '\n'; o.close();
		_exit(0);
	}
	double t0 = now(); int st;
	while (true) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) break;
		if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); unlink(tmp.c_str()); return "hang"; }
		usleep(5000);
	}
	if (WIFSIGNALED(st)) { unlink(tmp.c_str()); return "crash signal " + std::to_string(WTERMSIG(st)); }
	std::ifstream i(tmp); std::string r, k, m, t; std::getline(i, r); std::getline(i, k); std::getline(i, m); std::getline(i, t);
	i.close(); unlink(tmp.c_str());
	if (r.empty()) return "crash exit " + std::to_string(WEXITSTATUS(st));
	if (out) { out->key = k; out->msg = m; out->trace = t; }
	return r == "2" ? "fail" : "ok";
}
} // namespace mc

using namespace mc;

__attribute__((weak)) void mc_global_setup() {}

int main(int argc, char** argv) {
	bool thorough = false; int W = 8; std::string out = "result.json", replay, only;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		if (a == "--thorough") thorough = true;
		else if (a == "--workers") W = atoi(argv[++i]);
		else if (a == "--out") out = argv[++i];
		else if (a == "--replay") replay = argv[++i];   // "scenario:1,2,3"
		else if (a == "--only") only = argv[++i];
		else if (a == "--list") { for (auto& s : scenarios()) std::cout << s.name << (s.thorough_only ? " (thorough)" : "") << "\n"; return 0; }
	}
	mc_global_setup();
	std::sort(scenarios().begin(), scenarios().end(), [](const Scenario& a, const Scenario& b) { return a.name < b.name; });
	if (!replay.empty()) {
		size_t k = replay.find(':'); std::string sn = replay.substr(0, k); std::vector<int> ch;
		std::stringstream ss(replay.substr(k + 1)); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) ch.push_back(atoi(x.c_str()));
		for (auto& s : scenarios()) if (s.name == sn) {
			Ctx c; c.verbose = true; c.thorough = thorough; c.choices = ch; Failure f;
			int r = run_once(s, c, f);
			std::cout << "trace: " << c.trace << "\n";
			if (r == 2) { std::cout << "FAILED key=" << f.key << " : " << f.msg << "\n"; return 1; }
			std::cout << (r == 1 ? "pruned\n" : "held\n"); return 0;
		}
		std::cerr << "no scenario " << sn << "\n"; return 2;
	}
	std::vector<int> scs;
	for (size_t i = 0; i < scenarios().size(); i++) {
		if (scenarios()[i].thorough_only && !thorough) continue;
		if (!only.empty() && scenarios()[i].name.find(only) == std::string::npos) continue;
		scs.push_back((int)i);
	}
	double t0 = now();
	std::vector<Shared*> sh(W); std::vector<pid_t> pid(W); std::vector<std::string> of(W);
	std::vector<double> lastchange(W); std::vector<uint64_t> lastexec(W, 0);
	fflush(stdout);
	for (int w = 0; w < W; w++) {
		sh[w] = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		memset((void*)sh[w], 0, sizeof(Shared));
		of[w] = out + ".w" + std::to_string(w); unlink((of[w] + ".v").c_str());
		lastchange[w] = now();
		pid_t p = fork();
		if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); limit_mem(); if (!freopen("/dev/null", "w", stdout)) {} worker(w, W, sh[w], scs, thorough, of[w]); _exit(0); }
		pid[w] = p;
	}
	std::vector<Viol> viols; bool errorflag = false; std::string errtext; bool incomplete = false;
	int live = W; std::vector<bool> ended(W, false);
	// After a confirmed hang the other workers get a short while; a quick check that cannot finish reports what it has.
	double stopat = thorough ? 1e18 : t0 + 660;
	while (live > 0) {
		if (now() > stopat) for (int w = 0; w < W; w++) sh[w]->stop = 1;
		if (now() > stopat + 15) {
			incomplete = true;
			for (int w = 0; w < W; w++) if (!ended[w]) { int st; kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); ended[w] = true; live--; }
			if (viols.empty()) { errorflag = true; errtext = "out of time"; }
			break;
		}
		for (int w = 0; w < W; w++) {
			if (ended[w]) continue;
			int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
			bool bad = false; std::string why;
			if (r == pid[w]) {
				ended[w] = true; live--;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->done) continue;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { errorflag = true; errtext = "engine error (nondeterminism)"; continue; }
				bad = true; why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
			} else {
				if (sh[w]->execs != lastexec[w]) { lastexec[w] = sh[w]->execs; lastchange[w] = now(); }
				int lim = scenarios()[sh[w]->scen].hang_s;
				if (now() - lastchange[w] > lim) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); ended[w] = true; live--; bad = true; why = "no progress for " + std::to_string(lim) + " s"; }
			}
			if (bad) {
				incomplete = true;
				Viol v; int si = sh[w]->scen; v.scen = scenarios()[si].name;
				int n = sh[w]->nchoices; if (n > (int)MAXCH) n = MAXCH;
				v.choices.assign(sh[w]->choices, sh[w]->choices + n);
				Viol iso; std::string res = run_isolated(si, v.choices, thorough, scenarios()[si].hang_s * 4.0, &iso);
				if (res == "hang") { v.key = "hang"; v.msg = "execution does not terminate (" + why + ", repeated alone with a 4x limit)"; viols.push_back(v); stopat = std::min(stopat, now() + 20); }
				else if (res.rfind("crash", 0) == 0) { v.key = "crash"; v.msg = "execution crashes: " + res + " (first: " + why + ")"; viols.push_back(v); }
				else if (res == "fail") { v.key = iso.key; v.msg = iso.msg; v.trace = iso.trace; viols.push_back(v); }
				else { errorflag = true; errtext = "worker ended (" + why + ") but its last case passes alone: scenario " + v.scen + " " + jarr(v.choices); }
				// others keep exploring
			}
		}
		usleep(10000);
	}
	// merge
	std::map<int, Stats> tot; std::vector<std::string> vj, samples; bool capped = false; uint64_t over = 0;
	std::unordered_set<uint64_t> states, outcomes;
	for (int w = 0; w < W; w++) {
		std::ifstream i(of[w]); std::string line; bool end = false;
		while (std::getline(i, line)) {
			if (line.rfind("STAT\t", 0) == 0) {
				std::stringstream ss(line.substr(5)); int si; Stats t; ss >> si >> t.execs >> t.pruned >> t.steps >> t.checks >> t.nontriv >> t.maxdepth;
				Stats& a = tot[si]; a.execs += t.execs; a.pruned += t.pruned; a.steps += t.steps; a.checks += t.checks; a.nontriv += t.nontriv; a.maxdepth = std::max(a.maxdepth, t.maxdepth);
			}
			else if (line.rfind("SAMP\t", 0) == 0) samples.push_back(line.substr(5));
			else if (line.rfind("CAP", 0) == 0) capped = true;
			else if (line.rfind("OVER\t", 0) == 0) over += std::stoull(line.substr(5));
			else if (line == "END") end = true;
		}
		(void)end;
		{ std::ifstream v(of[w] + ".v", std::ios::binary); while (std::getline(v, line)) vj.push_back(line); }
		unlink((of[w] + ".v").c_str());
		for (int k = 0; k < 2; k++) {
			std::ifstream b(of[w] + (k ? ".oc" : ".st"), std::ios::binary); uint64_t h; auto& S = k ? outcomes : states;
			while (b.read((char*)&h, 8)) S.insert(h);
		}
		unlink(of[w].c_str()); unlink((of[w] + ".st").c_str()); unlink((of[w] + ".oc").c_str());
	}
	for (auto& v : viols) vj.push_back(viol_json(v));
	std::ofstream o(out);
	Stats s; o << "{\"scenarios\":{"; bool first = true;
	for (auto& [si, t] : tot) {
		if (!first) o << ","; first = false;
		o << "\"" << scenarios()[si].name << "\":{\"executions\":" << t.execs << ",\"pruned\":" << t.pruned << ",\"operations\":" << t.steps << ",\"checks\":" << t.checks << ",\"nontrivial\":" << t.nontriv << ",\"max_choices\":" << t.maxdepth << "}";
		s.execs += t.execs; s.steps += t.steps; s.checks += t.checks; s.pruned += t.pruned; s.nontriv += t.nontriv;
	}
	o << "},\"executions\":" << s.execs << ",\"operations\":" << s.steps << ",\"checks\":" << s.checks << ",\"nontrivial\":" << s.nontriv << ",\"states\":" << states.size() << ",\"outcomes\":" << outcomes.size();
	o << ",\"violations_not_listed\":" << over;
	o << ",\"states_capped\":" << (capped ? "true" : "false") << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\"wall\":" << now() - t0;
	o << ",\"error\":\"" << (errorflag ? esc(errtext) : "") << "\"";
	o << ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { if (i) o << ","; o << "\"" << samples[i] << "\""; }
	o << "],\"violations\":["; for (size_t i = 0; i < vj.size(); i++) { if (i) o << ","; o << vj[i]; }
	o << "]}\n"; o.close();
	return errorflag ? 3 : (vj.empty() ? 0 : 1);
}
