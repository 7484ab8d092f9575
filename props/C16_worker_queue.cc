// kv: variant=fast:0.6,std:0.4
// Worker queue: exactly once, limits, order, refusal, thread-creation failure, lifetime.
#include "refs.h"
#include "kh.h"
using namespace pbt;
extern "C" __attribute__((weak)) int __asan_address_is_poisoned(void const volatile *addr);

struct Job {
	int id, dur;
	bool high = false, blocking = false, gated = false;
	bool called = false, accepted = false, refused = false, started = false, done = false;
	bool by_caller = false;
	int64_t t_call = 0, t_ret = INT64_MAX, t_start = INT64_MAX; // event numbers
	int nested = 0;
	int submitter = -1;
};
static kasync_worker *wk;
static int W, Q, running, max_running, refused, waited_start, nested_left, submitters_left, events_high_checked;
static int64_t ev;
static bool gate;
static std::vector<Job *> jobs;
static std::map<int, int64_t> prev_end; // thread -> event number of its latest job end
static bool quiet_limits; // limits and failures make the bounds below applicable

static Job *submit(int dur, int mode, int nested, bool gated);

static kev_result job_cb(void *data, int) {
	Job *j = (Job *)data;
	CHECK(!j->started, "job %d ran twice", j->id);
	CHECK(!j->refused, "job %d ran although it was refused", j->id);
	CHECK(j->called, "unknown job");
	j->started = true;
	j->t_start = ++ev;
	j->by_caller = ds::self_id() == j->submitter && j->t_ret == INT64_MAX;
	running++;
	if (running > max_running) max_running = running;
	if (!j->by_caller) {
		int inl = 0;
		for (auto o : jobs) inl += o->started && !o->done && o->by_caller;
		CHECK(running - inl <= W, "%d jobs run at the same time, the limit is %d", running - inl, W);
		// order: at most W-1 jobs that entered the queue earlier may still be between queue and start
		int late = 0, late_high = 0;
		int64_t taken_after = j->t_call;
		auto pe = prev_end.find(ds::self_id());
		if (pe != prev_end.end() && pe->second > taken_after) taken_after = pe->second;
		for (auto o : jobs) {
			if (o->started || o->refused || o == j || !o->accepted) continue;
			if (!o->high && !j->high && o->t_ret < j->t_call) late++;
			if (o->high && !j->high && o->t_ret < taken_after) late_high++;
		}
		CHECK(late <= W - 1, "job %d started while %d jobs submitted before it had not (limit of %d threads)", j->id, late, W);
		CHECK(late_high <= W - 1, "job %d started while %d high priority jobs were waiting (limit of %d threads)", j->id, late_high, W);
	}
	for (int i = 0; i < j->nested; i++) submit(0, i & 1, 0, false);
	if (j->gated) ds::run_until([] { return gate; }, 1000000);
	else if (j->dur < 0)
		for (int i = 0; i < -j->dur; i++) ds::yield();
	else ds::sleep_ms(j->dur);
	running--;
	j->done = true;
	prev_end[ds::self_id()] = ++ev;
	return kev_ok;
}
// mode 0 try_start, 1 try_start high, 2 start (blocking)
static Job *submit(int dur, int mode, int nested, bool gated) {
	Job *j = new Job;
	j->id = (int)jobs.size();
	jobs.push_back(j);
	j->dur = dur;
	j->high = mode == 1;
	j->blocking = mode == 2;
	j->nested = nested;
	j->gated = gated;
	j->submitter = ds::self_id();
	j->called = true;
	j->t_call = ++ev;
	int fails = ds::create_failures();
	// jobs that may be waiting at some moment of this call
	std::vector<Job *> before;
	int surely = 0;
	for (auto o : jobs)
		if (o != j && o->accepted && !o->started) before.push_back(o);
	if (mode == 2) {
		kasync_worker_start(wk, j, job_cb);
		j->accepted = true;
	} else if (kasync_worker_try_start(wk, j, job_cb, j->high)) j->accepted = true;
	else {
		j->refused = true;
		refused++;
	}
	j->t_ret = ++ev;
	if (j->refused) {
		CHECK(!j->started, "job %d ran and was refused", j->id);
		int most = 0; // jobs that could have been in the queue at one moment of the call
		for (auto o : jobs)
			if (o != j && !o->refused && o->t_call < j->t_ret && o->t_start > j->t_call) most++;
		bool failed = ds::create_failures() != fails;
		CHECK((Q > 0 && most > Q) || failed, "job %d was refused with at most %d jobs waiting (queue limit %d)", j->id, most, Q);
	} else if (mode != 2) {
		for (auto o : before) surely += !o->started;
		CHECK(Q <= 0 || surely - W <= Q, "job %d was accepted with %d jobs waiting (queue limit %d)", j->id, surely - W, Q);
	}
	return j;
}
static bool quiet() {
	if (submitters_left) return false;
	for (auto j : jobs) {
		if (!j->accepted && !j->refused) return false;
		if (j->accepted && !j->done) return false;
	}
	return true;
}
struct Op { int kind, a, nested; }; // 0..2 submit, 3 sleep, 4 refs+release, 5 query
static void settle(const char *when) {
	CHECK(ds::run_until(quiet, 3600000), "%s: an accepted job or a submitter did not finish\n%s", when, ds::dump().c_str());
	ds::run_until([] { return false; }, 1);
	CHECK(kasync_worker_empty(wk), "%s: queue not empty after all jobs ran", when);
	CHECK(!kasync_worker_will_wait(wk), "%s: a new job would wait although no worker is busy", when);
	for (auto j : jobs) CHECK(j->started == j->accepted, "%s: job %d accepted=%d started=%d", when, j->id, j->accepted, j->started);
}
static void holders() {
	kasync_worker *p = kasync_worker_init(1, 0);
	refs::race({"worker queue", [p] { kasync_worker_refs(p); }, [p] { kasync_worker_release(p); },
		[p] { CHECK(kasync_worker_empty(p), "a held queue that was never used is not empty"); },
		[] { return true; }, p});
}
static void run() {
	if (chance(1, 12)) return holders();
	ds::Config c = ds::draw_config(true);
	W = range(1, 4);
	Q = range(0, 5);
	int phases = range(1, 3);
	struct Phase {
		std::vector<std::vector<Op>> sub;
		int fail_at, saturate, set;
	};
	std::vector<Phase> plan(phases);
	logf("mode=%d workers=%d queue=%d phases=%d", c.mode, W, Q, phases);
	for (auto &p : plan) {
		int ns = range(1, 4);
		p.sub.resize(ns);
		for (int s = 0; s < ns; s++) {
			int n = range(1, 7);
			std::string t;
			for (int k = 0; k < n; k++) {
				Op o;
				o.kind = (int)weighted({6, 3, 4, 3, 1, 1});
				o.a = o.kind == 3 ? pick(std::vector<int>{0, 1, 10, 100}) : pick(std::vector<int>{0, -2, -20, 1, 10, 50});
				o.nested = o.kind < 3 && chance(1, 6) ? range(1, 2) : 0;
				static const char *nm[] = {"try", "high", "start", "sleep", "refs", "query"};
				t += std::string(" ") + nm[o.kind] + kh::ll(o.a) + (o.nested ? "+" + kh::ll(o.nested) : "");
				p.sub[s].push_back(o);
			}
			logf(" submitter %d:%s", s, t.c_str());
		}
		p.fail_at = chance(1, 3) ? range(1, 3) : 0;
		p.saturate = chance(1, 2) ? range(1, 9) : 0;
		p.set = chance(1, 4) ? 1 : 0;
		if (p.set) p.set = range(1, 4) * 16 + range(0, 5);
		logf(" fail=%d saturate=%d set=%x", p.fail_at, p.saturate, p.set);
	}
	bool early_release = chance(1, 2);
	int tail_jobs = range(0, 6);
	logf("tail: %d jobs, %s", tail_jobs, early_release ? "released while they run" : "released after");
	ds::start(c);
	kthread_init();
	wk = kasync_worker_init(W, Q);
	bool saturated = false;
	for (auto &p : plan) {
		if (p.set) { // while no worker is active
			W = p.set / 16;
			Q = p.set % 16;
			kasync_worker_set(wk, W, Q);
		}
		if (p.fail_at) ds::fail_thread_create(p.fail_at);
		submitters_left = (int)p.sub.size();
		for (auto &ops : p.sub) {
			auto *o = &ops;
			ds::spawn([o] {
				for (auto &x : *o) switch (x.kind) {
					case 0: case 1: case 2: submit(x.a, x.kind, x.nested, false); break;
					case 3: ds::sleep_ms(x.a); break;
					case 4:
						kasync_worker_refs(wk);
						ds::yield();
						kasync_worker_release(wk);
						break;
					case 5:
						kasync_worker_empty(wk);
						kasync_worker_will_wait(wk);
						break;
					}
				submitters_left--;
			});
		}
		settle("after phase");
		ds::fail_thread_create(0);
		if (p.saturate) {
			saturated = true;
			// every worker busy: the queue length is exact
			gate = false;
			std::vector<Job *> g;
			for (int i = 0; i < W; i++) {
				CHECK(!kasync_worker_will_wait(wk), "%d of %d workers busy, yet a job would wait", i, W);
				Job *j = submit(0, 0, 0, true);
				CHECK(j->accepted, "a job was refused with an idle worker");
				CHECK(ds::run_until([j] { return j->started; }, 1000), "job %d did not start although %d of %d workers were busy\n%s", j->id, i, W, ds::dump().c_str());
			}
			CHECK(kasync_worker_will_wait(wk), "all %d workers are busy, yet a job would not wait", W);
			int waiting = 0;
			for (int i = 0; i < p.saturate; i++) {
				Job *j = submit(0, (i * 7 + p.saturate) % 3 == 1 ? 1 : 0, 0, false);
				bool expect = Q <= 0 || waiting <= Q;
				CHECK(j->accepted == expect, "with %d jobs waiting and a queue limit of %d a job was %s", waiting, Q, j->accepted ? "accepted" : "refused");
				CHECK(!j->started, "a job started although %d jobs run", W);
				waiting += j->accepted;
			}
			CHECK(kasync_worker_empty(wk) == (waiting == 0), "empty() = %d with %d jobs waiting", kasync_worker_empty(wk), waiting);
			// a blocking submission returns at once iff there is room, else when its job is taken
			bool returned = false;
			submitters_left = 1;
			bool full = Q > 0 && waiting > Q;
			Job *bj = nullptr;
			ds::spawn([&] {
				bj = submit(5000, 2, 0, false);
				if (full) CHECK(bj->started || true, "x");
				returned = true;
				submitters_left = 0;
			});
			bool r = ds::run_until([&] { return returned; }, 5000);
			CHECK(r == !full, "a blocking submission with %d jobs waiting and queue limit %d %s", waiting, Q, r ? "returned before its job was taken" : "blocked");
			if (full) waited_start++;
			gate = true;
			CHECK(ds::run_until([&] { return returned && jobs.back()->started; }, 60000), "a blocking submission was not taken\n%s", ds::dump().c_str());
			CHECK(!jobs.back()->done, "a blocking submission waited for its job to end, not for it to be taken");
			settle("after saturation");
		}
	}
	// lifetime: the queue outlives its last user until its jobs have run
	CHECK(!__asan_address_is_poisoned || !__asan_address_is_poisoned(wk), "the queue was freed while in use");
	std::vector<Job *> tail;
	for (int i = 0; i < tail_jobs; i++) tail.push_back(submit(i & 1 ? 10 : -3, i % 3 == 2 ? 1 : 0, 0, false));
	if (early_release) {
		kasync_worker_release(wk);
		CHECK(ds::run_until(quiet, 3600000), "jobs of a released queue did not run\n%s", ds::dump().c_str());
	} else {
		settle("tail");
		kasync_worker_release(wk);
	}
	ds::run_until([] { return false; }, 100);
	kthread_close_all_free();
	ds::run_until([] { return false; }, 10);
	CHECK(ds::live_threads() == 1, "%d threads left", ds::live_threads() - 1);
	if (__asan_address_is_poisoned) CHECK(__asan_address_is_poisoned(wk), "the queue was not freed by its last user");
	for (auto j : jobs) CHECK(j->started == j->accepted, "job %d accepted=%d started=%d", j->id, j->accepted, j->started);
	int inl = 0;
	for (auto j : jobs) inl += j->by_caller;
	if (refused) count("case with a refused job");
	if (ds::create_failures()) count("case with a failed thread creation");
	if (inl) count("case with a job run by its submitter (no thread)");
	if (saturated) count("case with exact saturation");
	if (waited_start) count("case with a blocked submission");
	if (max_running > 1) count("case with concurrent jobs");
	if (c.mode) count("case with preemption");
	if (jobs.size() > 3) nontrivial();
}

Property pbt::property = {
	"C16",
	"A case draws thread and queue limits, 1-3 phases of 1-4 submitters (try, high priority, blocking, nested submissions, references), an optional thread-creation failure per phase, limit changes, an exact saturation probe, early or late release, and a schedule. Non-trivial = more than three jobs were submitted.",
	run, 1, 300000, 4000000, 40, 600, 800,
	{"preemption points are the library's memory accesses and synchronisation calls (sequentially consistent memory)", "virtual clock", "order and refusal are checked by bounds during concurrent phases and exactly in the saturation probe"}};
