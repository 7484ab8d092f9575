// kv: variant=fast:0.6,std:0.4
// Thread pool: every started job runs once, threads are reused and flushed safely.
#include "kh.h"
#include "kasync_worker.h"
using namespace pbt;

struct Job {
	int id, dur; // dur<0: yields
	int runs = 0;
	bool done = false, accepted = false, refused = false;
	int thread = -1;
};
enum OpK { START, PLAIN, FLUSH, SLEEP, COUNT, CLOSE };
struct Op { OpK k; int a; };
static std::vector<std::unique_ptr<Job>> jobs;
static int running, max_running, submitters_left, refused, flush_raced, reused;
static std::map<int, int64_t> last_end; // pool thread -> time its latest job ended (ms)
static std::set<int> pool_threads;

static KTHREAD_FUNCTION work(void *p) {
	Job *j = (Job *)p;
	j->runs++;
	CHECK(j->runs == 1, "job %d ran %d times", j->id, j->runs);
	CHECK(!j->refused, "job %d ran although its start call reported failure", j->id);
	j->thread = ds::self_id();
	if (!pool_threads.insert(j->thread).second) reused++;
	last_end[j->thread] = -1; // busy
	running++;
	if (running > max_running) max_running = running;
	if (j->dur < 0)
		for (int i = 0; i < -j->dur; i++) ds::yield();
	else ds::sleep_ms(j->dur);
	running--;
	last_end[j->thread] = ds::mono_us() / 1000;
	j->done = true;
	KTHREAD_RETURN;
}
static KTHREAD_FUNCTION plain_work(void *p) {
	Job *j = (Job *)p;
	j->runs++;
	CHECK(j->runs == 1, "plain job %d ran %d times", j->id, j->runs);
	j->done = true;
	KTHREAD_RETURN;
}
static kev_result as_callback(void *p, int msec) {
	CHECK(msec == 0, "a job started through a callback is told a wait of %d ms", msec);
	work(p);
	return kev_ok;
}
static Job *start(int dur, bool plain = false) {
	Job *j = new Job;
	jobs.emplace_back(j);
	j->id = (int)jobs.size();
	j->dur = dur;
	int f = ds::create_failures();
	bool ok = plain ? kthread_start(plain_work, j) : j->id % 4 == 3 ? kasync_worker_thread_start(j, as_callback) : kthread_pool_start(work, j);
	bool could_fail = ds::create_failures() != f; // some creation failed meanwhile (maybe another caller's)
	if (ok) j->accepted = true;
	else {
		CHECK(could_fail, "starting job %d failed although no thread creation failed", j->id);
		CHECK(j->runs == 0, "job %d ran although its start call reported failure", j->id);
		j->refused = true;
		refused++;
	}
	return j;
}
static bool quiet() {
	if (submitters_left) return false;
	for (auto &j : jobs)
		if (j->accepted && !j->done) return false;
	return true;
}
static void settle(const char *when) {
	CHECK(ds::run_until(quiet, 3600000), "%s: a started job did not finish\n%s", when, ds::dump().c_str());
	int w = -1, f = -1;
	bool ok = ds::run_until([&] { return false; }, 1) || true;
	kthread_get_count(&w, &f);
	CHECK(ok && w == 0, "%s: %d threads counted as working when no job is running", when, w);
	int live = ds::live_threads() - 1; // minus the driver
	CHECK(f == live, "%s: %d idle threads reported, %d threads exist", when, f, live);
}
static int nfree() {
	int w, f;
	kthread_get_count(&w, &f);
	return f;
}
static void flush_when_quiet(int minimum) {
	int before = nfree(), old = 0, young = 0;
	int64_t now = ds::mono_us() / 1000;
	(void)now;
	// the library's time has a resolution of a second; ages near the limit may go either way
	std::vector<int64_t> ages;
	for (auto &e : last_end) ages.push_back(now - e.second);
	// only the threads still alive count: the `before` most recently idle ones
	std::sort(ages.begin(), ages.end());
	if ((int)ages.size() > before) ages.resize(before);
	for (auto a : ages) {
		old += a > 62000;
		young += a < 59000;
	}
	kthread_flush(minimum);
	int after = nfree();
	logf(" quiet flush(%d): idle %d -> %d (over a minute idle: %d, under: %d)", minimum, before, after, old, young);
	CHECK(after >= std::min(minimum, before), "flush(%d) left %d of %d idle threads", minimum, after, before);
	CHECK(after >= young, "flush(%d) ended a thread idle for less than a minute (%d left, %d were young)", minimum, after, young);
	CHECK(after <= std::max(std::min(minimum, before), before - old), "flush(%d) kept %d of %d idle threads, %d were idle for over a minute", minimum, after, before, old);
	ds::run_until([] { return false; }, 1);
	CHECK(ds::live_threads() - 1 == after, "flushed threads did not end: %d exist, %d are idle", ds::live_threads() - 1, after);
	if (after < before) count("flush that ended threads");
}
// with the manager's thread timer a pool thread that stays idle is ended, again and again
static void run_managed() {
	ds::Config c = ds::draw_config(true);
	c.max_steps = 60000000;
	int nsel = 1 << draw(2), rounds = range(1, 3);
	std::vector<std::vector<std::pair<int, int>>> plan(rounds); // after, how long
	logf("%d loops with the thread timer", nsel);
	for (auto &r : plan) {
		std::string t;
		for (int i = range(1, 6); i > 0; i--) {
			r.push_back({pick(std::vector<int>{0, 0, 5, 1000, 40000}), pick(std::vector<int>{0, 10, 1000, 30000})});
			t += " " + kh::ll(r.back().first) + ":" + kh::ll(r.back().second);
		}
		logf(" round:%s", t.c_str());
	}
	kh::boot(nsel, c, true);
	for (auto &r : plan) {
		for (auto &j : r) {
			if (j.first) ds::run_until([] { return false; }, j.first);
			start(j.second);
		}
		CHECK(ds::run_until(quiet, 3600000), "a started job did not finish\n%s", ds::dump().c_str());
		int w, f;
		ds::run_until([] { return false; }, 50000);
		kthread_get_count(&w, &f);
		CHECK(w == nsel, "%d threads counted as working with %d loops and no job", w, nsel);
		CHECK(f >= 1, "no idle thread is kept 50 s after the last job");
		ds::run_until([] { return false; }, 75000 + c.late_us / 50);
		kthread_get_count(&w, &f);
		CHECK(w == nsel && f == 0, "%d threads are still idle two minutes after the last job", f);
		CHECK(ds::live_threads() - 1 == nsel, "%d threads exist with %d loops", ds::live_threads() - 1, nsel);
	}
	for (auto &j : jobs) CHECK(j->runs == 1, "job %d ran %d times", j->id, j->runs);
	count("case with the manager's thread timer");
	if (reused) nontrivial();
}
static void run() {
	if (chance(1, 30)) return run_managed();
	ds::Config c = ds::draw_config(true);
	int phases = range(1, 3);
	bool closed_in_phase = false;
	struct Phase {
		std::vector<std::vector<Op>> sub;
		int fail_at, pause, flush_min;
		bool reuse;
	};
	std::vector<Phase> plan(phases);
	logf("mode=%d phases=%d", c.mode, phases);
	for (auto &p : plan) {
		int ns = range(1, 4);
		p.sub.resize(ns);
		for (int s = 0; s < ns; s++) {
			int n = range(1, 7);
			std::string txt;
			for (int k = 0; k < n; k++) {
				Op o;
				o.k = (OpK)weighted({8, 1, 3, 3, 1, 1});
				switch (o.k) {
				case START: o.a = pick(std::vector<int>{0, -3, -20, 1, 10, 1000, 61000}); break;
				case FLUSH: o.a = pick(std::vector<int>{0, 0, 1, 2}); break;
				case SLEEP: o.a = pick(std::vector<int>{1, 10, 1000, 61000, 70000}); break;
				case CLOSE: closed_in_phase = true;
				default: o.a = 0;
				}
				static const char *nm[] = {"start", "plain", "flush", "sleep", "count", "close"};
				txt += std::string(" ") + nm[o.k] + kh::ll(o.a);
				p.sub[s].push_back(o);
			}
			logf(" submitter %d:%s", s, txt.c_str());
		}
		p.fail_at = chance(1, 3) ? range(1, 3) : 0;
		p.pause = pick(std::vector<int>{0, 1000, 30000, 58000, 65000, 120000});
		p.flush_min = pick(std::vector<int>{0, 0, 1, 2});
		p.reuse = chance(1, 2);
		logf(" fail=%d pause=%d flush=%d reuse=%d", p.fail_at, p.pause, p.flush_min, p.reuse);
	}
	ds::start(c);
	kthread_init();
	for (auto &p : plan) {
		if (p.fail_at) ds::fail_thread_create(p.fail_at);
		submitters_left = (int)p.sub.size();
		for (auto &ops : p.sub) {
			auto *o = &ops;
			ds::spawn([o] {
				for (auto &x : *o) switch (x.k) {
					case START: start(x.a); break;
					case PLAIN: start(0, true); break;
					case FLUSH: kthread_flush(x.a); break;
					case CLOSE: kthread_close_all_free(); break;
					case SLEEP: ds::sleep_ms(x.a); break;
					case COUNT: {
						int w, f;
						kthread_get_count(&w, &f);
						CHECK(w >= 0 && f >= 0, "counts %d/%d", w, f);
					}
					}
				submitters_left--;
			});
		}
		settle("after phase");
		ds::fail_thread_create(0);
		if (p.pause) ds::run_until([] { return false; }, p.pause);
		flush_when_quiet(p.flush_min);
		if (p.reuse) {
			int f = nfree(), cr = ds::thread_creates();
			Job *j = start(0);
			CHECK(ds::run_until([j] { return j->done; }, 1000), "a job given to the idle pool did not run");
			CHECK(ds::thread_creates() - cr == (f ? 0 : 1), "with %d idle threads a start created %d threads", f, ds::thread_creates() - cr);
			settle("after reuse");
		}
	}
	kthread_close_all_free();
	CHECK(nfree() == 0, "%d idle threads after closing all", nfree());
	ds::run_until([] { return false; }, 10);
	CHECK(ds::live_threads() == 1, "%d pool threads left after closing all\n%s", ds::live_threads() - 1, ds::dump().c_str());
	for (auto &j : jobs) CHECK(j->runs == (j->accepted ? 1 : 0), "job %d: accepted=%d, ran %d times", j->id, j->accepted, j->runs);
	if (refused) count("case with a refused start (thread creation failed)");
	if (reused) count("case that reused a thread");
	if (max_running > 1) count("case with concurrent jobs");
	if (closed_in_phase) count("case that closes idle threads while starting");
	if (c.mode) count("case with preemption");
	if (reused || refused) nontrivial();
}

Property pbt::property = {
	"C17",
	"A case in thirty boots 1-2 loops with the manager's thread timer, runs 1-3 rounds of jobs and looks at the idle threads 50 s and two minutes after each; the others: a case draws 1-3 phases of 1-4 submitters (start a job of some length, plain thread start, flush, close idle threads, sleep, count), an optional thread-creation failure per phase, a quiet pause and flush with an exact count oracle, and a schedule. Non-trivial = a pool thread was reused or a start was refused.",
	run, 1, 300000, 4000000, 40, 600, 800,
	{"preemption points are the library's memory accesses and synchronisation calls (sequentially consistent memory)", "virtual clock; idle ages within a second or two of the one-minute limit may go either way", "signals sent to a pool thread are delivered"}};
