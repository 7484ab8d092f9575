// kv: variant=fast:0.6,std:0.4
// Fiber mutex: bounded exclusion, no lost wake-up, exact try-lock and counts.
#include "kh.h"
#include "shim.h"
using namespace pbt;

struct Op { int kind, max, hold, pause; };
static kfiber_mutex *mx;
static int holders, maxlimit, done_fibers, requests; // requests: lock calls begun and not yet unlocked
static int definite;                                 // lock returned and unlock not begun
static int waited, cross_wait, try_fail, try_ok, cb_locks;
static bool single;

static void enter(const char *how) {
	definite++;
	holders++;
	CHECK(holders <= maxlimit, "%d holders of a mutex with limit %d (after %s)", holders, maxlimit, how);
}
static void leave() {
	holders--;
	definite--;
	requests--;
	int r = sh_mutex_unlock(mx);
	CHECK(r == 0, "unlock returned %d", r);
}
struct CbArg { int sel, hold; bool done; };
static kev_result cb_release(KOPAQUE, void *arg, int) {
	CbArg *a = (CbArg *)arg;
	leave();
	a->done = true;
	done_fibers++;
	return kev_ok;
}
static kev_result cb_locked(KOPAQUE data, void *arg, int got) {
	CbArg *a = (CbArg *)arg;
	CHECK(kgl_get_tls_selector() == get_selector_by_index(a->sel), "lock callback ran on another selector");
	CHECK(!a->done && data == (KOPAQUE)a, "lock callback ran with wrong argument");
	enter("callback lock");
	if (a->hold == 0) return cb_release(NULL, a, 0);
	kselector_add_timer(kgl_get_tls_selector(), cb_release, a, a->hold, NULL);
	return kev_ok;
}

static void run() {
	int nsel = 1 << weighted({3, 2, 1});
	ds::Config c = ds::draw_config(true);
	bool tiny = nsel > 1 && chance(1, 3); // few operations, densely preempted
	if (tiny) ds::dense(c);
	int limit = range(1, tiny ? 2 : 3), nf = range(2, tiny ? 4 : 8);
	single = nsel == 1;
	logf("selectors=%d mode=%d limit=%d fibers=%d", nsel, c.mode, limit, nf);
	std::vector<std::vector<Op>> prog(nf);
	std::vector<int> where(nf);
	for (int i = 0; i < nf; i++) {
		where[i] = range(0, nsel - 1);
		int n = tiny ? 1 + (int)weighted({2, 1}) : range(1, 5);
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.kind = (int)weighted({5, 3, 1});
			o.max = o.kind == 1 ? range(1, nf + 1) : 0;
			o.hold = (int)weighted({2, 2, 1}) == 0 ? -1 : range(0, 6);
			o.pause = (int)weighted({2, 2, 1}) == 0 ? -1 : range(0, 6);
			if (o.kind == 2) o.max = chance(1, 2) ? 1 : 0; // raise the limit
			prog[i].push_back(o);
			s += o.kind == 0 ? " lock" : o.kind == 1 ? " try" + kh::ll(o.max) : (o.max ? " raise" : " count");
			if (o.kind < 2) s += "(hold " + kh::ll(o.hold) + ")";
			if (o.pause >= 0) s += " sleep" + kh::ll(o.pause);
		}
		logf(" fiber %d on %d:%s", i, where[i], s.c_str());
	}
	int ncb = range(0, 3);
	std::vector<CbArg> cbs(ncb);
	for (auto &a : cbs) {
		a.sel = range(0, nsel - 1);
		a.hold = range(0, 4);
		a.done = false;
		logf(" callback lock on %d (hold %d)", a.sel, a.hold);
	}
	kh::boot(nsel, c);
	mx = sh_mutex_init2(limit);
	maxlimit = limit;
	CHECK(sh_mutex_get_limit(mx) == limit, "limit");
	for (int i = 0; i < nf; i++) {
		auto *p = &prog[i];
		int me = i;
		kh::fiber(where[i], [p, me] {
			for (auto &o : *p) {
				if (o.kind == 2) {
					if (o.max && maxlimit < 6) {
						maxlimit++;
						sh_mutex_set_limit(mx, maxlimit);
					} else if (single) {
						int cnt = sh_mutex_get_count(mx), w = sh_mutex_get_worker(mx);
						CHECK(cnt == requests, "count is %d with %d fibers holding or waiting", cnt, requests);
						CHECK(w >= holders && w <= maxlimit, "worker count %d with %d holders, limit %d", w, holders, maxlimit);
					}
				} else {
					int before = requests, def_min = definite;
					requests++;
					int r;
					int64_t t0 = ds::mono_us();
					uint64_t sw = ds::switches();
					if (o.kind == 0) r = sh_mutex_lock(mx);
					else r = sh_mutex_try_lock(mx, o.max);
					(void)sw;
					if (ds::mono_us() != t0) waited++;
					if (o.kind == 0) CHECK(r == 0, "lock returned %d", r);
					if (r != 0) {
						CHECK(r == -1, "try_lock returned %d", r);
						requests--;
						try_fail++;
						if (single) CHECK(before >= o.max, "try_lock(max=%d) refused with %d holding or waiting", o.max, before);
						if (o.pause >= 0) kfiber_msleep(o.pause);
						continue;
					}
					if (o.kind == 1) {
						try_ok++;
						if (single) CHECK(before < o.max, "try_lock(max=%d) accepted with %d holding or waiting", o.max, before);
					}
					(void)def_min;
					enter(o.kind ? "try_lock" : "lock");
					if (o.hold >= 0) kfiber_msleep(o.hold);
					CHECK(holders <= maxlimit, "%d holders, limit %d", holders, maxlimit);
					leave();
				}
				if (o.pause >= 0) kfiber_msleep(o.pause);
			}
			done_fibers++;
			return 0;
		});
	}
	for (auto &a : cbs) {
		CbArg *p = &a;
		kh::post(a.sel, [p] {
			requests++;
			cb_locks++;
			kev_result r = kfiber_mutex_lock2(mx, p, cb_locked, p);
			CHECK(!KEV_AVAILABLE(r) || r == kev_ok, "lock2 result %d", (int)r);
		});
	}
	bool ok = ds::run_until([&] { return done_fibers == nf + ncb; }, 600000);
	CHECK(ok, "only %d of %d fibers finished: a waiter was never woken (holders=%d count=%d worker=%d)\n%s", done_fibers, nf + ncb, holders, sh_mutex_get_count(mx), sh_mutex_get_worker(mx), ds::dump().c_str());
	ds::run_until([] { return false; }, 300);
	CHECK(sh_mutex_get_count(mx) == 0 && sh_mutex_get_worker(mx) == 0, "after all unlocks count=%d worker=%d", sh_mutex_get_count(mx), sh_mutex_get_worker(mx));
	CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count());
	sh_mutex_destroy(mx);
	if (waited) count("case with a fiber that blocked");
	if (try_fail) count("case with a refused try_lock");
	if (try_ok) count("case with an accepted try_lock");
	if (cb_locks) count("case with callback locks");
	if (nsel > 1) count("case across selectors");
	if (c.mode) count("case with preemption");
	if (waited || try_fail) nontrivial();
}

Property pbt::property = {
	"C05",
	"A case draws 1, 2 or 4 selector threads, a limit, 2-8 fibers with programs of lock/try_lock/raise-limit/sleep, callback-style lockers and a schedule; non-trivial = some fiber had to wait or a try_lock was refused. Distinct by hash of the choice tape.",
	run, 1, 300000, 4000000, 45, 600, 800,
	{"preemption points are the library's memory accesses and synchronisation calls (sequentially consistent memory)", "virtual clock"}};
