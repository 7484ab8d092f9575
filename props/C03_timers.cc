// kv: variant=fast:0.6,std:0.4
// Timers, sleeps and loop ticks.
#include "kh.h"
#include "shim.h"
#include <sys/time.h>
using namespace pbt;

enum { LOCAL, TS, MANAGER, MSLEEP };
struct T {
	int id, kind, sel, delay;
	std::vector<int> kids; // set from inside this one's callback
	int64_t lo = -1, hi = -1, t0 = -1, fired_at = -1;
	int where = -1, fired = 0;
	bool far = false; // due long after the case ends
};
struct Start { int at, via, sel; std::vector<int> ts; };
struct Tick { int sel, interval, close_by, at; kselector_tick *t = nullptr; int64_t first = -1, last = -1, closed_at = -1; long n = 0; int kills = -1; bool reg = false; int max_gap = 0; };
static std::vector<T> TT;
static std::vector<Tick> K;
static int nsel_g, left_, late_ms;
static int64_t begun;
static std::vector<std::vector<int>> pend; // per loop: local timers not yet fired
static int n_ties, n_nested, n_cross;

static int64_t wall_sec() {
	struct timeval tv;
	gettimeofday(&tv, NULL);
	return tv.tv_sec;
}
static long n_hook;
static int64_t hook_sec;
static void on_second() {
	n_hook++;
	CHECK(kgl_current_sec > hook_sec, "the second hook is called in second %lld, after %lld", (long long)kgl_current_sec, (long long)hook_sec);
	hook_sec = kgl_current_sec;
}
static int here() {
	kselector *s = kgl_get_tls_selector();
	for (int i = 0; s && i < nsel_g; i++)
		if (get_selector_by_index(i) == s) return i;
	return -1;
}
static void arm(int i, bool on_fiber);
static void fire(T *t) {
	CHECK(!t->far, "timer %d fired, but it is due in %d ms", t->id, t->delay);
	CHECK(++t->fired == 1, "timer %d fired %d times", t->id, t->fired);
	int64_t now = ds::mono_us() / 1000, cm = kgl_current_msec;
	t->fired_at = now;
	int s = here();
	CHECK(s >= 0, "timer %d fired outside the event loops", t->id);
	if (t->kind != MANAGER) CHECK(s == t->where, "timer %d fired on loop %d, expected %d", t->id, s, t->where);
	CHECK(cm >= t->lo, "timer %d with delay %d fired %lld ms early", t->id, t->delay, (long long)(t->lo - cm));
	CHECK(now >= t->t0 + t->delay - 102 - 3 * late_ms, "timer %d with delay %d fired after %lld ms", t->id, t->delay, (long long)(now - t->t0));
	CHECK(now <= t->t0 + t->delay + 320 + 8 * late_ms, "timer %d with delay %d fired only after %lld ms", t->id, t->delay, (long long)(now - t->t0));
	auto &p = pend[s];
	auto it = std::find(p.begin(), p.end(), t->id);
	if (it != p.end()) p.erase(it);
	for (int o : p)
		CHECK(TT[o].hi >= t->lo, "timer %d (due %lld) fired before timer %d (due %lld) of the same loop", t->id, (long long)t->lo, o, (long long)TT[o].hi);
	left_--;
	for (int k : t->kids) {
		n_nested++;
		arm(k, !kfiber_is_main());
	}
}
static kev_result on_timer(KOPAQUE data, void *arg, int got) {
	T *t = (T *)arg;
	CHECK(data == (KOPAQUE)((char *)t + 1) && got == 0, "timer %d called with wrong arguments", t->id);
	CHECK(kfiber_is_main(), "timer callback not on the main fiber");
	fire(t);
	return kev_ok;
}
static void arm(int i, bool on_fiber) {
	T *t = &TT[i];
	int s = here();
	KOPAQUE data = (KOPAQUE)((char *)t + 1);
	CHECK(t->t0 < 0, "harness: armed twice");
	t->t0 = ds::mono_us() / 1000;
	t->lo = kgl_current_msec + t->delay;
	int kind = t->kind;
	if (kind == LOCAL && s < 0) kind = t->kind = TS;
	if (kind == MSLEEP && !on_fiber) {
		if (s < 0) s = t->sel;
		t->where = s;
		kh::fiber(s, [t] {
			t->t0 = ds::mono_us() / 1000;
			t->lo = kgl_current_msec + t->delay;
			CHECK(kfiber_msleep(t->delay) == 0, "msleep failed");
			fire(t);
			return 0;
		});
		return;
	}
	switch (kind) {
	case LOCAL:
		t->where = s;
		CHECK(kselector_add_timer(get_selector_by_index(s), on_timer, t, t->delay, data) == 0, "add_timer failed");
		t->hi = kgl_current_msec + t->delay;
		for (int o : pend[s]) n_ties += TT[o].lo == t->lo;
		pend[s].push_back(i);
		break;
	case TS:
		t->where = t->sel;
		if (t->sel != s) n_cross++;
		kselector_add_timer_ts(get_selector_by_index(t->sel), on_timer, t, t->delay, data);
		break;
	case MANAGER: selector_manager_add_timer(on_timer, t, t->delay, data); break;
	case MSLEEP:
		t->where = s;
		CHECK(kfiber_msleep(t->delay) == 0, "msleep failed");
		fire(t);
		break;
	}
}
static int on_tick(void *arg, int) {
	Tick *k = (Tick *)arg;
	CHECK(k->closed_at < 0, "a closed tick was called");
	CHECK(here() == k->sel, "a tick ran on another loop");
	int64_t now = ds::mono_us() / 1000;
	if (k->n++) k->max_gap = std::max<int64_t>(k->max_gap, now - k->last);
	else k->first = now;
	k->last = now;
	if (now - begun >= k->at) {
		int v = k->kills;
		Tick *o = v < 0 ? NULL : &K[v];
		if (o && o->reg && o->closed_at < 0 && o->sel == k->sel) {
			o->closed_at = now;
			CHECK(kselector_close_tick(o->t), "close_tick failed");
		}
	}
	return k->interval;
}

static void run() {
	int nsel = 1 << weighted({4, 3, 1});
	nsel_g = nsel;
	ds::Config c = ds::draw_config(true);
	late_ms = (c.late_us + 999) / 1000;
	int n = size_dist(1, 60);
	logf("selectors=%d mode=%d late=%dus", nsel, c.mode, c.late_us);
	pend.resize(nsel);
	uint32_t style = draw(4);
	int base = range(0, 400);
	TT.resize(n);
	std::vector<Start> st;
	for (int i = 0; i < n; i++) {
		T &t = TT[i];
		t.id = i;
		t.kind = (int)weighted({6, 2, 2, 4});
		t.sel = range(0, nsel - 1);
		switch (style == 3 ? draw(3) : style) {
		case 0: t.delay = range(0, 30); break;
		case 1: t.delay = base + 100 * range(0, 4); break;
		default: t.delay = size_dist(0, chance(1, 8) ? 140000 : 20000); break;
		}
		if (t.kind != MSLEEP && chance(1, 14)) t.far = true, t.delay = 1000000000 + (int)draw(1147483647);
		int par = i && chance(1, 3) ? range(0, i - 1) : -1;
		if (par >= 0 && !TT[par].far) TT[par].kids.push_back(i);
		else if (!st.empty() && chance(2, 3)) st[draw((uint32_t)st.size())].ts.push_back(i);
		else {
			Start s;
			s.via = (int)weighted({4, 3, 2, 1}); // post, fiber, plain thread, before start
			s.at = s.via == 3 ? 0 : size_dist(0, 3000);
			s.sel = range(0, nsel - 1);
			s.ts = {i};
			st.push_back(s);
		}
	}
	for (auto &s : st)
		if (s.via == 3)
			for (int i : s.ts) TT[i].kind = MANAGER; // the only kind available before start-up
	int nk = (int)weighted({3, 2, 1, 1});
	K.resize(nk);
	for (int i = 0; i < nk; i++) {
		K[i].sel = range(0, nsel - 1);
		K[i].interval = (int)weighted({1, 2}) ? range(1, 90) : 0;
		K[i].at = range(0, 2000);
		K[i].kills = range(-1, nk - 1);
		logf(" tick %d: loop %d interval %d closes tick %d after %d", i, K[i].sel, K[i].interval, K[i].kills, K[i].at);
	}
	static const char *kn[] = {"local", "ts", "manager", "msleep"}, *vn[] = {"post", "fiber", "thread", "before-start"};
	for (auto &s : st) {
		std::string d;
		for (int i : s.ts) d += " " + kh::ll(i);
		logf(" at %d ms via %s on loop %d arm%s", s.at, vn[s.via], s.sel, d.c_str());
	}
	for (auto &t : TT) {
		std::string d;
		for (int k : t.kids) d += " " + kh::ll(k);
		logf(" timer %d: %s loop %d delay %d then%s", t.id, kn[t.kind], t.sel, t.delay, d.c_str());
	}
	left_ = 0;
	for (auto &t : TT) left_ += !t.far;
	io::fake_aio = true;
	ds::start(c);
	kasync_init();
	klog_init(kh::quiet_log);
	for (auto &s : st)
		if (s.via == 3)
			for (int i : s.ts) arm(i, false);
	selector_manager_init(nsel, chance(1, 2));
	bool hook = chance(1, 2);
	n_hook = 0;
	hook_sec = kgl_current_sec;
	int64_t sec0 = wall_sec();
	selector_manager_start(hook ? on_second : NULL, true);
	begun = ds::mono_us() / 1000;
	for (int i = 0; i < nk; i++)
		kh::post(K[i].sel, [i] {
			K[i].t = kselector_new_tick(on_tick, &K[i]);
			K[i].reg = kselector_register_tick(K[i].t);
			CHECK(K[i].reg, "register_tick failed");
		});
	for (auto &s : st) {
		Start *p = &s;
		if (s.via == 3) continue;
		ds::spawn([p] {
			if (p->at) ds::sleep_ms(p->at);
			if (p->via == 0) kh::post(p->sel, [p] { for (int i : p->ts) arm(i, false); });
			else if (p->via == 1) kh::fiber(p->sel, [p] { for (int i : p->ts) arm(i, true); return 0; });
			else for (int i : p->ts) arm(i, false);
		});
	}
	bool q = ds::run_until([] { return left_ == 0; }, 3600 * 1000);
	if (!q)
		for (auto &t : TT)
			if (!t.fired && !t.far) fail("timer %d with delay %d armed at %lld never fired (%d missing)", t.id, t.delay, (long long)t.t0, left_);
	ds::run_until([] { return false; }, 1000);
	if (hook) { // once for every second that passes
		int64_t s1 = wall_sec(), cs = kgl_current_sec;
		logf("second hook called %ld times in %lld s", n_hook, (long long)(s1 - sec0));
		CHECK(n_hook <= s1 - sec0 + 1, "the second hook was called %ld times in %lld seconds", n_hook, (long long)(s1 - sec0));
		int gap = 102 + 3 * late_ms; // between two looks at the clock
		int64_t least = gap < 900 ? cs - sec0 - 1 : (cs - sec0) * 1000 / (gap + 1000) - 1;
		CHECK(n_hook >= least, "the second hook was called only %ld times in %lld seconds", n_hook, (long long)(cs - sec0));
		count("case with the second hook");
	}
	for (auto &t : TT) CHECK(t.fired == !t.far, "timer %d fired %d times", t.id, t.fired);
	int64_t now = ds::mono_us() / 1000;
	for (int i = 0; i < nk; i++) {
		if (!K[i].reg) continue;
		CHECK(K[i].n > 0 || K[i].closed_at >= 0, "tick %d was never called", i);
		int want = K[i].interval ? std::min(K[i].interval, 100) : 100;
		if (K[i].n) {
			CHECK(K[i].max_gap <= want + 3 * late_ms + 2, "tick %d asked for %d ms but waited %d ms", i, want, K[i].max_gap);
			if (K[i].closed_at < 0) CHECK(now - K[i].last <= want + 3 * late_ms + 2, "tick %d stopped", i);
		}
		if (K[i].closed_at >= 0) count("case with a tick closed by a tick");
	}
	if (n_ties) count("case with equal deadlines");
	if (n_nested) count("case with timers set from timers");
	if (n_cross) count("case with timers set from other threads");
	if (nsel > 1) count("case with several loops");
	if (n > 2) nontrivial();
}

Property pbt::property = {
	"C03",
	"A case draws 1-60 timers/sleeps (kind, loop, delay incl. zero and equal ones, set at generated times from loops, fibers, threads, timers or before start-up) and 0-3 ticks; non-trivial = at least three timers.",
	run, 1, 300000, 4000000, 40, 600, 800,
	{"loops poll at least every 100 ms of virtual time", "the loop clock may lag the system clock by one poll interval"}};
