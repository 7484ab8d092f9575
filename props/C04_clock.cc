// kv: variant=fast:0.7,std:0.3
// The system clock is set back while timers, sleeps and time-outs are pending.
#include "net.h"
#include "shim.h"
using namespace pbt;

enum { SLEEP, LOCAL, TS, MANAGER, IDLE_READ, DATA_READ, NOTE_READ, DIAL, NK };
static const char *kn[] = {"sleep", "timer", "timer from a thread", "manager timer", "idle read", "read", "read with notification", "connect"};
struct Step {
	int id, kind, sel, delay, gap, mult;
	int64_t t0 = -1, t1 = -1;
	int fired = 0;
	bool done = false, hot = false; // hot: armed while an adjustment was under way (see known_findings.txt)
	int shifts = 0; // adjustments while it was pending
};
struct Shift { int at; int64_t by; };
static std::vector<std::vector<Step>> actors;
static std::vector<Shift> shifts;
static std::vector<int64_t> shift_time;
static int nsel_g, late_ms, rw_s, conn_s, actors_left, n_hit, n_to, n_pings, n_notes;
static int64_t hot_until = -1, last_arm = -1, window;
static bool racy;
static sockaddr_i full_addr;
static int64_t now_ms() { return ds::mono_us() / 1000; }
static kselector *mains[2]; // loops of kasync_main, when the case runs those instead of the manager's
static int nmain;
static kselector *loop_at(int i) { return nmain ? mains[i] : get_selector_by_index(i); }
static int here() {
	kselector *s = kgl_get_tls_selector();
	for (int i = 0; s && i < nmain; i++)
		if (mains[i] == s) return i;
	if (nmain) return -1;
	for (int i = 0; s && i < nsel_g; i++)
		if (get_selector_by_index(i) == s) return i;
	return -1;
}
static const char *tag(const Step *s) { return s->hot ? "[clock-race] " : ""; }
static void armed(Step *s) {
	s->t0 = now_ms();
	last_arm = s->t0;
}
// [lo, hi]: the delay it must have taken, before the allowance for one adjustment each
static void judge(Step *s, int64_t lo, int64_t hi) {
	int64_t now = now_ms(), took = now - s->t0;
	s->t1 = now;
	for (int64_t t : shift_time)
		if (t >= s->t0 && t < now) s->shifts++;
	n_hit += s->shifts > 0;
	hi += s->shifts * (104 + 3 * late_ms);
	// an adjustment takes effect when the first loop sees it: what was armed just before belongs to it
	CHECK(took >= lo, "%s%s %d on loop %d due after %d ms ended after %lld ms (%d adjustments meanwhile)", tag(s), kn[s->kind], s->id, s->sel, s->delay, (long long)took, s->shifts);
	CHECK(took <= hi, "%s%s %d on loop %d due after %d ms ended only after %lld ms (%d adjustments meanwhile)", tag(s), kn[s->kind], s->id, s->sel, s->delay, (long long)took, s->shifts);
}
static void timer_done(Step *s) {
	CHECK(++s->fired == 1, "%s %d fired %d times", kn[s->kind], s->id, s->fired);
	int h = here();
	CHECK(h >= 0 && (s->kind == MANAGER || h == s->sel), "%s %d fired on loop %d, expected %d", kn[s->kind], s->id, h, s->sel);
	judge(s, s->delay - 102 - 3 * late_ms, s->delay + 320 + 8 * late_ms);
	s->done = true;
}
static kev_result on_timer(KOPAQUE, void *arg, int) {
	timer_done((Step *)arg);
	return kev_ok;
}
static int idle_read(Step *s, kconnection *c, int peer) {
	char b[16];
	int64_t limit = (int64_t)rw_s * 1000 * (s->mult + 1), lo = limit - 130 - 2 * late_ms, hi = limit + 400 + 4 * late_ms + (s->mult + 1) * (220 + 2 * late_ms);
	c->st.base.tmo = s->mult;
	if (s->kind == NOTE_READ) KBIT_SET(c->st.base.st_flags, STF_RTIME_OUT);
	armed(s);
	int r = sh_net_read(c, b, sizeof b);
	CHECK(here() == s->sel, "%s %d ended on another loop", kn[s->kind], s->id);
	if (s->kind == DATA_READ) {
		CHECK(r == 3 && !memcmp(b, "abc", 3), "%s%s %d with data after %d ms was ended (%d) after %lld ms; the time-out is %lld ms", tag(s), kn[s->kind], s->id, s->delay, r, (long long)(now_ms() - s->t0), (long long)limit);
		judge(s, s->delay, s->delay + 20 + late_ms);
	} else {
		CHECK(r <= 0, "%s %d reports %d", kn[s->kind], s->id, r);
		if (s->kind == NOTE_READ) {
			CHECK(r == ST_ERR_TIME_OUT, "%s %d reports %d instead of a time-out", kn[s->kind], s->id, r);
			n_notes++;
		}
		n_to++;
		judge(s, lo, hi);
		if (s->kind == NOTE_READ) { // still usable
			CHECK(::send(peer, "xy", 2, MSG_NOSIGNAL) == 2, "send");
			r = sh_net_read(c, b, sizeof b);
			CHECK(r == 2, "%s %d: the connection is not usable afterwards (%d)", kn[s->kind], s->id, r);
		}
	}
	kfiber_net_close(c);
	::close(peer);
	s->done = true;
	return 0;
}
static int dial(Step *s) {
	kconnection *c = kconnection_new(&full_addr);
	int64_t limit = (int64_t)conn_s * 1000 * (s->mult + 1);
	c->st.base.tmo = s->mult;
	armed(s);
	int r = kfiber_net_connect(c, NULL, 0);
	CHECK(r < 0, "%s %d reports success (%d)", kn[s->kind], s->id, r);
	n_to++;
	judge(s, limit - 130 - 2 * late_ms, limit + 400 + 4 * late_ms + (s->mult + 1) * (220 + 2 * late_ms));
	kfiber_net_close(c);
	s->done = true;
	return 0;
}
static void actor(std::vector<Step> *v) {
	for (auto &st : *v) {
		Step *s = &st;
		if (s->gap) ds::sleep_ms(s->gap);
		// what only the first loop arms itself is never affected by an adjustment under way
		bool own0 = s->sel == 0 && s->kind != TS && s->kind != MANAGER;
		while (!own0 && !racy && now_ms() <= hot_until) ds::sleep_ms(hot_until - now_ms() + 1);
		s->hot = !own0 && racy;
		last_arm = now_ms();
		switch (s->kind) {
		case SLEEP:
			kh::fiber(s->sel, [s] {
				armed(s);
				CHECK(kfiber_msleep(s->delay) == 0, "sleep failed");
				timer_done(s);
				return 0;
			});
			break;
		case LOCAL:
			kh::post(s->sel, [s] {
				armed(s);
				CHECK(kselector_add_timer(get_selector_by_index(s->sel), on_timer, s, s->delay, NULL) == 0, "add_timer failed");
			});
			break;
		case TS:
			armed(s);
			kselector_add_timer_ts(get_selector_by_index(s->sel), on_timer, s, s->delay, NULL);
			break;
		case MANAGER:
			armed(s);
			selector_manager_add_timer(on_timer, s, s->delay, NULL);
			break;
		case DIAL: kh::fiber(s->sel, [s] { return dial(s); }); break;
		default: {
			int fd[2];
			net::pair(fd, false, 0);
			kconnection *c = net::conn(fd[0], s->sel);
			int p = fd[1];
			kh::fiber(s->sel, [s, c, p] { return idle_read(s, c, p); });
			if (s->kind == DATA_READ) {
				while (s->t0 < 0) ds::sleep_ms(1);
				ds::sleep_ms(std::max<int64_t>(0, s->t0 + s->delay - now_ms()));
				s->t0 = now_ms() - s->delay; // the moment the data was there
				::send(p, "abc", 3, MSG_NOSIGNAL);
			}
		}
		}
		while (!s->done) ds::sleep_ms(5);
	}
	actors_left--;
}
struct Tick { int64_t last = -1; int gap = 0; long n = 0; };
static Tick ticks[8];
static int on_tick(void *arg, int) {
	Tick *t = (Tick *)arg;
	int64_t n = now_ms();
	if (t->n++) t->gap = std::max(t->gap, (int)(n - t->last));
	t->last = n;
	return 60;
}
static void draw_shifts(int ns) {
	for (int i = 0; i < ns; i++) {
		Shift s;
		s.at = size_dist(0, 7000);
		int w = weighted({3, 4, 3, 2});
		s.by = w == 0 ? 1000 + range(0, 200) : w == 1 ? 1000 + size_dist(0, 20000) : w == 2 ? 1000 * (1 + size_dist(0, 7200)) : 1000 + (int64_t)draw(1000000000) * (chance(1, 2) ? 100 : 1);
		shifts.push_back(s);
		logf("after %d ms: clock set back by %lld ms", s.at, (long long)s.by);
	}
}
static void log_actors() {
	for (auto &a : actors) {
		std::string t;
		for (auto &s : a) t += std::string(" | +") + kh::ll(s.gap) + " " + kn[s.kind] + " " + kh::ll(s.id) + " loop " + kh::ll(s.sel) + " " + kh::ll(s.delay) + "ms";
		logf("actor:%s", t.c_str());
	}
}
// an actor that is a fiber of a main function's loop
static int main_actor(void *arg, int) {
	for (auto &st : *(std::vector<Step> *)arg) {
		Step *s = &st;
		if (s->gap) kfiber_msleep(s->gap);
		// with one loop the adjustment is seen before anything else is armed
		while (nmain > 1 && now_ms() <= hot_until) kfiber_msleep((int)(hot_until - now_ms() + 1));
		last_arm = now_ms();
		switch (s->kind) {
		case SLEEP:
			armed(s);
			CHECK(kfiber_msleep(s->delay) == 0, "sleep failed");
			timer_done(s);
			break;
		case LOCAL:
			armed(s);
			CHECK(kselector_add_timer(kgl_get_tls_selector(), on_timer, s, s->delay, NULL) == 0, "add_timer failed");
			while (!s->done) kfiber_msleep(100);
			break;
		default: {
			int fd[2];
			net::pair(fd, false, 0);
			kconnection *c = kconnection_new(NULL);
			c->st.fd = fd[0];
			selectable_bind(&c->st, kgl_get_tls_selector());
			int p = fd[1];
			if (s->kind == DATA_READ)
				ds::spawn([s, p] {
					while (s->t0 < 0) ds::sleep_ms(1);
					ds::sleep_ms(std::max<int64_t>(0, s->t0 + s->delay - now_ms()));
					s->t0 = now_ms() - s->delay;
					::send(p, "abc", 3, MSG_NOSIGNAL);
				});
			idle_read(s, c, p);
		}
		}
	}
	return 0;
}
struct Main { int id; std::vector<int> mine; bool over = false; };
static int main_body(void *arg, int) {
	Main *m = (Main *)arg;
	kselector *me = kgl_get_tls_selector();
	mains[m->id] = me;
	me->timeout[KGL_LIST_RW] = rw_s * 1000;
	kselector_tick *t = kselector_new_tick(on_tick, &ticks[m->id]);
	kselector_register_tick(t);
	kfiber_msleep(200);
	std::vector<kfiber *> f(m->mine.size());
	for (size_t i = 0; i < f.size(); i++) CHECK(kfiber_create(main_actor, &actors[m->mine[i]], 0, 0, &f[i]) == 0, "kfiber_create failed");
	for (auto *h : f) kfiber_join(h, NULL);
	while (hot_until >= 0 && now_ms() <= hot_until) kfiber_msleep(50);
	CHECK(ticks[m->id].gap <= 62 + 3 * late_ms && now_ms() - ticks[m->id].last <= 62 + 3 * late_ms, "the tick of main %d stopped for %d ms", m->id, ticks[m->id].gap);
	kselector_close_tick(t);
	mains[m->id] = NULL;
	return m->id + 5;
}
static void run_mains() {
	ds::Config cfg = ds::draw_config(true);
	cfg.max_steps = 60000000;
	nmain = chance(1, 3) ? 2 : 1;
	late_ms = (cfg.late_us + 999) / 1000;
	window = 105 + 3 * late_ms;
	rw_s = range(1, 4);
	Main m[2] = {{0}, {1}};
	int na = size_dist(1, 12), id = 0;
	for (int i = 0; i < na; i++) {
		actors.emplace_back();
		int k = range(1, 4), sel = (int)draw(nmain);
		m[sel].mine.push_back(i);
		for (int j = 0; j < k; j++) {
			Step s;
			s.id = id++;
			static const int kinds[] = {SLEEP, LOCAL, IDLE_READ, DATA_READ, NOTE_READ};
			s.kind = kinds[weighted({5, 4, 3, 2, nmain == 1})];
			s.sel = sel;
			s.delay = s.kind == DATA_READ ? (int)draw(rw_s * 1000 - 250 - 3 * late_ms) : chance(1, 3) ? 100 * range(0, 30) : size_dist(0, 5000);
			s.gap = chance(1, 2) ? size_dist(0, 2000) : 0;
			s.mult = nmain == 1 && s.kind >= IDLE_READ && s.kind != DATA_READ && chance(1, 3) ? range(1, 2) : 0;
			if (s.kind == IDLE_READ || s.kind == NOTE_READ) s.delay = rw_s * 1000 * (s.mult + 1);
			actors.back().push_back(s);
		}
	}
	draw_shifts(range(1, 3));
	logf("main functions=%d mode=%d late=%dus time-out rw %d s", nmain, cfg.mode, cfg.late_us, rw_s);
	log_actors();
	ds::start(cfg);
	kasync_init();
	int left = nmain;
	for (int i = 0; i < nmain; i++) {
		Main *x = &m[i];
		ds::spawn([x, &left] {
			int r = kasync_main(main_body, x, 0);
			CHECK(r == x->id + 5, "the main function gave %d", r);
			x->over = true;
			left--;
		});
	}
	ds::spawn([&] {
		for (auto &s : shifts) {
			ds::sleep_ms(300 + s.at);
			while (now_ms() <= last_arm + 1) ds::sleep_ms(2);
			// not while a main function ends: the adjustment may be seen by its last round only
			if (m[0].over || m[1].over) break;
			ds::shift_clock(-s.by * 1000);
			shift_time.push_back(now_ms());
			hot_until = now_ms() + window;
		}
	});
	bool ok = ds::run_until([&] { return left == 0; }, 400000);
	if (!ok)
		for (auto &a : actors)
			for (auto &s : a)
				if (s.t0 >= 0 && !s.done) fail("%s %d of main %d due after %d ms has not ended after %lld ms", kn[s.kind], s.id, s.sel, s.delay, (long long)(now_ms() - s.t0));
	CHECK(ok, "the case does not end");
	for (auto &a : actors)
		for (auto &s : a)
			if (s.kind <= MANAGER) CHECK(s.fired == 1, "%s %d fired %d times", kn[s.kind], s.id, s.fired);
	count("adjustments", (long)shift_time.size());
	count("items pending during an adjustment", n_hit);
	count("case of main functions", 1);
	if (n_hit) nontrivial();
}
static void run_case() {
	if (chance(1, 6)) return run_mains();
	ds::Config cfg = ds::draw_config(true);
	cfg.max_steps = 60000000;
	int nsel = 1 << weighted({3, 2, 1});
	nsel_g = nsel;
	late_ms = (cfg.late_us + 999) / 1000;
	window = 105 + 3 * late_ms;
	rw_s = range(1, 4);
	conn_s = range(1, 3);
	racy = nsel > 1 && chance(1, 25);
	int na = size_dist(1, 24), ns = range(1, 4);
	bool dials = chance(1, 2);
	int id = 0;
	for (int i = 0; i < na; i++) {
		actors.emplace_back();
		int k = range(1, 4), sel = (int)draw(nsel);
		for (int j = 0; j < k; j++) {
			Step s;
			s.id = id++;
			s.kind = (int)weighted({5, 5, 2, 1, 3, 2, 1, dials ? 3u : 0u});
			s.sel = chance(1, 6) ? (int)draw(nsel) : sel;
			s.delay = s.kind == DATA_READ ? (int)draw(rw_s * 1000 - 250 - 3 * late_ms) : chance(1, 3) ? 100 * range(0, 30) : size_dist(0, chance(1, 10) ? 30000 : 5000);
			s.gap = chance(1, 2) ? size_dist(0, 2000) : 0;
			// restarted waits of other loops may fall into an adjustment under way: only on the first loop
			s.mult = s.sel == 0 && s.kind >= IDLE_READ && s.kind != DATA_READ && chance(1, 3) ? range(1, 2) : 0;
			if (s.kind == IDLE_READ || s.kind == NOTE_READ) s.delay = rw_s * 1000 * (s.mult + 1);
			if (s.kind == NOTE_READ && s.sel != 0) s.kind = IDLE_READ;
			if (s.kind == DIAL) s.delay = conn_s * 1000 * (s.mult + 1);
			actors.back().push_back(s);
		}
	}
	draw_shifts(ns);
	logf("selectors=%d mode=%d late=%dus time-outs rw %d s connect %d s%s", nsel, cfg.mode, cfg.late_us, rw_s, conn_s, racy ? ", arming during adjustments" : "");
	log_actors();
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(conn_s, rw_s);
	std::vector<int> fill;
	int lst = -1;
	if (dials) {
		lst = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		memset(&full_addr, 0, sizeof full_addr);
		full_addr.v4.sin_family = AF_INET;
		full_addr.v4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t n = sizeof full_addr.v4;
		if (bind(lst, (struct sockaddr *)&full_addr, n) || listen(lst, 0) || getsockname(lst, (struct sockaddr *)&full_addr, &n)) discard("no loopback");
		for (int i = 0; i < 4; i++) {
			int s = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			connect(s, (struct sockaddr *)&full_addr, sizeof full_addr.v4);
			fill.push_back(s);
		}
	}
	for (int i = 0; i < nsel; i++)
		kh::post(i, [i] { kselector_register_tick(kselector_new_tick(on_tick, &ticks[i])); });
	ds::run_until([] { return false; }, 300);
	actors_left = na;
	for (auto &a : actors) ds::spawn([&a] { actor(&a); });
	bool shifting = true;
	ds::spawn([&shifting] {
		for (auto &s : shifts) {
			ds::sleep_ms(s.at);
			while (!racy && now_ms() <= last_arm + 1) ds::sleep_ms(2);
			ds::shift_clock(-s.by * 1000);
			shift_time.push_back(now_ms());
			hot_until = now_ms() + window;
			if (racy) continue;
			// unaffected work continues: a post to each loop is answered at once
			for (int i = 0; i < nsel_g; i++) {
				bool got = false;
				int64_t t = now_ms();
				kh::post(i, [&got] { got = true; });
				while (!got) {
					ds::sleep_ms(5);
					CHECK(now_ms() - t <= 30, "loop %d does not answer after the clock was set back by %lld ms", i, (long long)s.by);
				}
				n_pings++;
			}
		}
		shifting = false;
	});
	bool ok = ds::run_until([&] { return actors_left == 0 && !shifting; }, 400000);
	if (!ok)
		for (int pass = 0; pass < 2; pass++)
			for (auto &a : actors)
				for (auto &s : a)
					if (s.t0 >= 0 && !s.done && s.hot == (pass == 1)) fail("%s%s %d on loop %d due after %d ms has not ended after %lld ms", tag(&s), kn[s.kind], s.id, s.sel, s.delay, (long long)(now_ms() - s.t0));
	CHECK(ok, "the case does not end");
	ds::run_until([] { return false; }, 400);
	for (auto &a : actors)
		for (auto &s : a)
			if (s.kind <= MANAGER) CHECK(s.fired == 1, "%s %d fired %d times", kn[s.kind], s.id, s.fired);
	for (int i = 0; i < nsel; i++) CHECK(ticks[i].n > 0 && ticks[i].gap <= 62 + 3 * late_ms && now_ms() - ticks[i].last <= 62 + 3 * late_ms, "the tick of loop %d stopped for %d ms", i, ticks[i].gap);
	count("adjustments", (long)shift_time.size());
	count("items pending during an adjustment", n_hit);
	count("time-outs", n_to);
	count("loops that answered right after one", n_pings);
	if (nsel > 1) count("case with several loops", 1);
	if (n_hit) nontrivial();
}
Property pbt::property = {
	"C04",
	"1-24 actors on 1, 2 or 4 loops each run 1-4 steps: fiber sleeps, timers set on the loop, from a thread or through the manager (0-30 s, equal deadlines), idle reads ended by the 1-4 s time-out (with multipliers and with notification), reads that get data before it, connects nobody answers; or 1-2 kasync_main loops with fibers that sleep, set timers and read; meanwhile the system clock is set back 1-4 times by 1 s to 3 years at generated moments. Oracle: each step takes its own delay on the unadjusted clock within the slack of the 100 ms poll (plus one poll per adjustment), fires once, on its loop; ticks go on and each loop answers posted work at once. Non-trivial: something was pending during an adjustment.",
	run_case, 1, 60000, 1000000, 40, 500, 300,
	{"an adjustment is seen at the first loop's next poll (100 ms); the time between is lost at most once per adjustment"},
};
