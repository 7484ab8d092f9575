// kv: variant=fast:0.7,std:0.3
// Posting work to event loops, start-up and per-thread callbacks, growth.
#include "net.h"
#include "shim.h"
using namespace pbt;

enum { NEXT, READY, TIMER, FIBER, NK };
static const char *kn[] = {"post", "ready callback", "manager timer", "fiber"};
struct Post {
	int kind, dest, got, gap;
	std::vector<int> then;      // posted by the callback itself
	bool then_fiber;            // ... or by a fiber the callback starts
	kselector *to = nullptr;
	int runs = 0;
	int64_t t0 = -1;
	bool planned = false;
};
struct InitCb { int runs[64] = {0}, exits[64] = {0}; bool early; };
static std::vector<Post> P;
static std::vector<InitCb> I;
static int phase_of[64], again_at;
static int count_g, left_g, rw_s, n_cross, n_self, n_before, n_burst, n_after_grow, grow_at, grow_to, n_loops_max;
static bool started, grown, step_mode, growable, in_grow;
static int64_t start_ms;
static int exited, late_ms;
static kselector *s0;
static kselector *loops[64];
static int64_t now_ms() { return ds::mono_us() / 1000; }
static int pow2_below(int n) {
	int r = 1;
	while (r * 2 <= n && r < 64) r *= 2;
	return r;
}
static int index_of(kselector *s) {
	for (int i = 0; i < n_loops_max; i++)
		if (loops[i] == s) return i;
	return -1;
}
static kev_result on_post(KOPAQUE data, void *arg, int got);
static kev_result on_ready_cb(KOPAQUE data, void *arg, int got);
static int fiber_body(void *arg, int got);
static int64_t tag_data(int id) { return 0x5500000000ll + id; }
static void do_post(int id) {
	Post &p = P[id];
	p.t0 = now_ms();
	kselector *me = kgl_get_tls_selector();
	if (!is_selector_manager_init())
		p.to = NULL;
	// until growth is over other threads may only use a loop they know
	else if (growable && !grown)
		p.to = s0;
	else
		p.to = get_selector_by_index(p.dest);
	if (!started) n_before++;
	if (growable && grown) n_after_grow++;
	(me == p.to ? n_self : n_cross)++;
	int kind = p.kind;
	// these pick a loop from the table
	if (started && growable && !grown && me == NULL && (kind == READY || kind == TIMER)) kind = NEXT;
	switch (kind) {
	case NEXT: sh_next(p.to, (KOPAQUE)(intptr_t)tag_data(id), on_post, &p, p.got); break;
	case READY: p.to = NULL; selector_manager_on_ready(on_ready_cb, &p); break;
	case TIMER: p.to = NULL; selector_manager_add_timer(on_ready_cb, &p, p.gap, NULL); p.t0 += p.gap + 300; break;
	case FIBER:
		if (me == p.to) p.to = me;
		CHECK(kfiber_create2(p.to, fiber_body, &p, p.got, 0, NULL) == 0, "kfiber_create2 failed");
		break;
	}
}
static void try_grow(int n, bool from_loop) {
	int before = get_selector_count(), want = pow2_below(n);
	bool ok = from_loop && before == 1 && want > 1 && started;
	in_grow = true;
	bool r = selector_manager_grow(n);
	in_grow = false;
	CHECK(r == ok, "growing from %d loops to %d %s returned %d", before, n, from_loop ? "on the first loop" : "elsewhere", (int)r);
	int c = get_selector_count();
	CHECK(c == (ok ? want : before), "growing from %d loops to %d left %d loops", before, n, c);
	CHECK(get_selector_by_index(0) == s0, "growing replaced the first loop");
	if (ok) {
		count_g = c;
		for (int i = 0; i < c; i++) {
			loops[i] = get_selector_by_index(i);
			for (int k = 0; k < i; k++) CHECK(loops[k] != loops[i], "loops %d and %d are the same after growing", k, i);
			CHECK(get_selector_by_index(i + c) == loops[i], "loop lookup does not wrap");
		}
		n_loops_max = c;
		start_ms = now_ms();
		grown = true;
	}
}
static void ran(Post &p) {
	int id = (int)(&p - &P[0]);
	CHECK(++p.runs == 1, "%s %d ran %d times", kn[p.kind], id, p.runs);
	CHECK(p.t0 >= 0, "%s %d ran before it was posted", kn[p.kind], id);
	kselector *me = kgl_get_tls_selector();
	CHECK(me, "%s %d ran outside the event loops", kn[p.kind], id);
	int h = index_of(me);
	if (in_grow) h = 0;
	// loops added by growth may be running before growth has returned
	CHECK(h >= 0 || (growable && !grown), "%s %d ran on an unknown loop", kn[p.kind], id);
	if (p.to) CHECK(me == p.to, "%s %d ran on loop %d, it was posted to %d", kn[p.kind], id, h, index_of(p.to));
	CHECK(kselector_is_same_thread(me), "%s %d ran on another thread than its loop's", kn[p.kind], id);
	if (h >= 0)
		for (InitCb &c : I)
			CHECK(c.runs[h] > c.exits[h] || in_grow, "%s %d ran on loop %d before its thread was initialised", kn[p.kind], id, h);
	int64_t due = p.t0, now = now_ms();
	if (!started) fail("%s %d ran before the loops were started", kn[p.kind], id);
	if (due < start_ms) due = start_ms;
	if (!step_mode) CHECK(now - due <= 2, "%s %d to loop %d ran %lld ms late", kn[p.kind], id, h, (long long)(now - due));
	left_g--;
	if (grow_at == id && growable) try_grow(grow_to, me == s0);
	for (int k : p.then)
		if (!p.then_fiber) do_post(k);
	if (p.then_fiber && !p.then.empty()) {
		Post *pp = &p;
		auto f = [pp]() -> int {
			for (int k : pp->then) {
				if (P[k].gap) kfiber_msleep(P[k].gap);
				do_post(k);
			}
			return 0;
		};
		CHECK(kfiber_create(kh::run_fiber_fn, new std::function<int()>(f), 0, 0, NULL) == 0, "kfiber_create failed");
	}
}
static kev_result on_post(KOPAQUE data, void *arg, int got) {
	Post &p = *(Post *)arg;
	CHECK(&p >= &P[0] && &p < &P[0] + P.size(), "a callback got a foreign argument");
	int id = (int)(&p - &P[0]);
	CHECK((int64_t)(intptr_t)data == tag_data(id), "post %d got another post's data", id);
	CHECK(got == p.got, "post %d got value %d, %d was posted", id, got, p.got);
	CHECK(kfiber_is_main(), "post %d did not run on the main fiber", id);
	ran(p);
	return kev_ok;
}
static kev_result on_ready_cb(KOPAQUE data, void *arg, int got) {
	Post &p = *(Post *)arg;
	CHECK(data == NULL && got == 0, "a ready callback got data %p value %d", data, got);
	CHECK(kfiber_is_main(), "a ready callback did not run on the main fiber");
	ran(p);
	return kev_ok;
}
static int fiber_body(void *arg, int got) {
	Post &p = *(Post *)arg;
	CHECK(got == p.got, "fiber got value %d, %d was given", got, p.got);
	CHECK(!kfiber_is_main(), "a fiber runs on the main fiber");
	ran(p);
	return 0;
}
static kev_result on_thread(KOPAQUE data, void *arg, int got) {
	InitCb &c = *(InitCb *)arg;
	kselector *s = kgl_get_tls_selector();
	CHECK(data == NULL && (got == 0 || got == 1), "a thread callback got data %p value %d", data, got);
	CHECK(s && kselector_is_same_thread(s), "a thread callback ran outside a loop's thread");
	int h = s->sid;
	CHECK(h >= 0 && h < 64, "a loop has number %d", h);
	if (!c.early) CHECK(kfiber_is_main(), "a thread callback did not run on the main fiber");
	(got ? c.exits : c.runs)[h]++;
	CHECK(c.runs[h] == phase_of[h] + 1 && c.exits[h] == phase_of[h] + (got ? 1 : 0), "the callback of loop %d ran %d times at start and %d times at exit, on its thread number %d", h, c.runs[h], c.exits[h], phase_of[h] + 1);
	return kev_ok;
}
static void step_loop(int i, int until) {
	kselector_step_init(i);
	while (left_g > until) {
		kselector_step(i);
		ds::yield();
	}
	kselector_step_exit(i);
	CHECK(kgl_get_tls_selector() == NULL, "a thread that left loop %d still has a loop", i);
	if (until) {
		phase_of[i]++;
		ds::spawn([i] { step_loop(i, 0); });
	} else
		exited++;
}
static void start_loops(int mode) {
	start_ms = now_ms();
	started = true;
	if (mode == 0)
		selector_manager_start(NULL, true);
	else if (mode == 1)
		ds::spawn([] { selector_manager_start(NULL, false); });
	else {
		for (int i = 0; i < count_g; i++)
			ds::spawn([i] { step_loop(i, again_at); });
	}
}
static void run() {
	ds::Config cfg = ds::draw_config(true);
	int mode = (int)weighted({6, 2, 3}); // threads, first loop on its caller, steps
	step_mode = mode == 2;
	late_ms = cfg.late_us / 1000;
	growable = !step_mode && chance(1, 3);
	int req = growable ? (int)pick(std::vector<int>{1, 0, -3}) : pick(std::vector<int>{1, 2, 2, 3, 4, 5, 7, 8, 9, 16, 0, -1, 31});
	if (!growable && chance(1, 40)) req = pick(std::vector<int>{64, 65, 127, 128, 1000, 32, 63});
	count_g = pow2_below(req);
	n_loops_max = count_g;
	grow_to = growable ? pick(std::vector<int>{2, 3, 4, 6, 8, 1, 0, 17}) : 0;
	int nposts = size_dist(1, thorough() ? 400 : 150);
	bool flood = chance(1, 25); // many posts queue up before the loops run
	if (flood) nposts = range(300, 1300);
	int ninit = range(0, 3), nthreads = range(1, 4), nlf = range(0, 3), nworkers = range(0, 2), npre = 0;
	bool fiber_only_simple = chance(1, 3);
	P.clear();
	I.assign(ninit, InitCb());
	P.resize(nposts);
	left_g = nposts;
	memset(phase_of, 0, sizeof phase_of);
	again_at = step_mode && chance(1, 2) ? (int)draw((uint32_t)nposts) : 0;
	exited = 0;
	rw_s = growable ? range(1, 4) : 0;
	struct Actor { int kind, loop; std::vector<int> ids; };
	std::vector<Actor> A;
	for (int i = 0; i < nthreads; i++) A.push_back({0, 0, {}});
	for (int i = 0; i < nlf; i++) A.push_back({1, range(0, count_g - 1), {}});
	for (int i = 0; i < nworkers; i++) A.push_back({2, 0, {}});
	std::vector<int> pre, mid;
	int burst = 0, hot = 0;
	for (int i = 0; i < nposts; i++) {
		Post &p = P[i];
		p.kind = fiber_only_simple ? NEXT : (int)weighted({8, 1, 1, 2});
		if (burst > 0) {
			burst--;
			p.dest = hot;
			p.gap = 0;
		} else {
			p.dest = range(0, 2 * count_g);
			if (chance(1, 5)) p.dest = (int)draw(100000);
			p.gap = weighted({5, 1}) ? (int)draw(400) : 0;
			if (chance(1, 8)) {
				burst = range(2, 40);
				hot = p.dest;
			}
		}
		if (flood) p.dest = p.dest % 2;
		p.got = pick(std::vector<int>{0, 1, -1, 7, INT32_MAX, INT32_MIN, 12345});
		p.then_fiber = chance(1, 4);
		switch (i == 0 ? 1 : weighted({1, flood ? 60u : 1u, 10, 6})) {
		case 0: pre.push_back(i); p.kind = chance(1, 2) ? READY : TIMER; break; // before the loops exist
		case 1: mid.push_back(i); break;                                        // before they run
		case 2: A[draw((uint32_t)A.size())].ids.push_back(i); break;
		default: P[draw((uint32_t)i)].then.push_back(i); break;
		}
		n_burst += burst > 0;
	}
	grow_at = growable ? (int)draw((uint32_t)nposts) : -1;
	bool bad_grow = growable && chance(1, 3);
	n_cross = n_self = n_before = n_after_grow = 0;
	started = grown = in_grow = false;
	(void)npre;
	logf("loops asked %d, mode %s%s, %d posts (%zu before creation, %zu before start), %d thread callbacks, %d threads, %d fibers, %d workers", req, mode == 0 ? "threads" : mode == 1 ? "caller" : "steps", growable ? (" growing to " + kh::ll(grow_to)).c_str() : "", nposts, pre.size(), mid.size(), ninit, nthreads, nlf, nworkers);
	for (int i = 0; i < nposts && i < 40; i++) {
		std::string t;
		for (int k : P[i].then) t += " " + kh::ll(k);
		logf(" %d: %s to %d value %d gap %d%s%s%s", i, kn[P[i].kind], P[i].dest, P[i].got, P[i].gap, t.empty() ? "" : P[i].then_fiber ? ", a fiber of it posts" : ", then", t.c_str(), i == grow_at ? ", grows" : "");
	}
	for (Actor &a : A) {
		std::string t;
		for (int k : a.ids) t += " " + kh::ll(k);
		logf(" %s%s posts:%s", a.kind == 0 ? "thread" : a.kind == 1 ? "fiber of loop " : "worker", a.kind == 1 ? kh::ll(a.loop).c_str() : "", t.c_str());
	}
	io::fake_aio = true;
	ds::start(cfg);
	int early = (int)draw((uint32_t)ninit + 1);
	auto add_init = [&](int k, bool e) {
		I[k].early = e;
		CHECK(selector_manager_thread_init(on_thread, &I[k]) == 0, "a thread callback was refused before the loops exist");
	};
	for (int k = 0; k < early; k++) add_init(k, true);
	if (growable && bad_grow) CHECK(!selector_manager_grow(4), "growing before anything exists succeeded");
	kasync_init();
	klog_init(kh::quiet_log);
	for (int k = early; k < ninit; k++) add_init(k, false);
	CHECK(!is_selector_manager_init(), "the loops exist before they are made");
	if (growable && bad_grow) CHECK(!selector_manager_grow(4), "growing before the loops exist succeeded");
	for (int id : pre) do_post(id);
	selector_manager_init(req, chance(1, 4));
	CHECK(is_selector_manager_init(), "the loops do not exist after they were made");
	if (rw_s) selector_manager_set_timeout(7, rw_s);
	CHECK(get_selector_count() == count_g, "%d loops asked, %d made, expected %d", req, get_selector_count(), count_g);
	for (int i = 0; i < count_g; i++) {
		loops[i] = get_selector_by_index(i);
		CHECK(loops[i] && loops[i]->sid == i, "loop %d has number %d", i, loops[i] ? loops[i]->sid : -9);
		CHECK(get_selector_by_index(i + count_g) == loops[i] && get_selector_by_index(i + 7 * count_g) == loops[i], "loop lookup does not wrap");
		for (int k = 0; k < i; k++) CHECK(loops[k] != loops[i], "loops %d and %d are the same", k, i);
	}
	s0 = loops[0];
	for (int i = 0; i < 2 * count_g + 3; i++) CHECK(index_of(get_perfect_selector()) >= 0, "get_perfect_selector gave no loop");
	static InitCb late;
	CHECK(selector_manager_thread_init(on_thread, &late) == -1, "a thread callback was accepted after the loops were made");
	if (bad_grow) try_grow(8, false);
	for (int id : mid) do_post(id);
	start_loops(mode);
	for (Actor &a : A) {
		Actor *pa = &a;
		if (a.kind == 0)
			ds::spawn([pa] {
				for (int id : pa->ids) {
					if (P[id].gap) ds::sleep_ms(P[id].gap);
					do_post(id);
				}
			});
		else if (a.kind == 1)
			CHECK(kfiber_create2(loops[a.loop], kh::run_fiber_fn, new std::function<int()>([pa]() -> int {
				for (int id : pa->ids) {
					if (P[id].gap) kfiber_msleep(P[id].gap);
					do_post(id);
				}
				return 0;
			}), 0, 0, NULL) == 0, "kfiber_create2 failed");
		else
			CHECK(kthread_pool_start([](void *arg) -> void * {
				Actor *pa = (Actor *)arg;
				for (int id : pa->ids) {
					if (P[id].gap) ds::sleep_ms(P[id].gap);
					do_post(id);
				}
				return NULL;
			}, pa), "kthread_pool_start failed");
	}
	if (!ds::run_until([] { return left_g <= 0; }, 400ll * 400 + 60000)) {
		for (int i = 0; i < nposts; i++)
			if (!P[i].runs && P[i].t0 >= 0) fail("%s %d to loop %d (dest %d) was posted and did not run\n%s", kn[P[i].kind], i, P[i].to ? index_of(P[i].to) : -1, P[i].dest, ds::dump().c_str());
		fail("posting stalled\n%s", ds::dump().c_str());
	}
	int64_t extra = now_ms() + 700;
	ds::run_until([extra] { return now_ms() >= extra; }, 3000);
	if (bad_grow) try_grow(8, false);
	if (step_mode && !ds::run_until([] { return exited == count_g; }, 5000)) fail("the stepped loops did not end\n%s", ds::dump().c_str());
	if (grown) { // added loops have the configured time-outs
		static int fd[2], ended;
		net::pair(fd, false, 0);
		int l = range(0, count_g - 1);
		static int64_t t0, t1;
		t0 = t1 = -1;
		kh::fiber(l, [l]() -> int {
			kconnection *c = net::conn(fd[0], l);
			char b[8];
			t0 = now_ms();
			int r = sh_net_read(c, b, 8);
			t1 = now_ms();
			CHECK(r <= 0, "a read of nothing gave %d bytes", r);
			kconnection_destroy(c);
			return 0;
		});
		(void)ended;
		ds::run_until([] { return t1 >= 0; }, rw_s * 1000 + 1500 + late_ms * 10);
		CHECK(t1 >= 0 && t1 - t0 >= rw_s * 1000 - 115 - late_ms * 3, "a read on loop %d of %d with a time-out of %d s ended after %lld ms", l, count_g, rw_s, (long long)(t1 < 0 ? -1 : t1 - t0));
	}
	for (int i = 0; i < nposts; i++) CHECK(P[i].runs == 1, "%s %d ran %d times", kn[P[i].kind], i, P[i].runs);
	for (int k = 0; k < ninit; k++)
		for (int i = 0; i < 64; i++) {
			int want = i < count_g ? 1 + phase_of[i] : 0;
			CHECK(I[k].runs[i] == want, "thread callback %d ran %d times on loop %d of %d", k, I[k].runs[i], i, count_g);
			CHECK(I[k].exits[i] == (step_mode ? want : 0), "thread callback %d was told %d times of the end of loop %d", k, I[k].exits[i], i);
		}
	count("posts", nposts);
	count("posts across threads", n_cross);
	count("posts to the own loop", n_self);
	count("posts before start", n_before);
	count("posts after growth", n_after_grow);
	count("posts in bursts", n_burst);
	if (growable && grown) count("growths");
	if (step_mode) count("stepped loops", count_g);
	for (int i = 0; i < count_g; i++) count("loops continued on another thread", phase_of[i]);
	count("loops", count_g);
	if (nposts >= 5 && n_cross >= 3 && ds::switches() >= 10) nontrivial();
}
Property pbt::property = {
	"C09",
	"random trees of posts (plain posts, ready callbacks, manager timers, fibers) from threads, fibers, pool workers and callbacks, before creation, before start, while running and around growth, over random loop counts and ways of running loops; "
	"non-trivial: at least 5 posts, 3 of them across threads, and 10 context switches",
	run, 1, 60000, 1000000, 30, 450, 200,
	{"other threads do not use the loop table while it grows (they post to loops they know)", "loop counts are clamped to 1..64"},
};
