// kv: variant=fast:0.65,std:0.35
// kasync_main repeated on several threads, and calls handed to threads.
#include "net.h"
#include "shim.h"
#include <malloc.h>
#include <sys/syscall.h>
using namespace pbt;

enum { SLEEP, CHILD, CALL, PAIR, CROSS, TICK, POST, NK };
static const char *kn[] = {"sleep", "fiber", "thread call", "socket pair", "fiber on another loop", "wait for a tick", "post"};
struct Op {
	int kind, ms, ret, argc, prog, key, size, when;
	bool null_ret, late_join, fails;
	int runs = 0, ended = 0;
};
struct Prog { std::vector<int> ops; int ret, depth; bool main; int runs = 0, ended = 0; };
static std::vector<Op> O;
static std::vector<Prog> R;
struct Runner { std::vector<int> mains; };
static std::vector<Runner> T;
static int nsel_g, late_ms, active_mains, max_calls, calls_now, n_calls, n_fail, n_main, n_nested, runners_left, aio_live, aio_made, n_init, n_exit, n_served, base_fds;
static bool alone;
static int64_t now_ms() { return ds::mono_us() / 1000; }
static int make_prog(int depth, bool main, int budget);
static int make_op(int depth, int budget) {
	Op o = Op();
	o.kind = (int)weighted({4, depth < 3 ? 4u : 0u, 4, 2, nsel_g ? 3u : 0u, 1, 2});
	o.ms = weighted({3, 1}) ? range(0, 1500) : range(0, 5000);
	o.ret = pick(std::vector<int>{0, 1, -1, 42, INT32_MAX, INT32_MIN, 1000});
	o.argc = pick(std::vector<int>{0, 1, -1, 77, INT32_MIN});
	o.null_ret = chance(1, 5);
	o.late_join = chance(3, 4);
	o.fails = o.kind == CALL && chance(1, 12);
	o.key = (int)draw(1000);
	o.size = size_dist(1, 3000);
	o.when = range(1, 4);
	o.prog = -1;
	if (o.kind == CHILD || o.kind == CROSS) o.prog = make_prog(depth + 1, false, budget / 2);
	if (o.kind == CALL && depth < 2 && !o.fails && chance(1, 5)) o.prog = make_prog(depth + 2, true, budget / 2);
	O.push_back(o);
	return (int)O.size() - 1;
}
static int make_prog(int depth, bool main, int budget) {
	Prog p = Prog();
	p.depth = depth;
	p.main = main;
	p.ret = pick(std::vector<int>{0, 1, -1, 42, INT32_MAX, INT32_MIN, 1000});
	int n = size_dist(0, budget < 1 ? 1 : budget);
	for (int i = 0; i < n; i++) p.ops.push_back(make_op(depth, budget - n));
	R.push_back(p);
	return (int)R.size() - 1;
}
static void log_prog(int id, int ind) {
	Prog &p = R[id];
	std::string pad(ind * 2, ' ');
	for (int i : p.ops) {
		Op &o = O[i];
		logf("%s%d: %s %d ms, result %d%s%s%s", pad.c_str(), i, kn[o.kind], o.ms, o.ret, o.null_ret ? " unused" : "", o.fails ? ", no thread" : "", o.kind == CHILD && o.late_join ? ", joined at the end" : "");
		if (o.prog >= 0) {
			logf("%s  %s program %d returning %d", pad.c_str(), R[o.prog].main ? "main" : "fiber", o.prog, R[o.prog].ret);
			log_prog(o.prog, ind + 2);
		}
	}
}
static int run_main(int id);
static int prog_body(void *arg, int argc);
struct Call { Op *o; kselector *s; };
static int call_body(void *arg, int argc) {
	Call *c = (Call *)arg;
	Op *o = c->o;
	CHECK(++o->runs == 1, "a thread call ran %d times", o->runs);
	CHECK(argc == o->argc, "a thread call got %d, %d was passed", argc, o->argc);
	CHECK(!kselector_is_same_thread(c->s), "a thread call ran on its loop's thread");
	CHECK(kgl_get_tls_selector() == NULL, "a thread call ran on a loop's thread");
	if (o->ms) ds::sleep_ms(o->ms);
	if (o->prog >= 0) {
		n_nested++;
		run_main(o->prog);
	}
	o->ended++;
	return o->ret;
}
struct TickWait { kselector_tick *t; kfiber_cond *c; Op *o; int n; };
static int on_tick(void *arg, int) {
	TickWait *w = (TickWait *)arg;
	if (++w->n == w->o->when) w->c->f->notice(w->c, w->o->key);
	return 10;
}
static kev_result on_post(KOPAQUE data, void *arg, int got) {
	Op *o = (Op *)data;
	CHECK(++o->runs == 1 && got == o->argc, "a post ran %d times with %d, posted %d", o->runs, got, o->argc);
	kfiber_cond *c = (kfiber_cond *)arg;
	c->f->notice(c, o->ret);
	return kev_ok;
}
static void do_op(int i, std::vector<std::pair<kfiber *, int>> &later) {
	Op *o = &O[i];
	kselector *me = kgl_get_tls_selector();
	pthread_t self = pthread_self();
	kfiber *fb = kfiber_self2();
	int64_t t0 = now_ms();
	switch (o->kind) {
	case SLEEP: {
		o->runs++;
		int calls = calls_now;
		kfiber_msleep(o->ms);
		int64_t took = now_ms() - t0;
		CHECK(took >= o->ms - 102 - 3 * late_ms, "a sleep of %d ms took %lld ms", o->ms, (long long)took);
		CHECK(took <= o->ms + 220 + 8 * late_ms, "a sleep of %d ms took %lld ms (%d thread calls under way)", o->ms, (long long)took, calls);
		n_served += calls > 0 && calls_now > 0;
		break;
	}
	case CHILD: {
		kfiber *h = NULL;
		CHECK(kfiber_create(prog_body, &R[o->prog], 5, 0, &h) == 0, "kfiber_create failed");
		if (o->late_join) {
			later.push_back({h, i});
			return;
		}
		int rv = -7;
		CHECK(kfiber_join(h, &rv) == 0, "join failed");
		CHECK(rv == R[o->prog].ret && R[o->prog].ended == 1, "join of program %d gave %d, it returns %d", o->prog, rv, R[o->prog].ret);
		break;
	}
	case CROSS: {
		kfiber *h = NULL;
		CHECK(kfiber_create2(get_selector_by_index(o->key), prog_body, &R[o->prog], 5, 0, &h) == 0, "kfiber_create2 failed");
		int rv = -7;
		CHECK(kfiber_join(h, &rv) == 0, "join failed");
		CHECK(rv == R[o->prog].ret && R[o->prog].ended == 1, "join of program %d gave %d, it returns %d", o->prog, rv, R[o->prog].ret);
		break;
	}
	case CALL: {
		Call c = {o, me};
		int rv = -12345;
		int f0 = ds::create_failures();
		if (o->fails) ds::fail_thread_create(1);
		calls_now++;
		if (calls_now > max_calls) max_calls = calls_now;
		int r = kfiber_thread_call(call_body, &c, o->argc, o->null_ret ? NULL : &rv);
		calls_now--;
		// an idle thread of the pool may have been there
		if (o->fails && ds::create_failures() == f0) ds::fail_thread_create(0);
		if (r != 0) {
			CHECK(ds::create_failures() > n_fail, "a thread call failed"); // another call may have got the failure
			CHECK(r == -1 && o->runs == 0, "a thread call that failed returned %d and ran %d times", r, o->runs);
			n_fail++;
			o->runs = 1;
		} else {
			CHECK(o->runs == 1 && o->ended == 1, "a thread call returned before its function ended");
			if (!o->null_ret) CHECK(rv == o->ret, "a thread call gave %d, its function returned %d", rv, o->ret);
			n_calls++;
		}
		break;
	}
	case PAIR: {
		o->runs++;
		int fd[2];
		net::pair(fd, false, 0);
		kconnection *a = kconnection_new(NULL), *b = kconnection_new(NULL);
		a->st.fd = fd[0];
		b->st.fd = fd[1];
		selectable_bind(&a->st, me);
		selectable_bind(&b->st, me);
		kfiber *h = NULL;
		CHECK(kfiber_create(kh::run_fiber_fn, new std::function<int()>([b, o]() -> int {
			std::vector<char> buf(o->size);
			net::fill(buf.data(), o->key, 0, o->size);
			if (o->ms % 3) kfiber_msleep(o->ms % 400);
			int len = o->size;
			bool ok = sh_net_write_full(b, buf.data(), &len);
			CHECK(ok, "a write of %d bytes failed", o->size);
			return o->ret;
		}), 0, 0, &h) == 0, "kfiber_create failed");
		std::vector<char> buf(o->size);
		int len = o->size;
		bool ok = sh_net_read_full(a, buf.data(), &len);
		CHECK(ok, "a read of %d bytes failed", o->size);
		CHECK(net::mismatch(buf.data(), o->key, 0, o->size) < 0, "wrong bytes");
		int rv = -7;
		CHECK(kfiber_join(h, &rv) == 0 && rv == o->ret, "join gave %d", rv);
		kconnection_destroy(a);
		kconnection_destroy(b);
		break;
	}
	case TICK: {
		o->runs++;
		TickWait w = {NULL, kfiber_cond_init(true), o, 0};
		w.t = kselector_new_tick(on_tick, &w);
		CHECK(kselector_register_tick(w.t), "register_tick failed");
		int got = -7;
		CHECK(w.c->f->wait(w.c, &got) == 0 && got == o->key, "the wait gave %d", got);
		w.c->f->release(w.c);
		CHECK(kselector_close_tick(w.t), "close_tick failed");
		break;
	}
	case POST: {
		kfiber_cond *c = kfiber_cond_init(true);
		sh_next(me, (KOPAQUE)o, on_post, c, o->argc);
		int got = -7;
		CHECK(c->f->wait(c, &got) == 0 && got == o->ret, "the wait gave %d", got);
		c->f->release(c);
		break;
	}
	}
	CHECK(kgl_get_tls_selector() == me && pthread_equal(pthread_self(), self), "%s %d ended on another loop or thread", kn[o->kind], i);
	CHECK(kfiber_self2() == fb, "%s %d ended on another fiber", kn[o->kind], i);
}
static int prog_body(void *arg, int argc) {
	Prog *p = (Prog *)arg;
	CHECK(argc == (p->main ? p->ret : 5), "a fiber got %d", argc);
	CHECK(++p->runs == 1, "a program ran %d times", p->runs);
	CHECK(kgl_get_tls_selector() != NULL && !kfiber_is_main(), "a program does not run on a fiber of a loop");
	std::vector<std::pair<kfiber *, int>> later;
	for (int i : p->ops) do_op(i, later);
	for (auto &l : later) {
		int rv = -7;
		Prog &c = R[O[l.second].prog];
		CHECK(kfiber_join(l.first, &rv) == 0 && rv == c.ret && c.ended == 1, "join gave %d, the fiber returns %d", rv, c.ret);
	}
	p->ended++;
	return p->ret;
}
static int run_main(int id) {
	Prog *p = &R[id];
	active_mains++;
	if (active_mains > 1) alone = false;
	bool solo = active_mains == 1;
	if (solo) alone = true;
	int fds0 = solo ? io::open_fds() : 0;
	int fibers0 = solo ? kfiber_get_count() : 0;
	int aio0 = aio_live;
	int r = kasync_main(prog_body, p, p->ret);
	CHECK(r == p->ret, "main %d returned %d, its fiber %d", id, r, p->ret);
	CHECK(p->runs == 1 && p->ended == 1, "main %d returned before its fiber did", id);
	CHECK(kgl_get_tls_selector() == NULL, "the thread still has a loop after main returned");
	if (solo && alone) {
		// a nested main inside a thread call is itself over by now
		CHECK(io::open_fds() <= fds0, "main %d left %d descriptors open", id, io::open_fds() - fds0);
		CHECK(aio_live == aio0, "main %d left %d AIO contexts", id, aio_live - aio0);
		if (!nsel_g) CHECK(kfiber_get_count() == fibers0, "main %d left %d fibers", id, kfiber_get_count() - fibers0);
	}
	active_mains--;
	n_main++;
	return r;
}
static kev_result on_thread(KOPAQUE, void *, int got) {
	CHECK(kgl_get_tls_selector() != NULL && kfiber_is_main(), "a thread callback ran outside a loop");
	(got ? n_exit : n_init)++;
	return kev_ok;
}
static int nothing(void *, int) { return 3; }
static void run() {
	ds::Config cfg = ds::draw_config(true);
	late_ms = cfg.late_us / 1000;
	nsel_g = chance(1, 3) ? 1 << range(0, 1) : 0;
	int nrun = range(1, 3);
	bool same_thread_only = chance(1, 3);
	if (same_thread_only) nrun = 1;
	O.clear();
	R.clear();
	O.reserve(4000);
	R.reserve(4000);
	T.assign(nrun, Runner());
	int budget = thorough() ? range(1, 24) : range(1, 14);
	for (Runner &t : T) {
		int n = range(1, same_thread_only ? 6 : 4);
		for (int i = 0; i < n; i++) t.mains.push_back(make_prog(0, true, budget / nrun));
	}
	bool mem = chance(1, 6);
	active_mains = max_calls = calls_now = n_calls = n_fail = n_main = n_nested = aio_live = aio_made = n_init = n_exit = n_served = 0;
	for (int t = 0; t < nrun; t++) {
		logf("thread %d", t);
		for (int m : T[t].mains) {
			logf(" main %d returning %d", m, R[m].ret);
			log_prog(m, 2);
		}
	}
	io::fake_aio = false;
	io::syscall_hook = [](long n, long a, long b, long c, long d, long e, long f) -> long {
		if (n == SYS_io_setup) {
			aio_live++;
			*(unsigned long *)b = 0x1000 + ++aio_made;
			return 0;
		}
		if (n == SYS_io_destroy) {
			aio_live--;
			return 0;
		}
		return io::real_syscall(n, a, b, c, d, e, f);
	};
	ds::start(cfg);
	kasync_init();
	klog_init(kh::quiet_log);
	selector_manager_thread_init(on_thread, NULL);
	if (nsel_g) {
		selector_manager_init(nsel_g, false);
		selector_manager_start(NULL, true);
		ds::run_until([] { return n_init == nsel_g; }, 1000);
	}
	base_fds = io::open_fds();
	runners_left = nrun;
	for (Runner &t : T) {
		Runner *r = &t;
		ds::spawn([r, mem] {
			for (int m : r->mains) run_main(m);
			runners_left--;
			(void)mem;
		});
	}
	if (!ds::run_until([] { return runners_left == 0; }, 3600 * 1000)) fail("a main did not return\n%s", ds::dump().c_str());
	ds::run_until([] { return kfiber_get_count() == 0; }, 1000);
	CHECK(kfiber_get_count() == 0, "%d fibers are left", kfiber_get_count());
	CHECK(io::open_fds() <= base_fds, "%d descriptors are left", io::open_fds() - base_fds);
	CHECK(aio_live == nsel_g, "%d AIO contexts are left", aio_live - nsel_g);
	CHECK(n_init == n_main + nsel_g && n_exit == n_main, "%d mains: %d thread starts and %d thread ends were told", n_main, n_init - nsel_g, n_exit);
	// threads that ended a call may be reused: nothing but idle threads of the pool is left
	int work = -1, idle = -1, lt = ds::live_threads();
	for (int i = 0; i < 20; i++) {
		kthread_get_count(&work, &idle);
		if (work == nsel_g) break;
		ds::sleep_ms(50);
	}
	lt = ds::live_threads();
	CHECK(work == nsel_g, "%d pool threads are at work after everything ended", work - nsel_g);
	CHECK(lt == 1 + nsel_g + idle, "%d threads are left, %d of them in the pool", lt - 1 - nsel_g, idle);
	CHECK(idle <= n_calls, "%d idle threads after %d thread calls", idle, n_calls);
	for (Prog &p : R)
		if (p.runs)
			for (int i : p.ops)
				if (O[i].kind != CHILD && O[i].kind != CROSS) CHECK(O[i].runs == 1, "%s %d ran %d times", kn[O[i].kind], i, O[i].runs);
	if (mem) { // memory of repeated mains
		static bool done;
		static size_t use[6];
		done = false;
		ds::spawn([] {
			for (int i = 0; i < 6; i++) {
				CHECK(kasync_main(nothing, NULL, 0) == 3, "main returned another value");
				use[i] = mallinfo2().uordblks;
			}
			done = true;
		});
		if (!ds::run_until([] { return done; }, 60000)) fail("a main did not return\n%s", ds::dump().c_str());
		CHECK(use[5] <= use[2] || use[3] <= use[2] || use[4] <= use[3] || use[5] <= use[4], "every repetition keeps memory: %zu %zu %zu %zu bytes in use", use[2], use[3], use[4], use[5]);
		count("memory watched");
	}
	count("mains", n_main);
	count("thread calls", n_calls);
	count("thread calls that got no thread", n_fail);
	count("mains inside thread calls", n_nested);
	count("sleeps during thread calls", n_served);
	for (Op &o : O) count(kn[o.kind]);
	if (n_main >= 2 && (int)O.size() >= 3 && n_calls >= 1) nontrivial();
}
Property pbt::property = {
	"C26",
	"random programs of sleeps, fibers, thread calls (some holding a whole nested main), sockets, ticks and posts, run as repeated mains on 1-3 threads with or without other loops; "
	"non-trivial: at least 2 mains, 3 operations and 1 thread call",
	run, 1, 60000, 1000000, 35, 450, 200,
	{"a main waits for everything it starts", "virtual time", "AIO contexts are counted, not made"},
};
