// kv: variant=fast:0.6,std:0.4
// Fiber lifecycle: bodies run once on the right loop; joins, callback joins,
// exit callbacks and self references each observe the end exactly once.
#include "kh.h"
#include "shim.h"
using namespace pbt;

enum { SAME, ON_SEL, NEW_START, SYNC };                  // how the fiber is created
enum { DETACH, JOIN, TRYJOIN, JOIN2, HELPER, THREAD };   // what happens to its handle
struct SelfRef { int sel, delay, kind; };
struct Node {
	int parent, kind, sel, stk, len, ret, pre, post, jmode, jsel, jdelay;
	bool ts, ref_first, late_join;
	int nexit;
	std::vector<SelfRef> refs;
	std::vector<int> children;
	// run time
	int runs = 0, waits = 0, released = 0;
	bool started = false, finished = false;
	kfiber *h = nullptr;
};
static std::vector<Node> N;
static int pending, n_join_before, n_join_after, n_cb, n_threads;
static int nsel_g;

static kselector *sel(int i) { return get_selector_by_index(i); }
static int sel_index(kselector *s) {
	for (int i = 0; i < nsel_g; i++)
		if (get_selector_by_index(i) == s) return i;
	return -1;
}
static void released(Node *n, const char *how, bool has, int v) {
	CHECK(n->finished, "%s of fiber %d returned before its function did", how, (int)(n - &N[0]));
	if (has) CHECK(v == n->ret, "%s of fiber %d gave %d, its function returned %d", how, (int)(n - &N[0]), v, n->ret);
	n->released++;
	CHECK(n->released <= n->waits, "fiber %d released more waiters than there are", (int)(n - &N[0]));
	pending--;
}
static void expect_wait(Node *n) {
	n->waits++;
	pending++;
	(n->finished ? n_join_after : n_join_before)++;
}
static kev_result on_exit_cb(KOPAQUE data, void *arg, int got) {
	Node *n = (Node *)arg;
	CHECK(data == (KOPAQUE)n, "callback got another fiber's data");
	CHECK(kfiber_is_main(), "exit callback did not run on a main fiber");
	n_cb++;
	released(n, "notification", true, got);
	return kev_ok;
}
static kev_result on_join2(KOPAQUE data, void *arg, int got) { return on_exit_cb(data, arg, got); }
static void do_join(Node *n, kfiber *h, int mode, int delay, bool null_ret = false) {
	// called on a fiber (or a plain thread when the node is SYNC)
	bool thr = kgl_get_tls_selector() == NULL;
	int rv = -777;
	if (mode == TRYJOIN) {
		if (delay) { if (thr) ds::sleep_ms(delay); else kfiber_msleep(delay); }
		for (;;) {
			bool fin = n->finished;
			int r = kfiber_try_join(h, &rv);
			if (r == 0) break;
			(void)fin;
			CHECK(r == -1, "try-join returned %d", r);
			if (thr) ds::sleep_ms(50); else kfiber_msleep(50);
		}
	} else {
		int r = kfiber_join(h, null_ret ? NULL : &rv);
		CHECK(r == 0, "join returned %d", r);
	}
	released(n, mode == TRYJOIN ? "try-join" : "join", !null_ret, rv);
}
static void take_handle(Node *n, int mode, int my_sel) {
	// the handle's owner passes it on as drawn
	kfiber *h = n->h;
	int js = n->kind == ON_SEL ? n->jsel : my_sel;
	int delay = n->jdelay;
	expect_wait(n);
	switch (mode) {
	case JOIN2:
		kh::post(js, [n, h, delay, js] {
			if (!delay) {
				kfiber_join2(h, n, on_join2, n);
				return;
			}
			struct P { Node *n; kfiber *h; };
			kselector_add_timer(sel(js), [](KOPAQUE, void *a, int) {
				P *p = (P *)a;
				kfiber_join2(p->h, p->n, on_join2, p->n);
				delete p;
				return kev_ok;
			}, new P{n, h}, delay, NULL);
		});
		break;
	case HELPER:
		kh::fiber(js, [n, h, delay] {
			if (delay) kfiber_msleep(delay);
			do_join(n, h, delay & 1 ? TRYJOIN : JOIN, 0);
			return 0;
		});
		break;
	}
}
static int body(void *arg, int len);
static void create(int i, int my_sel) {
	Node *n = &N[i];
	n->started = true;
	pending++;
	kfiber **ph = n->jmode == DETACH ? NULL : &n->h;
	int r = 0;
	if (n->kind == SAME || n->kind == NEW_START) n->sel = my_sel;
	if (n->kind == NEW_START) {
		n->h = kfiber_new(body, n, n->stk);
		CHECK(n->h, "kfiber_new failed");
		CHECK(n->runs == 0, "a paused fiber ran before it was started");
		r = kfiber_start(n->h, n->len);
	} else if (n->kind == SAME)
		r = kfiber_create(body, n, n->len, n->stk, ph);
	else if (n->kind == ON_SEL)
		r = kfiber_create2(sel(n->sel), body, n, n->len, n->stk, ph);
	else
		r = kfiber_create_sync(body, n, n->len, n->stk, ph);
	CHECK(r == 0, "creation returned %d", r);
	if (my_sel >= 0 && n->kind != SYNC && n->sel == my_sel) CHECK(n->runs == 1, "a fiber created on the current loop did not start");
}
static void settle(int i, int my_sel) { // join child i
	Node *n = &N[i];
	if (n->jmode == JOIN || n->jmode == TRYJOIN) {
		expect_wait(n);
		do_join(n, n->h, n->jmode, n->jdelay, n->late_join && n->jmode == JOIN);
	} else if (n->jmode == JOIN2 || n->jmode == HELPER)
		take_handle(n, n->jmode, my_sel);
}
static int body(void *arg, int len) {
	Node *n = (Node *)arg;
	int i = (int)(n - &N[0]);
	CHECK(++n->runs == 1, "fiber %d ran %d times", i, n->runs);
	CHECK(len == n->len, "fiber %d got length %d, expected %d", i, len, n->len);
	int s = sel_index(kgl_get_tls_selector());
	CHECK(s >= 0, "fiber runs outside the event loops");
	if (n->kind != SYNC) CHECK(s == n->sel, "fiber %d runs on loop %d, expected %d", i, s, n->sel);
	CHECK(!kfiber_is_main() && kfiber_self2() != NULL, "fiber has no identity");
	kfiber *me = kfiber_self2();
	if (n->pre) kfiber_msleep(n->pre);
	auto reg_exit = [&] {
		for (int k = 0; k < n->nexit; k++) {
			expect_wait(n);
			kfiber_exit_callback(n, on_exit_cb, n);
		}
	};
	auto reg_refs = [&] {
		for (auto &r : n->refs) {
			kfiber *h = kfiber_ref_self(n->ts);
			CHECK(h == me, "ref_self returned another fiber");
			int js = n->ts ? r.sel : s, delay = r.delay, kind = r.kind;
			expect_wait(n);
			if (kind == JOIN2)
				kh::post(js, [n, h] { kfiber_join2(h, n, on_join2, n); });
			else if (n->kind == SYNC && n->jmode != DETACH) {
				n_threads++;
				ds::spawn([n, h, delay, kind] {
					if (delay) ds::sleep_ms(delay);
					do_join(n, h, kind, 0);
				});
			}
			else
				kh::fiber(js, [n, h, delay, kind] {
					if (delay) kfiber_msleep(delay);
					do_join(n, h, kind, 0);
					return 0;
				});
		}
	};
	if (n->ref_first) reg_refs(), reg_exit();
	else reg_exit(), reg_refs();
	for (int c : n->children) {
		create(c, s);
		if (!N[c].late_join) settle(c, s);
	}
	for (int c : n->children)
		if (N[c].late_join) settle(c, s);
	if (n->post) kfiber_msleep(n->post);
	CHECK(kfiber_self2() == me && sel_index(kgl_get_tls_selector()) == s, "fiber %d moved", i);
	CHECK(kfiber_get_count() >= 1, "live count %d while a fiber runs", kfiber_get_count());
	n->finished = true;
	pending--;
	return n->ret;
}

static void run() {
	int nsel = 1 << weighted({3, 3, 1});
	nsel_g = nsel;
	ds::Config c = ds::draw_config(true);
	// a few fibers without sleeps, under frequent switches: every way two loops can meet on one fiber
	bool tiny = nsel > 1 && chance(1, 3);
	if (tiny) ds::dense(c);
	int n = tiny ? range(1, 3) : range(1, 9);
	logf("selectors=%d mode=%d%s", nsel, c.mode, tiny ? " tiny" : "");
	static const char *kn[] = {"same", "on", "new", "sync"}, *jn[] = {"detach", "join", "tryjoin", "join2", "helper", "thread"};
	N.resize(n);
	bool has_sync = false, multi = false;
	for (int i = 0; i < n; i++) {
		Node &x = N[i];
		x.parent = i && chance(3, 4) ? range(0, i - 1) : -1;
		x.kind = x.parent < 0 ? (int)weighted({2, 3, 1, 2}) : (int)weighted({3, 3, 1});
		x.sel = range(0, nsel - 1);
		x.stk = (int)weighted({4, 1, 1, 1}) ;
		x.stk = x.stk == 0 ? 0 : x.stk == 1 ? range(1, 4095) : x.stk == 2 ? 4096 * range(4, 64) : 65536;
		x.len = (int)draw64();
		x.ret = (int)draw64();
		x.pre = !tiny && chance(1, 3) ? range(0, 250) : 0;
		x.post = !tiny && chance(1, 3) ? range(0, 250) : 0;
		x.late_join = chance(1, 3);
		x.jdelay = tiny ? range(0, 1) : chance(1, 3) ? range(1, 300) : 0;
		x.jsel = range(0, nsel - 1);
		if (x.kind == SYNC) x.jmode = (int)weighted({1, 3, 2}), has_sync = true;
		else if (x.parent < 0) x.jmode = x.kind == NEW_START ? (chance(1, 2) ? HELPER : JOIN2) : (int)weighted({2, 0, 0, 2, 2});
		else x.jmode = x.kind == NEW_START ? 1 + (int)weighted({2, 1, 1, 1}) : (int)weighted({2, 3, 2, 2, 2});
		x.ts = x.jmode == DETACH ? chance(1, 2) : x.kind == ON_SEL || x.kind == SYNC;
		x.ref_first = chance(1, 2);
		x.nexit = 0;
		{
			x.nexit = (int)weighted({3, 2, 1});
			int nr = (int)weighted({4, 2, 1});
			for (int k = 0; k < nr; k++) {
				SelfRef r;
				r.sel = range(0, nsel - 1);
				r.delay = !tiny && chance(1, 3) ? range(1, 300) : 0;
				r.kind = 1 + (int)weighted({2, 1, 1});
				x.refs.push_back(r);
			}
		}
		if (x.parent >= 0) N[x.parent].children.push_back(i);
		if (x.nexit + (int)x.refs.size() + (x.jmode != DETACH) > 1) multi = true;
		logf(" fiber %d: parent=%d %s sel=%d stk=%d %s%s jsel=%d jdelay=%d sleep=%d/%d exit-cbs=%d refs=%d%s%s", i, x.parent, kn[x.kind], x.sel, x.stk, jn[x.jmode], x.late_join ? "(late)" : "", x.jsel, x.jdelay, x.pre, x.post, x.nexit, (int)x.refs.size(), x.ts ? " ts" : "", x.ref_first ? " refs-first" : "");
	}
	kh::boot(nsel, c);
	for (int i = 0; i < n; i++) {
		Node &x = N[i];
		if (x.parent >= 0) continue;
		pending++;
		if (x.kind == SYNC || (x.kind == ON_SEL && x.jdelay % 2)) {
			n_threads++;
			ds::spawn([i] {
				Node &x = N[i];
				create(i, -1);
				if (x.kind == SYNC) {
					if (x.jmode != DETACH) {
						if (x.jdelay) ds::sleep_ms(x.jdelay);
						expect_wait(&x);
						do_join(&x, x.h, x.jmode, 0);
					}
				} else
					settle(i, -1);
				pending--;
			});
		} else {
			int s = x.kind == ON_SEL ? x.jsel : x.sel;
			kh::post(s, [i, s] {
				create(i, s);
				settle(i, s);
				pending--;
			});
		}
	}
	bool q = ds::run_until([] { return pending == 0; }, 300000);
	if (!q) {
		std::string s;
		for (int i = 0; i < n; i++)
			s += " fiber " + kh::ll(i) + ": started " + kh::ll(N[i].started) + " ran " + kh::ll(N[i].runs) + " finished " + kh::ll(N[i].finished) + " released " + kh::ll(N[i].released) + "/" + kh::ll(N[i].waits);
		fail("%d events missing:%s", pending, s.c_str());
	}
	ds::run_until([] { return kfiber_get_count() == 0; }, 5000);
	CHECK(pending == 0, "extra events: %d", pending);
	for (int i = 0; i < n; i++)
		CHECK(N[i].runs == 1 && N[i].finished && N[i].released == N[i].waits, "fiber %d: ran %d, released %d of %d", i, N[i].runs, N[i].released, N[i].waits);
	CHECK(kfiber_get_count() == 0, "%d fibers left after all ended and all handles were joined", kfiber_get_count());
	if (n_join_before) count("case with a wait begun before the fiber ended");
	if (n_join_after) count("case with a wait begun after the fiber ended");
	if (n_cb) count("case with callbacks");
	if (multi) count("case with several waiters on one fiber");
	if (has_sync) count("case with a plain thread joining");
	if (nsel > 1) count("case with several loops");
	if (n > 1 && (n_join_before || n_join_after)) nontrivial();
}

Property pbt::property = {
	"C01",
	"A case draws 1-9 fibers in a forest (creation kind, loop, stack size, sleeps, exit callbacks, self references, join mode) on 1-4 loops; non-trivial = at least two fibers and at least one join/notification.",
	run, 1, 300000, 4000000, 45, 600, 800,
	{"a handle whose fiber was created on the current loop is joined on that loop only", "a fiber created with a plain-thread handle is joined by plain threads or by callbacks", "virtual clock"}};
