// kv: variant=fast:0.6,std:0.4
// Fiber condition: auto-reset notices are counted and release one wait each,
// manual-reset notices release every wait; thread-safe and thread-sync kinds.
#include "kh.h"
#include "shim.h"
using namespace pbt;

enum { NOTICE, WAIT, TRY, CALLBACK, SLEEP };
struct Op { int kind, arg; };
static kfiber_cond *cd;
static bool single, autoreset;
static int notices_begun, notices_done, waits_begun, waits_done, tries_ok, cbs_begun, cbs_done, done_prog, blocked_seen, next_got = 1000;
static std::set<int> delivered; // auto-reset: values handed to blocked waiters
static long model_ev, model_waiting; // exact on a single selector

static void do_notice() {
	int got = next_got++;
	notices_begun++;
	if (autoreset) {
		if (model_waiting > 0) model_waiting--;
		else model_ev++;
	} else {
		model_ev = 1;
		model_waiting = 0;
	}
	sh_cond_notice(cd, got);
	notices_done++;
}
static void released(bool was_blocked, int got) {
	if (autoreset) CHECK(waits_done + tries_ok + cbs_done <= notices_begun, "%d waits were released by %d notices (auto-reset)", waits_done + tries_ok + cbs_done, notices_begun);
	else CHECK(notices_begun > 0, "a wait was released before any notice");
	if (was_blocked) {
		CHECK(got >= 1000 && got < next_got, "blocked waiter got %d, which no notice carried", got);
		if (autoreset) CHECK(delivered.insert(got).second, "notice value %d was delivered to two waiters", got);
	}
}
struct Cb { int sel; bool immediate; bool done; };
static kev_result on_cb(KOPAQUE data, void *arg, int got) {
	Cb *c = (Cb *)arg;
	CHECK(!c->done, "callback waiter called twice");
	CHECK(data == (KOPAQUE)&cd, "callback waiter called with the wrong data");
	CHECK(kgl_get_tls_selector() == get_selector_by_index(c->sel), "callback waiter called on another selector");
	c->done = true;
	cbs_done++;
	if (single) {
		if (c->immediate) released(false, 0);
		else released(true, got);
	} else {
		released(got != 0, got);
	}
	return kev_ok;
}
static void do_op(int sel, Op o) {
	switch (o.kind) {
	case NOTICE: do_notice(); break;
	case WAIT: {
		waits_begun++;
		bool blk = false;
		if (model_ev > 0) {
			if (autoreset) model_ev--;
		} else {
			model_waiting++;
			blk = true;
			if (single) blocked_seen++;
		}
		int got = -7;
		int r = sh_cond_wait(cd, &got);
		waits_done++;
		CHECK(r == 0, "wait returned %d", r);
		released(single && blk, got);
		break;
	}
	case TRY: {
		int done_before = notices_done;
		bool expect = model_ev > 0;
		if (expect && autoreset) model_ev--;
		int got = 0;
		int r = sh_cond_try_wait(cd, &got);
		if (r == 0) {
			tries_ok++;
			released(false, got);
		}
		CHECK(r == 0 || r == -1, "try_wait returned %d", r);
		if (single) CHECK((r == 0) == expect, "try_wait returned %d, %ld notices were pending", r, model_ev + (expect && autoreset));
		else if (!autoreset && done_before > 0) CHECK(r == 0, "try_wait failed on a manual-reset condition that had been noticed");
		break;
	}
	case CALLBACK: {
		Cb *c = new Cb{sel, model_ev > 0, false};
		cbs_begun++;
		if (model_ev > 0) {
			if (autoreset) model_ev--;
		} else model_waiting++;
		sh_cond_wait_callback(cd, (KOPAQUE)&cd, on_cb, c);
		break;
	}
	case SLEEP: kfiber_msleep(o.arg); break;
	}
}
static int sy_left, sy_token, sy_value;
static bool sy_chain, sy_noticed;
static void sy_released(int got, const char *how) {
	CHECK(sy_noticed, "a %s was released before the notice", how);
	CHECK(got == sy_value, "a %s got %d, the notice had %d", how, got, sy_value);
	sy_left--;
	if (!sy_chain) return;
	// one at a time: everyone who is released notifies for the next one
	CHECK(sy_token == 1, "a %s was released although no notice is left", how);
	sy_token = 0;
	sy_token = 1;
	sh_cond_notice(cd, ++sy_value);
}
static kev_result sy_callback(KOPAQUE data, void *arg, int got) {
	CHECK(data == (KOPAQUE)&sy_left && arg == (void *)&sy_token, "the callback got another one's data");
	CHECK(kfiber_is_main(), "the callback did not run on a main fiber");
	CHECK(kgl_get_tls_selector() != NULL, "the callback did not run on a loop");
	sy_released(got, "callback");
	return kev_ok;
}
static void sync_kind(const ds::Config &c, int nsel) {
	// plain threads and callbacks wait for a fiber: join-style use of the sync kind
	bool ar = chance(1, 2);
	int delay = range(0, 5), nn = ar ? 1 : range(1, 2), nt = range(1, 3), ncb = (int)weighted({3, 2, 1});
	bool destroy = nt == 1 && !ncb && nn == 1 && chance(1, 2);
	int sel = range(0, nsel - 1);
	struct W { int delay, sel, again; bool try_first; };
	std::vector<W> w(nt + ncb);
	for (W &x : w) x.delay = chance(1, 2) ? 0 : range(1, 8), x.sel = range(0, nsel - 1), x.try_first = chance(1, 2), x.again = !ar && !destroy ? range(0, 2) : 0;
	logf("sync kind autoreset=%d notices=%d delay=%d%s", ar, nn, delay, destroy ? " destroyed by the waiter" : "");
	for (int i = 0; i < nt + ncb; i++) logf("  %s after %d ms%s, waits again %d", i < nt ? "thread" : "callback", w[i].delay, i < nt ? w[i].try_first ? ", tries first" : "" : (" on loop " + kh::ll(w[i].sel)).c_str(), w[i].again);
	kh::boot(nsel, c);
	cd = kfiber_cond_init_sync(ar);
	sy_left = nt + ncb;
	sy_chain = ar;
	sy_value = 4242;
	bool noticing = true;
	for (int i = 0; i < nt; i++) {
		ds::spawn([&w, i, destroy] {
			W x = w[i];
			if (x.delay) ds::sleep_ms(x.delay);
			int got = 0;
			if (!x.try_first || sh_cond_try_wait(cd, &got) != 0) {
				got = 0;
				int r = sh_cond_wait(cd, &got);
				CHECK(r == 0, "wait returned %d", r);
			}
			if (destroy) {
				CHECK(got == 4242 && sy_noticed, "got %d", got);
				sh_cond_release(cd);
				sy_left--;
				return;
			}
			sy_released(got, "thread");
			for (int k = 0; k < x.again; k++) {
				got = 0;
				int r = k & 1 ? sh_cond_try_wait(cd, &got) : sh_cond_wait(cd, &got);
				CHECK(r == 0 && got == 4242, "waiting again returned %d and got %d", r, got);
			}
		});
	}
	for (int i = nt; i < nt + ncb; i++) {
		W x = w[i];
		kh::fiber(x.sel, [x] {
			if (x.delay) kfiber_msleep(x.delay);
			kh::post(x.sel, [] { sh_cond_wait_callback(cd, (KOPAQUE)&sy_left, sy_callback, &sy_token); });
			return 0;
		});
	}
	kh::fiber(sel, [&] {
		if (delay) kfiber_msleep(delay);
		kfiber_cond *p = cd;
		for (int i = 0; i < nn; i++) {
			sy_noticed = true;
			sy_token = 1;
			sh_cond_notice(p, 4242);
		}
		noticing = false;
		return 0;
	});
	bool ok = ds::run_until([&] { return sy_left == 0 && !noticing; }, 60000);
	CHECK(ok, "%d waits on a sync condition were never released\n%s", sy_left, ds::dump().c_str());
	ds::run_until([&] { return kfiber_get_count() == 0; }, 60000);
	CHECK(kfiber_get_count() == 0, "fiber left");
	if (!destroy) {
		ds::sleep_ms(20);
		if (ar) {
			// the last one's notice is still there, once
			int got = 0;
			CHECK(sh_cond_try_wait(cd, &got) == 0 && got == sy_value, "the last notice is lost (got %d)", got);
			CHECK(sh_cond_try_wait(cd, &got) != 0, "one notice released two waits");
		}
		sh_cond_release(cd);
	}
	if (ncb) count("sync kind with callbacks");
	count("sync kind");
	nontrivial();
}
// a thread event shared by several plain threads
static void event_kind(ds::Config c) {
	bool ar = chance(1, 2);
	bool resets = chance(1, 3);
	int nt = range(1, 5);
	c.spurious = chance(1, 2);
	logf("thread event autoreset=%d mode=%d%s", ar, c.mode, c.spurious ? " spurious" : "");
	enum { EWAIT, ETRY, ENOTICE, ERESET, ESLEEP };
	std::vector<std::vector<Op>> prog(nt);
	for (int i = 0; i < nt; i++) {
		int n = range(1, 5);
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.kind = (int)weighted({4, 2, 4, resets ? 1u : 0u, 2});
			o.arg = range(0, 3);
			static const char *nm[] = {" wait", " try", " notice", " reset", " sleep"};
			s += nm[o.kind];
			prog[i].push_back(o);
		}
		logf(" thread %d:%s", i, s.c_str());
	}
	static kcond *e;
	static int nb, nd, wb, wd, tok, rb, rd, fin;
	ds::start(c);
	e = sh_kcond_init(ar);
	for (int i = 0; i < nt; i++) {
		auto *p = &prog[i];
		ds::spawn([=] {
			for (auto &o : *p) switch (o.kind) {
				case EWAIT: {
					int resets_done = rd, resets_begun = rb, notices = nd;
					wb++;
					sh_kcond_wait(e);
					wd++;
					if (ar) CHECK(wd + tok <= nb, "%d waits were released by %d notices (auto-reset event)", wd + tok, nb);
					else CHECK(nb > 0, "a wait returned before any notice");
					if (resets_done == resets_begun && rb == resets_done && notices == 0) CHECK(nb > 0, "a wait returned before any notice");
					break;
				}
				case ETRY: {
					int done = nd, left = wb + tok, r0 = rb, t0 = wd + tok;
					bool r = sh_kcond_try_wait(e, 0);
					if (r) {
						tok++;
						CHECK(nb > 0 && (!ar || wd + tok <= nb), "try succeeded %d times after %d notices", tok, nb);
					} else if (!ar) CHECK(done == 0 || rb > 0, "try failed although the manual-reset event is set");
					(void)left, (void)r0, (void)t0;
					break;
				}
				case ENOTICE: nb++; sh_kcond_notice(e); nd++; break;
				case ERESET: rb++; sh_kcond_reset(e); rd++; break;
				case ESLEEP: o.arg ? ds::sleep_ms(o.arg) : ds::yield(); break;
				}
			fin++;
		});
	}
	auto quiet = [&] { return fin + (wb - wd) == nt && nb == nd && rb == rd; };
	bool blocked = false;
	for (int round = 0;; round++) {
		ds::run_until(quiet, 60000);
		ds::run_until([] { return false; }, 200);
		ds::run_until(quiet, 60000);
		CHECK(quiet(), "a thread is stuck outside wait\n%s", ds::dump().c_str());
		int b = wb - wd;
		if (b == 0) break;
		blocked = true;
		CHECK(round < 60, "waits never released\n%s", ds::dump().c_str());
		CHECK(!sh_kcond_try_wait(e, 0), "%d threads wait although the event is set", b);
		int was = wd, fin0 = fin;
		nb++;
		sh_kcond_notice(e);
		nd++;
		ds::run_until([] { return false; }, 50);
		if (ar) CHECK(wd > was, "a notice released none of %d waiting threads", b);
		else if (rb == 0) CHECK(fin == nt, "a notice of the manual-reset event left %d threads waiting", nt - fin);
		else CHECK(wd - was >= b, "a notice of the manual-reset event released %d of %d waiting threads", wd - was, b);
		(void)fin0;
	}
	CHECK(fin == nt, "a thread did not finish");
	if (!ar && rb == 0) CHECK(sh_kcond_try_wait(e, 0) == (nb > 0), "manual-reset event after %d notices", nb);
	sh_kcond_destroy(e);
	count("thread event");
	if (blocked) count("thread event with blocked threads");
	if (nt > 1) nontrivial();
}
static void run() {
	if (chance(1, 5)) return event_kind(ds::draw_config(true));
	int kind = (int)weighted({3, 3, 3, 3, 2});
	int nsel = kind >= 2 ? 1 << weighted({1, 3, 2}) : 1;
	ds::Config c = ds::draw_config(true);
	c.spurious = kind == 4 && chance(1, 2);
	if (kind == 4) return sync_kind(c, nsel);
	autoreset = kind == 0 || kind == 2;
	single = nsel == 1;
	bool outside = kind >= 2 && chance(1, 3); // notices from a thread that is no selector
	if (outside) single = false;
	bool tiny = kind >= 2 && nsel > 1 && chance(1, 2); // few operations, densely preempted
	if (tiny) ds::dense(c);
	int nf = range(2, tiny ? 3 : 8);
	logf("%s autoreset=%d selectors=%d mode=%d", kind >= 2 ? "thread-safe" : "single-thread", autoreset, nsel, c.mode);
	std::vector<std::vector<Op>> prog(nf);
	std::vector<int> where(nf);
	static const char *nm[] = {" notice", " wait", " try", " callback", " sleep"};
	for (int i = 0; i < nf; i++) {
		where[i] = range(0, nsel - 1);
		int n = tiny ? (int)weighted({3, 1}) + 1 : range(1, 5);
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.kind = (int)weighted({4, 5, 2, 0, tiny ? 0u : 3u});
			o.arg = o.kind == SLEEP ? range(0, 4) : 0;
			prog[i].push_back(o);
			s += nm[o.kind];
			if (o.kind == SLEEP) s += kh::ll(o.arg);
		}
		logf(" fiber %d on %d:%s", i, where[i], s.c_str());
	}
	std::vector<Op> mainops; // run on a selector's main fiber: notice / callback wait
	std::vector<int> mainsel;
	int nm_ = tiny ? (int)weighted({2, 2, 1}) : range(0, 4);
	for (int i = 0; i < nm_; i++) {
		mainops.push_back(Op{chance(2, 3) ? CALLBACK : NOTICE, 0});
		mainsel.push_back(range(0, nsel - 1));
		logf(" main fiber of %d:%s", mainsel.back(), nm[mainops.back().kind]);
	}
	int nout = outside ? range(1, 4) : 0;
	if (nout) logf(" %d notices from a plain thread", nout);
	kh::boot(nsel, c);
	cd = kind >= 2 ? kfiber_cond_init_ts(autoreset) : kfiber_cond_init(autoreset);
	int main_done = 0, out_done = 0;
	for (int i = 0; i < nf; i++) {
		auto *p = &prog[i];
		int sel = where[i];
		kh::fiber(sel, [p, sel] {
			for (auto &o : *p) do_op(sel, o);
			done_prog++;
			return 0;
		});
	}
	for (int i = 0; i < nm_; i++) {
		Op o = mainops[i];
		int sel = mainsel[i];
		kh::post(sel, [o, sel, &main_done] {
			do_op(sel, o);
			main_done++;
		});
	}
	if (nout) ds::spawn([&] {
		for (int i = 0; i < nout; i++) {
			do_notice();
			if (i & 1) ds::sleep_ms(2);
		}
		out_done = 1;
	});
	// every fiber either finishes or is blocked in a wait
	auto balanced = [&] {
		if (notices_begun != notices_done) return false;
		int bw = waits_begun - waits_done + cbs_begun - cbs_done;
		if (main_done != nm_ || (nout && !out_done) || done_prog + (waits_begun - waits_done) != nf) return false;
		if (bw == 0) return true;
		return autoreset ? notices_begun == waits_done + tries_ok + cbs_done : notices_begun == 0;
	};
	ds::run_until(balanced, 60000);
	bool blocked_cross = waits_begun > waits_done || cbs_begun > cbs_done;
	for (int round = 0; round < 200; round++) {
		int blocked = waits_begun - waits_done, cbw = cbs_begun - cbs_done;
		CHECK(main_done == nm_ && done_prog + blocked == nf, "a fiber is stuck outside wait (%d done, %d waiting, of %d)", done_prog, blocked, nf);
		if (blocked + cbw == 0) break;
		if (autoreset) CHECK(notices_done == waits_done + tries_ok + cbs_done, "%d waits are blocked although %d notices released only %d waits", blocked + cbw, notices_done, waits_done + tries_ok + cbs_done);
		else CHECK(notices_done == 0, "%d waits are blocked although the manual-reset condition was noticed", blocked + cbw);
		kh::post(range(0, nsel - 1), [] { do_notice(); });
		int nb = notices_begun;
		ds::run_until([&] { return notices_begun > nb && balanced(); }, 60000);
	}
	CHECK(done_prog == nf && cbs_begun == cbs_done, "waits never released: %d of %d programs done, %d of %d callbacks\n%s", done_prog, nf, cbs_done, cbs_begun, ds::dump().c_str());
	// what is left of the notices can still be taken, exactly once each
	bool drained = false;
	kh::fiber(0, [&] {
		int left = 0;
		if (autoreset) {
			while (sh_cond_try_wait(cd, NULL) == 0) left++;
			CHECK(left == notices_done - waits_done - tries_ok - cbs_done, "%d notices were pending at the end, expected %d", left, notices_done - waits_done - tries_ok - cbs_done);
		} else {
			CHECK((sh_cond_try_wait(cd, NULL) == 0) == (notices_done > 0), "manual-reset state after %d notices", notices_done);
		}
		drained = true;
		return 0;
	});
	CHECK(ds::run_until([&] { return drained; }, 10000), "final fiber never ran");
	ds::run_until([] { return false; }, 200);
	CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count());
	sh_cond_release(cd);
	if (blocked_cross || blocked_seen) count("case with blocked waits");
	if (cbs_done) count("case with callback waits");
	if (tries_ok) count("case with successful try_wait");
	if (nout) count("case with notices from a plain thread");
	if (nsel > 1) count("case across selectors");
	if (c.mode) count("case with preemption");
	count(autoreset ? "auto-reset" : "manual-reset");
	if (blocked_cross || blocked_seen) nontrivial();
}

Property pbt::property = {
	"C07",
	"A case draws the kind of condition (single-thread, thread-safe, thread-sync, or a bare thread event shared by 1-5 threads with wait/try/notice/reset programs; auto or manual reset), 2-8 fibers with wait/try/notice/sleep programs, main-fiber notices and callback waits, and a schedule; non-trivial = some wait blocked before its notice (or the sync kind).",
	run, 1, 300000, 4000000, 45, 600, 800,
	{"preemption points are the library's memory accesses and synchronisation calls (sequentially consistent memory)", "virtual clock", "the value reported by a wait that did not block is unspecified"}};
