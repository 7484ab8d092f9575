// kv: variant=fast:0.7,std:0.3
// Plain-thread reader-writer locks (spin locks): exclusion, overlap, progress.
#include "kh.h"
#include "shim.h"
using namespace pbt;

enum Kind { R, RLOW, W };
struct Op { Kind k; int hold, pause; };
static krw_mutex m1;
static kwr_mutex m2;
static bool prefer; // kwr_mutex
static int readers, writers, max_readers, finished, contended;
static int64_t acquisitions;
static int64_t shared_a, shared_b; // written under the write lock only

static void enter(Kind k) {
	int before = readers + writers;
	if (before) contended++;
	if (k == W) prefer ? sh_kwr_wlock(&m2) : sh_krw_wlock(&m1);
	else if (prefer) sh_kwr_rlock(&m2, k == R);
	else sh_krw_rlock(&m1);
	if (k == W) writers++;
	else readers++;
	acquisitions++;
	if (readers > max_readers) max_readers = readers;
	CHECK(writers <= 1 && (writers == 0 || readers == 0), "lock held by %d writers and %d readers", writers, readers);
}
static void leave(Kind k) {
	CHECK(writers <= 1 && (writers == 0 || readers == 0), "lock held by %d writers and %d readers", writers, readers);
	if (k == W) writers--;
	else readers--;
	if (k == W) prefer ? sh_kwr_wunlock(&m2) : sh_krw_wunlock(&m1);
	else prefer ? sh_kwr_runlock(&m2) : sh_krw_runlock(&m1);
}
static void programs(const ds::Config &c) {
	int nt = range(2, 7);
	std::vector<std::vector<Op>> prog(nt);
	for (int i = 0; i < nt; i++) {
		int n = range(1, 6);
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.k = (Kind)weighted({3, (uint32_t)(prefer ? 2 : 0), 3});
			o.hold = chance(2, 3) ? range(0, 8) : 0;
			o.pause = chance(1, 3) ? range(0, 8) : 0;
			prog[i].push_back(o);
			s += std::string(o.k == W ? " W" : o.k == R ? " R" : " r") + kh::ll(o.hold) + "/" + kh::ll(o.pause);
		}
		logf(" thread %d:%s", i, s.c_str());
	}
	ds::start(c);
	for (int i = 0; i < nt; i++) {
		auto *p = &prog[i];
		ds::spawn([p] {
			for (auto &o : *p) {
				enter(o.k);
				if (o.k == W) shared_a++;
				for (int y = 0; y < o.hold; y++) {
					int64_t a = shared_a;
					ds::yield();
					CHECK(a == shared_a, "another holder changed the data while the lock was held (%s)", o.k == W ? "write" : "read");
				}
				if (o.k == W) shared_b++;
				CHECK(shared_a == shared_b, "a holder observed a half-made update");
				leave(o.k);
				for (int y = 0; y < o.pause; y++) ds::yield();
			}
			finished++;
		});
	}
	bool ok = ds::run_until([&] { return finished == nt; }, 600000);
	CHECK(ok, "only %d of %d threads finished\n%s", finished, nt, ds::dump().c_str());
	// the lock is free again: a writer and then readers get it at once
	bool again = false;
	ds::spawn([&] {
		enter(W);
		leave(W);
		enter(prefer ? RLOW : R);
		leave(R);
		again = true;
	});
	CHECK(ds::run_until([&] { return again; }, 600000), "the free lock was not granted");
	if (max_readers > 1) count("case with concurrent readers");
}
// Low-priority readers that always overlap must not keep a writer out.
static void relay(const ds::Config &c0) {
	ds::Config c = c0;
	if (c.mode == 2) c.mode = 0;
	int nr = range(2, 4), patience = range(20, 60), rounds = range(1, 3), nw = range(1, 2);
	logf(" relay of %d low-priority readers against %d writers, %d yields, %d rounds", nr, nw, patience, rounds);
	static int got_in, handovers, asking;
	static bool stop;
	ds::start(c);
	static int64_t acq_low;
	for (int i = 0; i < nr; i++)
		ds::spawn([=] {
			while (!stop) {
				enter(RLOW);
				acq_low++;
				int64_t mine = acq_low;
				// hold until another reader has come in, or patience is over
				for (int y = 0; y < patience && acq_low == mine && !stop; y++) ds::yield();
				if (acq_low != mine && asking) handovers++;
				leave(RLOW);
			}
			finished++;
		});
	for (int w = 0; w < nw; w++)
		ds::spawn([=] {
			for (int r = 0; r < rounds; r++) {
				for (int y = 0; y < 50; y++) ds::yield();
				asking++;
				handovers = 0;
				enter(W);
				asking--;
				handovers = 0;
				got_in++;
				ds::yield();
				leave(W);
			}
			if (got_in == rounds * nw) stop = true;
			finished++;
		});
	// every hand-over gives the writer many chances to announce itself
	bool ok = ds::run_until([&] { return finished == nr + nw || handovers > 400; }, 600000);
	CHECK(ok && handovers <= 400, "a waiting writer is kept out by low-priority readers that arrived after it (%d hand-overs)", handovers);
	contended++;
	count("case with overlapping low-priority readers against a writer");
}
static void run() {
	ds::Config c = ds::draw_config(true);
	c.max_slice = pick(std::vector<int>{200, 40, 1000});
	c.max_steps = 3000000;
	prefer = chance(1, 2);
	bool rel = prefer && chance(1, 4);
	logf("lock=%s mode=%d rate=%u", prefer ? "kwr_mutex" : "krw_mutex", c.mode, c.rate);
	sh_krw_init(&m1);
	sh_kwr_init(&m2);
	if (rel) relay(c);
	else programs(c);
	count(prefer ? "kwr_mutex" : "krw_mutex");
	if (c.mode) count("case with preemption");
	if (contended) nontrivial();
}

Property pbt::property = {
	"C25",
	"A case draws the lock kind, 2-7 threads with programs of read / low-priority read / write, hold and pause lengths (in scheduling steps), and a schedule; one case in eight lets low-priority readers overlap endlessly against a writer. Non-trivial = some lock call was made while the lock was held.",
	run, 1, 300000, 4000000, 40, 600, 800,
	{"preemption points are the library's memory accesses (sequentially consistent memory)", "the scheduler is fair: every spinning thread is eventually preempted"}};
