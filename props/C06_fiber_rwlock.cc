// kv: variant=fast:0.6,std:0.4
// Fiber read-write lock: exclusion and progress.
#include "kh.h"
#include "shim.h"
using namespace pbt;

struct Op { bool write; int hold, pause; };
static kfiber_rwlock *rw;
static int readers, writers, done_fibers, max_readers, waited, writer_waited;

static void run() {
	int nsel = 1 << weighted({3, 2, 1});
	ds::Config c = ds::draw_config(true);
	bool tiny = nsel > 1 && chance(1, 3); // few operations, densely preempted
	if (tiny) ds::dense(c);
	int nf = range(2, tiny ? 4 : 9);
	logf("selectors=%d mode=%d fibers=%d", nsel, c.mode, nf);
	std::vector<std::vector<Op>> prog(nf);
	std::vector<int> where(nf);
	for (int i = 0; i < nf; i++) {
		where[i] = range(0, nsel - 1);
		int n = tiny ? 1 + (int)weighted({2, 1}) : range(1, 6);
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.write = chance(2, 5);
			o.hold = chance(3, 4) ? range(0, 6) : -1;
			o.pause = chance(1, 2) ? range(0, 6) : -1;
			prog[i].push_back(o);
			s += (o.write ? " W" : " R") + kh::ll(o.hold) + (o.pause >= 0 ? " sleep" + kh::ll(o.pause) : "");
		}
		logf(" fiber %d on %d:%s", i, where[i], s.c_str());
	}
	kh::boot(nsel, c);
	rw = sh_rwlock_init();
	for (int i = 0; i < nf; i++) {
		auto *p = &prog[i];
		kh::fiber(where[i], [p] {
			for (auto &o : *p) {
				int64_t t0 = ds::mono_us();
				int r = o.write ? sh_wlock(rw) : sh_rlock(rw);
				CHECK(r == 0, "lock returned %d", r);
				if (ds::mono_us() != t0) {
					waited++;
					if (o.write) writer_waited++;
				}
				if (o.write) writers++;
				else readers++;
				if (readers > max_readers) max_readers = readers;
				CHECK(writers <= 1 && (writers == 0 || readers == 0), "lock held by %d writers and %d readers", writers, readers);
				if (o.hold >= 0) kfiber_msleep(o.hold);
				CHECK(writers <= 1 && (writers == 0 || readers == 0), "lock held by %d writers and %d readers", writers, readers);
				if (o.write) writers--;
				else readers--;
				r = o.write ? sh_wunlock(rw) : sh_runlock(rw);
				CHECK(r == 0, "unlock returned %d", r);
				if (o.pause >= 0) kfiber_msleep(o.pause);
			}
			done_fibers++;
			return 0;
		});
	}
	bool ok = ds::run_until([&] { return done_fibers == nf; }, 600000);
	CHECK(ok, "only %d of %d fibers finished (readers=%d writers=%d inside)\n%s", done_fibers, nf, readers, writers, ds::dump().c_str());
	ds::run_until([] { return false; }, 300);
	CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count());
	sh_rwlock_destroy(rw); // asserts the lock is free and has no waiters
	if (waited) count("case with a fiber that blocked");
	if (writer_waited) count("case with a writer that blocked");
	if (max_readers > 1) count("case with concurrent readers");
	if (nsel > 1) count("case across selectors");
	if (c.mode) count("case with preemption");
	if (waited) nontrivial();
}

Property pbt::property = {
	"C06",
	"A case draws 1, 2 or 4 selector threads, 2-9 fibers with programs of read/write lock, hold and sleep, and a schedule; non-trivial = some fiber had to wait for the lock.",
	run, 1, 300000, 4000000, 45, 600, 800,
	{"preemption points are the library's memory accesses and synchronisation calls (sequentially consistent memory)", "virtual clock"}};
