// kv: variant=fast:0.5,std:0.5
// Fiber channel: rendezvous, every item received exactly once, close wakes all.
#include "refs.h"
#include "kh.h"
#include "shim.h"
using namespace pbt;

enum { SEND, RECV, RECV_HOLD, SLEEP, CLOSE };
struct Op { int kind, arg; };
static kfiber_chan *ch;
static bool closed;
static int next_item = 1, done_fibers, blocked_send, blocked_recv, held, hold_waits;
static std::set<int> in_flight, received, acked;
static std::set<int> finished_sends;
static std::map<int, int> wake_value; // item -> value its sender must return
static int sends_ok, recvs_ok, sends_closed, recvs_closed, n_blocked;

static void got_item(KOPAQUE data, int wake) {
	int item = (int)(intptr_t)data;
	CHECK(in_flight.count(item), "received %d, which nobody is sending", item);
	CHECK(received.insert(item).second, "item %d received twice", item);
	in_flight.erase(item);
	wake_value[item] = wake;
	if (acked.count(item)) {
		CHECK(wake == 0, "a sender whose receiver holds it was released early");
		acked.erase(item);
	}
	recvs_ok++;
}
static int n_ops;
static void do_op(Op o) {
	n_ops++;
	switch (o.kind) {
	case SEND: {
		int item = next_item++;
		bool was_closed = closed;
		in_flight.insert(item);
		blocked_send++;
		bool expect_block = blocked_recv == 0 && !closed;
		if (expect_block) n_blocked++;
		int r = kfiber_chan_send(ch, (KOPAQUE)(intptr_t)item);
		blocked_send--;
		finished_sends.insert(item);
		if (was_closed) {
			CHECK(r == -1, "send on a closed channel returned %d", r);
			CHECK(!received.count(item), "item sent on a closed channel was received");
			in_flight.erase(item);
			sends_closed++;
		} else if (received.count(item)) {
			CHECK(r == wake_value[item], "send of a received item returned %d, expected %d", r, wake_value[item]);
			sends_ok++;
		} else if (r == 0) {
			acked.insert(item); // its receiver resumes after the sender
			sends_ok++;
		} else {
			CHECK(closed, "send returned %d but the item was not received and the channel is open", r);
			CHECK(r == -1, "send returned %d after close without a receiver", r);
			in_flight.erase(item);
			sends_closed++;
		}
		break;
	}
	case RECV:
	case RECV_HOLD: {
		bool was_closed = closed;
		KOPAQUE data = (KOPAQUE)(intptr_t)-5;
		kfiber_waiter *sender = (kfiber_waiter *)&data;
		blocked_recv++;
		int r = kfiber_chan_recv(ch, &data, o.kind == RECV_HOLD ? &sender : NULL);
		blocked_recv--;
		if (r == 0) {
			CHECK(!was_closed, "recv on a closed channel succeeded");
			int wake = 0;
			if (o.kind == RECV_HOLD && sender) {
				wake = 1000 + (int)(intptr_t)data;
				held++;
				hold_waits++;
			}
			got_item(data, wake);
			int item = (int)(intptr_t)data;
			if (wake) {
				if (o.arg) kfiber_msleep(o.arg);
				CHECK(wake_value.count(item) && !finished_sends.count(item), "held sender finished early");
				kfiber_chan_wakeup(ch, sender, wake);
				held--;
			}
		} else {
			CHECK(r == -1, "recv returned %d", r);
			CHECK(closed, "recv failed on an open channel");
			recvs_closed++;
		}
		break;
	}
	case SLEEP: kfiber_msleep(o.arg); break;
	case CLOSE: {
		closed = true;
		int r = kfiber_chan_close(ch);
		CHECK(r == 0, "close returned %d", r);
		break;
	}
	}
	CHECK(sends_ok <= recvs_ok + blocked_recv, "%d sends completed but only %d items were received", sends_ok, recvs_ok);
}
static void holders() {
	kfiber_chan *p = kfiber_chan_create();
	refs::race({"channel", [p] { CHECK(kfiber_chan_add_ref(p) == p, "add_ref"); }, [p] { kfiber_chan_release(p); },
		[p] { CHECK(kfiber_chan_get_ref(p) >= 1, "a held channel has %d references", kfiber_chan_get_ref(p)); },
		[] { return true; }, p});
}
static void run() {
	if (chance(1, 12)) return holders();
	ds::Config c = ds::draw_config(true);
	int nf = range(2, 9);
	bool with_close = chance(1, 2);
	logf("fibers=%d mode=%d", nf, c.mode);
	static const char *nm[] = {" send", " recv", " recv-hold", " sleep", " close"};
	std::vector<std::vector<Op>> prog(nf);
	for (int i = 0; i < nf; i++) {
		int n = range(1, 6);
		uint32_t lean = draw(3); // mixed, mostly sender, mostly receiver
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.kind = (int)weighted({lean == 2 ? 2u : 8u, lean == 1 ? 2u : 6u, lean == 1 ? 1u : 2u, 4u, with_close ? 1u : 0u});
			o.arg = o.kind == SLEEP || o.kind == RECV_HOLD ? range(0, 4) : 0;
			prog[i].push_back(o);
			s += nm[o.kind];
			if (o.arg) s += kh::ll(o.arg);
		}
		logf(" fiber %d:%s", i, s.c_str());
	}
	int extra_refs = range(0, 3);
	kh::boot(1, c);
	ch = kfiber_chan_create();
	CHECK(kfiber_chan_get_ref(ch) == 1, "new channel has %d references", kfiber_chan_get_ref(ch));
	for (int i = 0; i < extra_refs; i++) CHECK(kfiber_chan_add_ref(ch) == ch, "add_ref");
	for (int i = 0; i < nf; i++) {
		auto *p = &prog[i];
		kh::fiber(0, [p] {
			for (auto &o : *p) do_op(o);
			done_fibers++;
			return 0;
		});
	}
	auto quiet = [&] { return held == 0 && done_fibers + blocked_send + blocked_recv == nf; };
	for (int round = 0;; round++) {
		bool q = ds::run_until(quiet, 60000);
		int n = n_ops;
		CHECK(q && round < 100, "a fiber is stuck outside the channel (%d done, %d sending, %d receiving of %d)", done_fibers, blocked_send, blocked_recv, nf);
		ds::run_until([] { return false; }, 500);
		if (quiet() && n == n_ops) break;
	}
	CHECK(blocked_send == 0 || blocked_recv == 0, "%d senders and %d receivers are blocked at the same time", blocked_send, blocked_recv);
	CHECK(acked.empty(), "%d sends completed without a receiver", (int)acked.size());
	CHECK(sends_ok == recvs_ok, "%d items received but %d sends completed", recvs_ok, sends_ok);
	CHECK((int)in_flight.size() == blocked_send, "%d items in flight, %d blocked senders", (int)in_flight.size(), blocked_send);
	if (closed) CHECK(blocked_send + blocked_recv == 0, "fibers still blocked on a closed channel");
	int left = blocked_send + blocked_recv;
	if (left) count("close with blocked fibers (final)");
	bool fin = false;
	kh::post(0, [&] {
		if (!closed || extra_refs) do_op(Op{CLOSE, 0});
		fin = true;
	});
	CHECK(ds::run_until([&] { return fin && done_fibers == nf; }, 60000), "close did not wake every blocked fiber: %d of %d done", done_fibers, nf);
	CHECK(kfiber_chan_get_ref(ch) == 1 + extra_refs, "reference count is %d, expected %d", kfiber_chan_get_ref(ch), 1 + extra_refs);
	for (int i = 0; i < extra_refs + 1; i++) kfiber_chan_release(ch);
	ds::run_until([] { return false; }, 200);
	CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count());
	if (recvs_ok) count("case with items exchanged");
	if (sends_closed) count("case with sends refused by close");
	if (recvs_closed) count("case with receives refused by close");
	if (hold_waits) count("case with held senders");
	if (n_blocked) count("case with blocked senders");
	if (recvs_ok && (n_blocked || sends_closed || recvs_closed)) nontrivial();
}

Property pbt::property = {
	"C08",
	"A case draws 2-9 fibers on one selector with programs of send/recv/recv-and-hold-sender/sleep/close; non-trivial = items were exchanged and some operation blocked or was refused by close.",
	run, 1, 300000, 4000000, 40, 600, 800,
	{"the order in which waiting senders or receivers are served is unspecified", "virtual clock"}};
