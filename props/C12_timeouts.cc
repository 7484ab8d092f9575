// kv: variant=fast:0.6,std:0.4
// Connection time-outs: fire when idle for the configured time, and only then.
#include "net.h"
#include "shim.h"
using namespace pbt;

enum { SEND, DRAIN, PAUSE };
struct Act { int delay, k, n; };
enum { READ, WRITE, IDLE };
struct Op { int k, n, deep; };
struct Conn {
	int id, sel, fd, peer_fd, mult = 0;
	bool rt = false; // read time-outs as notifications
	kconnection *c = nullptr;
	std::vector<Op> rd, wr;
	std::vector<Act> peer;
	int pending = 0;
	bool rd_pending = false;
	int64_t armed = 0;    // the wait that is running started (at least) then
	int64_t last_act = 0; // the last thing that can have restarted it
	int64_t prev_act = 0; // the last such thing before the current instant
	int blocks = 0;       // would-block results (hook)
	int64_t limit = 0;    // of this connection, ms
	bool timed_out = false, shut = false, peer_closed = false;
	int users = 0, notes = 0;
	long in = 0, out = 0, sent = 0;
	int64_t ended_at = -1;
	uint32_t key;
};
static std::vector<std::unique_ptr<Conn>> conns;
static Conn *by_fd[4096];
static int rw_tmo, alive, late_ms, n_timeouts, n_notes, n_reads, n_writes, n_idle, n_stalled, n_conn_to, n_conn_ok, n_conn_refused, n_mult, n_deep, peers;
static int64_t lo_slack, hi_base, hi_step;

static void act(Conn *c) {
	int64_t now = ds::mono_us();
	if (now != c->last_act) c->prev_act = c->last_act;
	c->last_act = now;
}
static ssize_t on_readv(int fd, const struct iovec *v, int n) {
	ssize_t r = io::real_readv(fd, v, n);
	Conn *c = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
	if (c) {
		int e = errno;
		if (r < 0) c->blocks++;
		act(c);
		errno = e;
	}
	return r;
}
static ssize_t on_writev(int fd, const struct iovec *v, int n) {
	ssize_t r = io::real_writev(fd, v, n);
	Conn *c = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
	if (c) {
		int e = errno;
		if (r < 0) c->blocks++;
		act(c);
		errno = e;
	}
	return r;
}
static int64_t ms(int64_t us) { return us / 1000; }
static int64_t upper(const Conn *c) { return c->limit + hi_base + (c->mult + 1) * hi_step; }
struct Pend { // one operation of a connection
	Conn *c;
	bool read;
	int64_t start;
	int blocks0;
	Pend(Conn *c, bool read) : c(c), read(read), start(ds::mono_us()), blocks0(c->blocks) {
		if (c->pending++ == 0) c->armed = start;
		if (read) c->rd_pending = true;
		act(c);
	}
	// judge the result
	bool done(long got) {
		int64_t now = ds::mono_us();
		// the last activity before this instant (whose own transfer is activity, too)
		int64_t quiet = std::max(start, c->last_act == now ? c->prev_act : c->last_act);
		const char *what = read ? "read" : "write";
		CHECK(kgl_get_tls_selector() == get_selector_by_index(c->sel), "conn %d: a %s completed on another loop", c->id, what);
		c->pending--;
		if (read) c->rd_pending = false;
		bool excused = !read && c->rt; // a pending read takes the notification instead
		if (!excused && !c->timed_out && !c->shut && !c->peer_closed)
			CHECK(ms(now - quiet) <= upper(c), "conn %d: a %s was pending for %lld ms without any activity; the time-out is %lld ms and ended nothing", c->id, what, (long long)ms(now - quiet), (long long)c->limit);
		if (got == ST_ERR_TIME_OUT) {
			CHECK(read && c->rt, "conn %d: a %s reports a time-out nobody asked to be told of", c->id, what);
			n_notes++;
			c->notes++;
		} else if (got > 0) {
			if (c->pending && c->blocks > blocks0) c->armed = now; // an event completed it
			act(c);
			return true;
		} else if (c->shut || c->peer_closed || c->timed_out) {
			return false;
		} else {
			c->timed_out = true;
			c->ended_at = now;
			n_timeouts++;
		}
		// a time-out (or its notification): not early
		CHECK(ms(now - c->armed) + lo_slack >= c->limit, "conn %d: a %s was timed out after %lld ms; the time-out is %lld ms", c->id, what, (long long)ms(now - c->armed), (long long)c->limit);
		if (c->mult) n_mult++;
		c->armed = now;
		act(c);
		return got == ST_ERR_TIME_OUT;
	}
};
__attribute__((noinline)) static int deep_read(kconnection *c, char *b, int n, int depth) {
	volatile char junk[600];
	for (size_t i = 0; i < sizeof junk; i++) junk[i] = (char)(0x5A + depth);
	int r = depth > 0 ? deep_read(c, b, n, depth - 1) : sh_net_read(c, b, n);
	return r + (junk[17] == 99); // keep the frame
}
static int reader(Conn *c) {
	for (auto &o : c->rd) {
		if (o.k == IDLE) {
			n_idle++;
			kfiber_msleep(o.n);
			continue;
		}
		bool over = false;
		for (int tries = 0;; tries++) {
			std::unique_ptr<char[]> b(new char[o.n]);
			int depth = (o.deep + tries * 2) % 5;
			if (depth) n_deep++;
			Pend p(c, true);
			int got = deep_read(c->c, b.get(), o.n, depth);
			if (got > 0) {
				long bad = net::mismatch(b.get(), c->key, c->in, got);
				CHECK(bad < 0, "conn %d: byte %ld of the stream is wrong", c->id, c->in + bad);
				c->in += got;
				n_reads++;
			}
			if (!p.done(got)) {
				over = true;
				break;
			}
			if (got > 0) break;
			// told of a time-out: the connection stays usable
			if (c->notes > 3) {
				c->shut = true;
				kfiber_net_shutdown(c->c);
			} else if ((o.deep & 1) && c->wr.empty()) {
				char x = (char)net::byte_at(c->key + 1, c->out);
				if (sh_net_write(c->c, &x, 1) == 1) c->out++;
			}
		}
		if (over) break;
	}
	return 0;
}
static int writer(Conn *c) {
	for (auto &o : c->wr) {
		if (o.k == IDLE) {
			n_idle++;
			kfiber_msleep(o.n);
			continue;
		}
		std::vector<char> b(o.n, 'w');
		int left = o.n;
		bool over = false;
		while (left > 0) {
			Pend p(c, false);
			int got = sh_net_write(c->c, b.data() + (o.n - left), left);
			if (got > 0) left -= got, n_writes++;
			if (c->blocks > p.blocks0) n_stalled++;
			if (!p.done(got)) {
				over = true;
				break;
			}
		}
		if (over) break;
	}
	return 0;
}
static void peer(Conn *c) {
	std::vector<char> buf(100000);
	for (auto &a : c->peer) {
		ds::sleep_ms(a.delay);
		if (a.k == SEND) {
			net::fill(buf.data(), c->key, c->sent, a.n);
			ssize_t r = ::send(c->peer_fd, buf.data(), a.n, MSG_NOSIGNAL);
			if (r > 0) c->sent += r;
		} else if (a.k == DRAIN)
			while (::recv(c->peer_fd, buf.data(), buf.size(), 0) > 0) {}
	}
	peers--;
}
// ---- connects ---------------------------------------------------------------
struct Dial { int id, sel, mult, kind, at; bool done = false; }; // kind 0 never answers, 1 answered, 2 refused, 3 cannot be registered with the loop
static std::vector<std::unique_ptr<Dial>> dials;
static int conn_tmo, n_unreg;
static thread_local bool refuse_add;
static sockaddr_i full_addr, ok_addr, closed_addr;
static int listener(sockaddr_i *a, int backlog) {
	int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	memset(a, 0, sizeof *a);
	a->v4.sin_family = AF_INET;
	a->v4.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	socklen_t n = sizeof a->v4;
	if (bind(l, (struct sockaddr *)a, n) || (backlog >= 0 && listen(l, backlog)) || getsockname(l, (struct sockaddr *)a, &n)) discard("no loopback");
	return l;
}
static int dial(Dial *d) {
	if (d->at) kfiber_msleep(d->at);
	kconnection *c = kconnection_new(d->kind == 0 ? &full_addr : d->kind == 2 ? &closed_addr : &ok_addr);
	c->st.base.tmo = d->mult;
	int64_t t0 = ds::mono_us(), limit = (int64_t)conn_tmo * 1000 * (d->mult + 1);
	if (d->kind == 3) refuse_add = true;
	int r = kfiber_net_connect(c, NULL, 0);
	if (d->kind == 3) CHECK(!refuse_add, "dial %d: connect did not register with the loop", d->id);
	int64_t took = ms(ds::mono_us() - t0);
	CHECK(kgl_get_tls_selector() == get_selector_by_index(d->sel), "dial %d: completed on another loop", d->id);
	switch (d->kind) {
	case 0:
		CHECK(r < 0, "[connect-timeout-result] dial %d: a connect that nobody answered reports success (%d) when it times out", d->id, r);
		CHECK(took + lo_slack >= limit, "dial %d: the connect was ended after %lld ms; its time-out is %lld ms", d->id, (long long)took, (long long)limit);
		CHECK(took <= limit + hi_base + (d->mult + 1) * hi_step, "dial %d: the connect was ended only after %lld ms; its time-out is %lld ms", d->id, (long long)took, (long long)limit);
		n_conn_to++;
		break;
	case 1:
		CHECK(r == 0, "dial %d: connect to a listening address failed (%d)", d->id, r);
		CHECK(took <= 500 + hi_base, "dial %d: connect took %lld ms", d->id, (long long)took);
		n_conn_ok++;
		break;
	case 3:
		CHECK(r < 0, "dial %d: a connect that the loop cannot wait for reports %d", d->id, r);
		CHECK(took <= 500 + hi_base, "dial %d: a connect that the loop cannot wait for took %lld ms", d->id, (long long)took);
		n_unreg++;
		break;
	default:
		CHECK(r < 0, "dial %d: a refused connect reports %d", d->id, r);
		CHECK(took <= 500 + hi_base, "dial %d: a refused connect took %lld ms", d->id, (long long)took);
		n_conn_refused++;
	}
	kfiber_net_close(c);
	d->done = true;
	alive--;
	return 0;
}
static void run_case() {
	ds::Config cfg = ds::draw_config(true);
	late_ms = cfg.late_us / 1000 + 1;
	lo_slack = 130 + 2 * late_ms;
	hi_step = 220 + 2 * late_ms;
	hi_base = 400 + 4 * late_ms;
	int nsel = 1 << draw(2);
	rw_tmo = range(1, 4);
	conn_tmo = range(0, 3);
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(conn_tmo, rw_tmo);
	if (conn_tmo == 0) conn_tmo = rw_tmo;
	ds::run_until([] { return false; }, 300);
	int n = size_dist(1, 7);
	int64_t longest = 0;
	for (int i = 0; i < n; i++) {
		Conn *c = new Conn;
		conns.emplace_back(c);
		c->id = i;
		c->sel = (int)draw(nsel);
		int fd[2];
		net::pair(fd, false, chance(1, 2) ? 4000 : 0);
		c->fd = fd[0];
		c->peer_fd = fd[1];
		by_fd[c->fd] = c;
		c->key = 10 + i * 4;
		c->mult = chance(1, 3) ? range(1, 2) : 0;
		c->rt = chance(1, 3);
		c->limit = (int64_t)rw_tmo * 1000 * (c->mult + 1);
		bool reads = !chance(1, 5), writes = chance(1, 3) || !reads;
		auto idle = [&] { return (int)(c->limit * (10 + (int)draw(200)) / 100); };
		if (reads)
			for (int k = size_dist(1, 8); k > 0; k--) {
				if (chance(1, 6))
					c->rd.push_back({IDLE, idle(), 0});
				else
					c->rd.push_back({READ, range(1, 64), (int)draw(4)});
			}
		if (writes)
			for (int k = size_dist(1, 5); k > 0; k--) {
				if (chance(1, 4))
					c->wr.push_back({IDLE, idle(), 0});
				else
					c->wr.push_back({WRITE, size_dist(1, 40000), 0});
			}
		for (int k = size_dist(0, 8); k > 0; k--) {
			// mostly below the time-out, sometimes just around or above it
			int d = chance(1, 6) ? idle() : (int)(c->limit * draw(chance(1, 2) ? 95 : 50) / 100);
			int w = reads && writes ? (int)draw(2) : writes ? 1 : 0;
			c->peer.push_back({d, chance(1, 12) ? PAUSE : w ? DRAIN : SEND, range(1, 80)});
		}
		std::string t;
		int64_t total = 0;
		for (auto &o : c->rd) t += std::string(o.k == IDLE ? " idle " : " read ") + kh::ll(o.n), total += o.k == IDLE ? o.n : 0;
		t += ";";
		for (auto &o : c->wr) t += std::string(o.k == IDLE ? " idle " : " write ") + kh::ll(o.n), total += o.k == IDLE ? o.n : 0;
		t += "; peer:";
		for (auto &a : c->peer) t += std::string(" ") + kh::ll(a.delay) + "ms " + (a.k == SEND ? "send " + kh::ll(a.n) : a.k == DRAIN ? "drain" : "-"), total += a.delay;
		logf("conn %d sel %d time-out %lld ms (x%d)%s:%s", i, c->sel, (long long)c->limit, c->mult + 1, c->rt ? " notify" : "", t.c_str());
		longest = std::max(longest, total + 8 * (c->limit + 2000));
	}
	int nd = chance(1, 2) ? size_dist(1, 4) : 0, lst = -1, lok = -1, lcl = -1;
	std::vector<int> fill;
	if (nd) {
		lst = listener(&full_addr, 0);
		lok = listener(&ok_addr, 100);
		lcl = listener(&closed_addr, -1); // bound but not listening
		for (int i = 0; i < 4; i++) { // fill the accept queue: later connects get no answer
			int s = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
			connect(s, (struct sockaddr *)&full_addr, sizeof full_addr.v4);
			fill.push_back(s);
		}
		for (int i = 0; i < nd; i++) {
			dials.emplace_back(new Dial{i, (int)draw(nsel), chance(1, 3) ? range(1, 2) : 0, (int)weighted({3, 1, 1, 1}), (int)draw(2000)});
			logf("dial %d sel %d kind %d at %d time-out %d s x%d", i, dials[i]->sel, dials[i]->kind, dials[i]->at, conn_tmo, dials[i]->mult + 1);
			longest = std::max(longest, (int64_t)dials[i]->at + (conn_tmo * 1000 + 1000) * (dials[i]->mult + 1));
		}
	}
	io::epoll_add_hook = [](int) {
		bool r = refuse_add;
		refuse_add = false;
		return r;
	};
	io::readv_hook = on_readv;
	io::writev_hook = on_writev;
	alive = n + nd;
	peers = n;
	for (auto &u : conns) {
		Conn *c = u.get();
		ds::spawn([c] { peer(c); });
		c->c = net::conn(c->fd, c->sel);
		c->c->st.base.tmo = c->mult;
		if (c->rt) KBIT_SET(c->c->st.base.st_flags, STF_RTIME_OUT);
		kh::fiber(c->sel, [c] {
			kfiber *w = NULL;
			kfiber_create2(get_selector_by_index(c->sel), kh::run_fiber_fn, new std::function<int()>([c] { return writer(c); }), 0, 0, &w);
			reader(c);
			kfiber_join(w, NULL);
			by_fd[c->fd] = nullptr;
			kfiber_net_close(c->c);
			c->c = nullptr;
			alive--;
			return 0;
		});
	}
	for (auto &u : dials) {
		Dial *d = u.get();
		kh::fiber(d->sel, [d] { return dial(d); });
	}
	bool ok = ds::run_until([] { return alive == 0; }, longest * 2 + 60000);
	if (!ok) {
		for (auto &c : conns) logf("conn %d: open %d pending %d armed %lld last %lld now %lld", c->id, c->c != nullptr, c->pending, (long long)ms(c->armed), (long long)ms(c->last_act), (long long)ms(ds::mono_us()));
		fail("an operation of an idle connection was never ended");
	}
	ds::run_until([] { return peers == 0; }, longest);
	count("reads", n_reads);
	count("writes", n_writes);
	count("writes that had to wait", n_stalled);
	count("time-outs", n_timeouts);
	count("time-out notifications", n_notes);
	count("with a multiplier", n_mult);
	count("idle periods without an operation", n_idle);
	count("connects timed out", n_conn_to);
	count("connects answered", n_conn_ok);
	count("connects refused", n_conn_refused);
	count("connects that could not be registered", n_unreg);
	if (n_timeouts + n_notes + n_conn_to > 0 && (n > 1 || n_reads + n_writes > 0)) nontrivial();
}
Property pbt::property = {
	"C12",
	"1-7 connections (socket pairs, small or default buffers) on 1-2 loops with rw time-outs of 1-4 s and multipliers x1-x3, a third of them asking for read time-out notifications; each has a reader and/or a writer fiber with idle periods, and a plain-thread peer that sends or drains after delays around the time-out; 0-4 connects to addresses that answer, refuse or never answer or whose registration with the loop fails, with connect time-outs of 1-4 s; virtual clock. Oracle: nothing ends earlier than its time-out (times the multiplier) after the wait was last restarted, nothing stays pending without activity longer than that plus a bound (0.7-2 s), a notification leaves the same read working, the bytes stay exact. Non-trivial: something timed out and there was also traffic or another connection.",
	run_case, 1, 60000, 1000000, 30, 500, 300,
	{"the library's cached clock may be behind by one turn of the first loop (100 ms) plus the injected lateness; time-outs may fire that much early", "a write beside a pending read on a connection that asked for notifications is not ended by the time-out (the read takes the notification)"},
};
