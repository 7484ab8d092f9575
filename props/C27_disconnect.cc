// kv: variant=fast:0.6,std:0.4
// Watching for the peer's disconnect, and what a local shutdown ends.
#include "net.h"
#include "shim.h"
using namespace pbt;

enum { WATCH, UNWATCH, CREAD, FREAD, CWRITE, FWRITE, SHUT, SLEEP };
static const char *on[] = {"watch", "unwatch", "start read", "read", "start write", "write", "shutdown", "sleep"};
struct Op { int k, n, main; };
enum { P_SEND, P_HALF, P_CLOSE, P_DRAIN };
struct Act { int delay, k, n; };
struct Conn;
struct Watch { Conn *c; int id; int64_t since; bool active = true; int reports = 0; };
struct Io { Conn *c; bool read; std::vector<char> b; kgl_iovec v, wrap; int64_t since; bool done = false; int calls = 0; };
struct Conn {
	int id, sel, fd, peer_fd;
	bool tcp;
	kconnection *c = nullptr;
	std::vector<Op> ops;
	std::vector<Act> peer;
	int64_t gone = -1;  // the peer disconnected (or we shut down) at
	int64_t going = -1; // the peer is about to
	bool shut = false, rpend = false, wpend = false, eof = false, done = false, peer_done = false, wrote = false;
	long in = 0, sent = 0;
	uint32_t key;
	std::vector<std::unique_ptr<Watch>> watches;
	std::vector<std::unique_ptr<Io>> ios;
	Watch *w = nullptr;
	bool small = false;
	long asked = 0;
	int64_t told_at = 0;
	bool told = false; // a watch or a read has already told of it: a new watch need not
};
static std::vector<std::unique_ptr<Conn>> conns;
static int alive, n_reports, n_late_watch, n_replaced, n_removed, n_refused, n_shut_ended, n_eof, n_data_after, n_rewatch;
static int64_t bound_us;

static void on_loop(Conn *c, const char *what) {
	CHECK(kgl_get_tls_selector() == get_selector_by_index(c->sel), "conn %d: %s on another loop", c->id, what);
}
static void end_watch(Conn *c, bool replaced) {
	if (!c->w) return;
	(replaced ? n_replaced : n_removed)++;
	c->w->active = false;
	c->w = nullptr;
}
static void tell(Conn *c) {
	if (!c->told) c->told_at = ds::mono_us();
	c->told = true;
}
static kev_result on_hup(KOPAQUE data, void *arg, int got) {
	Watch *w = (Watch *)arg;
	Conn *c = w->c;
	on_loop(c, "the disconnect is reported");
	CHECK(!c->done, "conn %d: watch %d reported after the connection was closed", c->id, w->id);
	CHECK(w->reports++ == 0, "conn %d: watch %d reported twice", c->id, w->id);
	CHECK(w->active, "conn %d: watch %d reported after it was removed or replaced", c->id, w->id);
	CHECK(c->gone >= 0 || c->going >= 0, "conn %d: watch %d reported a disconnect (%d), but the peer is there", c->id, w->id, got);
	CHECK(data == c->c->st.data, "conn %d: watch %d: wrong opaque value", c->id, w->id);
	w->active = false;
	c->w = nullptr;
	n_reports++;
	tell(c);
	return kev_ok;
}
static void overdue(Conn *c, const char *when) {
	int64_t now = ds::mono_us();
	if (c->gone < 0) return;
	if (c->w && !(c->told && c->w->since >= c->told_at)) CHECK(now - std::max(c->gone, c->w->since) <= bound_us, "%sconn %d: watch %d has not reported the disconnect of %lld ms ago (%s)", c->w->since > c->gone ? "[watch-after-disconnect] " : "", c->id, c->w->id, (long long)(now - c->gone) / 1000, when);
	for (auto &i : c->ios)
		if (!i->done) CHECK(now - std::max(c->gone, i->since) <= bound_us, "conn %d: a %s is still pending %lld ms after the disconnect (%s)", c->id, i->read ? "read" : "write", (long long)(now - c->gone) / 1000, when);
}
static void got_read(Conn *c, const char *b, long got, long want) {
	on_loop(c, "a read completes");
	if (got > 0) {
		CHECK(got <= want, "conn %d: a read of %ld reports %ld", c->id, want, got);
		long bad = net::mismatch(b, c->key, c->in, got);
		CHECK(bad < 0, "conn %d: byte %ld of the stream is wrong", c->id, c->in + bad);
		CHECK(!c->eof || c->tcp, "conn %d: data after the end", c->id);
		c->in += got;
		if (c->gone >= 0) n_data_after++;
		return;
	}
	CHECK(c->gone >= 0 || c->going >= 0, "conn %d: a read ended (%ld), but the peer is there", c->id, got);
	if (!c->tcp && !c->shut) CHECK(c->in == c->sent, "conn %d: the end of the stream came %ld bytes early", c->id, c->sent - c->in);
	c->eof = true;
	tell(c);
	n_eof++;
}
static void got_write(Conn *c, long got, long want) {
	on_loop(c, "a write completes");
	if (got > 0)
		CHECK(got <= want, "conn %d: a write of %ld reports %ld", c->id, want, got);
	else {
		tell(c);
		CHECK(c->gone >= 0 || c->going >= 0, "conn %d: a write failed (%ld), but the peer is there", c->id, got);
	}
}
static kev_result io_done(KOPAQUE, void *arg, int got) {
	Io *i = (Io *)arg;
	Conn *c = i->c;
	CHECK(i->calls++ == 0, "conn %d: a %s completed twice", c->id, i->read ? "read" : "write");
	i->done = true;
	if (i->read) {
		c->rpend = false;
		got_read(c, i->b.data(), got, (long)i->b.size());
	} else {
		c->wpend = false;
		got_write(c, got, (long)i->b.size());
	}
	if (got <= 0 && c->shut) n_shut_ended++;
	return kev_ok;
}
static void on_main(Conn *c, bool main, std::function<void()> f) {
	if (!main) return f();
	kfiber_cond *cond = kfiber_cond_init(true);
	kh::post(c->sel, [&f, cond] {
		f();
		cond->f->notice(cond, 1);
	});
	cond->f->wait(cond, NULL);
	cond->f->release(cond);
}
static int control(Conn *c) {
	for (auto &o : c->ops) {
		overdue(c, on[o.k]);
		switch (o.k) {
		case WATCH:
			if (c->w) break;
			on_main(c, o.main, [c] {
				bool busy = c->rpend || c->wpend;
				Watch *w = new Watch{c, (int)c->watches.size(), ds::mono_us()};
				c->watches.emplace_back(w);
				if (!busy) {
					if (c->watches.size() > 1) n_rewatch++;
					c->w = w;
					if (c->gone >= 0 && !c->told) n_late_watch++;
				} else
					w->active = false;
				bool r = selectable_readhup(&c->c->st, on_hup, w);
				CHECK(r == !busy, "conn %d: watching %s although %s", c->id, r ? "was accepted" : "was refused", busy ? "an operation is pending" : "nothing is pending");
				if (busy) n_refused++;
			});
			break;
		case UNWATCH:
			on_main(c, o.main, [c] {
				end_watch(c, false);
				selectable_remove_readhup(&c->c->st);
			});
			break;
		case CREAD:
		case CWRITE: {
			bool rd = o.k == CREAD;
			if (rd ? c->rpend : c->wpend) break;
			Io *i = new Io{c, rd, std::vector<char>(o.n), {}, {}, ds::mono_us()};
			c->ios.emplace_back(i);
			i->v.iov_base = i->b.data();
			i->v.iov_len = i->b.size();
			i->wrap.iov_base = (char *)&i->v;
			i->wrap.iov_len = 1;
			on_main(c, o.main, [c, i, rd, &o] {
				end_watch(c, true);
				(rd ? c->rpend : c->wpend) = true;
				if (!rd) c->wrote = true, c->asked += o.n;
				i->since = ds::mono_us();
				if (rd)
					selectable_read(&c->c->st, io_done, &i->wrap, i);
				else
					selectable_write(&c->c->st, io_done, &i->wrap, i);
			});
			break;
		}
		case FREAD: {
			if (c->rpend || (c->sent == c->in && c->gone < 0 && !(c->peer.size() && (c->peer.back().k == P_CLOSE || c->peer.back().k == P_HALF)))) break; // would wait for ever
			std::vector<char> b(o.n);
			end_watch(c, true);
			c->rpend = true;
			int64_t t0 = ds::mono_us();
			int got = sh_net_read(c->c, b.data(), o.n);
			c->rpend = false;
			if (c->gone >= 0) CHECK(ds::mono_us() - std::max(t0, c->gone) <= bound_us, "conn %d: a read waited %lld ms after the disconnect", c->id, (long long)(ds::mono_us() - c->gone) / 1000);
			got_read(c, b.data(), got, o.n);
			break;
		}
		case FWRITE: {
			if (c->wpend || (c->small && c->wrote) || c->asked > 50000) break; // might wait for ever
			std::vector<char> b(o.n, 'x');
			end_watch(c, true);
			c->wrote = true;
			c->wpend = true;
			int got = sh_net_write(c->c, b.data(), o.n);
			c->wpend = false;
			got_write(c, got, o.n);
			break;
		}
		case SHUT:
			c->shut = true;
			if (c->gone < 0) c->gone = ds::mono_us();
			kfiber_net_shutdown(c->c);
			break;
		default: kfiber_msleep(o.n);
		}
	}
	while (!c->peer_done) kfiber_msleep(50);
	if (c->gone >= 0 || c->w) kfiber_msleep((int)(bound_us / 1000) + 100);
	overdue(c, "end");
	if (c->gone >= 0 && !c->shut && !c->rpend && !c->eof) { // the rest of the data and the end
		for (int k = 0; k < 2000 && !c->eof; k++) {
			char b[100];
			end_watch(c, true);
			got_read(c, b, sh_net_read(c->c, b, sizeof b), sizeof b);
		}
		CHECK(c->eof, "conn %d: no end of stream", c->id);
	}
	if (c->rpend || c->wpend) {
		c->shut = true;
		if (c->gone < 0) c->gone = ds::mono_us();
		kfiber_net_shutdown(c->c);
		kfiber_msleep((int)(bound_us / 1000) + 100);
		overdue(c, "after shutdown");
		CHECK(!c->rpend && !c->wpend, "conn %d: a local shutdown has not ended the pending operation", c->id);
	}
	end_watch(c, false);
	selectable_remove_readhup(&c->c->st);
	c->done = true;
	kfiber_net_close(c->c);
	c->c = nullptr;
	alive--;
	return 0;
}
static void peer(Conn *c) {
	std::vector<char> buf(20000);
	bool open = true;
	auto drain = [&] {
		while (::recv(c->peer_fd, buf.data(), buf.size(), MSG_DONTWAIT) > 0) {}
	};
	for (auto &a : c->peer) {
		ds::sleep_ms(a.delay);
		if (!open) break;
		ds::yield();
		switch (a.k) {
		case P_SEND: {
			net::fill(buf.data(), c->key, c->sent, a.n);
			ssize_t r = ::send(c->peer_fd, buf.data(), a.n, MSG_NOSIGNAL | MSG_DONTWAIT);
			if (r > 0) c->sent += r;
			break;
		}
		case P_DRAIN: drain(); break;
		default:
			if (a.n & 1) drain();
			if (c->going < 0) c->going = ds::mono_us();
			if (a.k == P_HALF)
				::shutdown(c->peer_fd, SHUT_WR);
			else {
				::close(c->peer_fd);
				c->peer_fd = -1;
			}
			if (c->gone < 0) c->gone = ds::mono_us();
			open = false;
		}
	}
	c->peer_done = true;
}
static void run_case() {
	ds::Config cfg = ds::draw_config(true);
	bound_us = 600000 + 4 * cfg.late_us;
	int nsel = 1 << draw(2), n = size_dist(1, 4);
	kh::boot(nsel, cfg);
	int64_t longest = 0;
	for (int i = 0; i < n; i++) {
		Conn *c = new Conn;
		conns.emplace_back(c);
		c->id = i;
		c->sel = (int)draw(nsel);
		c->tcp = chance(1, 3);
		int fd[2];
		c->small = !c->tcp && chance(1, 3);
		net::pair(fd, c->tcp, c->small ? 3000 : 0);
		c->fd = fd[0];
		c->peer_fd = fd[1];
		c->key = 20 + i;
		std::string t;
		for (int k = size_dist(1, 14); k > 0; k--) {
			Op o;
			static const int ks[] = {WATCH, SLEEP, UNWATCH, CREAD, FREAD, CWRITE, FWRITE, SHUT};
			o.k = ks[weighted({6, 4, 2, 2, 2, 1, 2, chance(1, 4) ? 1u : 0u})];
			o.n = o.k == SLEEP ? (int)draw(900) + 1 : o.k == CWRITE ? size_dist(1, 20000) : range(1, o.k == FWRITE ? 30 : 200);
			o.main = (int)draw(2);
			c->ops.push_back(o);
			t += std::string(" ") + on[o.k] + (o.k > UNWATCH && o.k != SHUT ? " " + kh::ll(o.n) : "") + (o.main ? "*" : "");
			if (o.k == SLEEP) longest += o.n;
		}
		t += "; peer:";
		int na = size_dist(0, 5);
		for (int k = 0; k < na; k++) c->peer.push_back({(int)draw(500), chance(1, 4) ? P_DRAIN : P_SEND, range(1, 150)});
		if (chance(4, 5)) c->peer.push_back({(int)draw(chance(1, 2) ? 1500 : 300), chance(1, 2) ? P_CLOSE : P_HALF, (int)draw(2)});
		for (auto &a : c->peer) {
			static const char *pn[] = {"send", "half-close", "close", "drain"};
			t += std::string(" ") + kh::ll(a.delay) + "ms " + pn[a.k] + (a.k == P_SEND ? " " + kh::ll(a.n) : "");
			longest += a.delay;
		}
		logf("conn %d %s sel %d:%s", i, c->tcp ? "tcp" : "unix", c->sel, t.c_str());
	}
	alive = n;
	for (auto &u : conns) {
		Conn *c = u.get();
		c->c = net::conn(c->fd, c->sel);
		ds::spawn([c] { peer(c); });
		kh::fiber(c->sel, [c] { return control(c); });
	}
	bool ok = ds::run_until([] { return alive == 0; }, longest * 2 + 30000);
	if (!ok) {
		for (auto &c : conns) logf("conn %d done %d rpend %d wpend %d watch %d gone %lld flags %x", c->id, c->done, c->rpend, c->wpend, c->w != nullptr, (long long)c->gone, c->c ? c->c->st.base.st_flags : 0);
		fail("an operation was never ended");
	}
	ds::run_until([] { return false; }, 300);
	count("disconnects reported", n_reports);
	count("watches started after the disconnect", n_late_watch);
	count("watches started again", n_rewatch);
	count("watches replaced by a read or write", n_replaced);
	count("watches removed", n_removed);
	count("watches refused (operation pending)", n_refused);
	count("operations ended by a local shutdown", n_shut_ended);
	count("ends of stream", n_eof);
	count("data read after the disconnect", n_data_after);
	if (n_reports) nontrivial();
}
Property pbt::property = {
	"C27",
	"1-4 connections (socket pairs, loopback TCP) on 1-2 loops; a fiber runs 1-14 steps (watch, remove the watch, start or do a read or write from the loop or a fiber, local shutdown, sleep) while a plain-thread peer sends, drains, half-closes or closes at random moments. Oracle: a watch reports once, only after the disconnect and only while it is in force, and within a bound of 0.6 s also when the disconnect came first; reads see all remaining data and then the end; a shutdown ends pending operations once. Non-trivial: at least one disconnect was reported to a watch.",
	run_case, 1, 60000, 1000000, 25, 400, 300,
	{"remaining data is required only on socket pairs (a TCP reset may discard it)"},
};
