// kv: variant=fast:0.6,std:0.4
// Sendfile: exactly the file's range, in its place in the stream, exact results.
#include "net.h"
#include "shim.h"
#include <sys/stat.h>
using namespace pbt;

enum { SEND, SEND_FULL, CB_SEND, WRITE_FULL, WRITEV, SEEK, SLEEP };
static const char *on[] = {"sendfile", "sendfile_full", "callback sendfile", "write_full", "writev", "seek", "sleep"};
struct Op { int k, f, len; int64_t off; };
struct File { std::string path; uint32_t key; int64_t base; long size; int shared = -1; // one open file description behind several handles
	 int64_t total() const { return base + size; } };
struct Conn {
	int id, sel, psel, fd, pfd;
	bool tcp, raw;
	std::vector<Op> ops;
	std::vector<int> rsz;
	int bind = 0; // bit per file: bound to a duplicate of a shared descriptor
	kconnection *c = nullptr, *pc = nullptr;
	std::string expect;   // what the peer has to receive
	long out = 0, k_out = 0; // reported / transferred
	long in = 0;          // received by the peer
	long back = 0, back_in = 0; // the other direction
	int reg_fails = 0;
	int fault_at = -1, n_w = 0, stop_at = -1, shut_at = -1;
	bool fault = false, gone = false, failed = false, wdone = false, shut = false;
	int users = 0, pusers = 0;
};
static std::vector<File> files;
static std::vector<std::unique_ptr<Conn>> conns;
static Conn *by_fd[4096];
static Rng *frng;
static int p_short, alive;
static long n_send, n_short, n_again, n_eof, n_fault, n_cb, n_big, n_gone, n_part, n_bytes, n_shared;

static char file_byte(const File &f, int64_t off) { return off < f.base ? 0 : (char)net::byte_at(f.key, (uint64_t)(off - f.base)); }
static ssize_t cut_sendfile(int o, int i, off_t *off, size_t n) {
	Conn *c = o >= 0 && o < 4096 ? by_fd[o] : nullptr;
	if (!c) return io::real_sendfile(o, i, off, n);
	if (c->n_w++ == c->fault_at) {
		c->fault = true;
		n_fault++;
		errno = frng->below(2) ? EIO : ECONNRESET;
		return -1;
	}
	size_t lim = n;
	if (n > 1 && (int)frng->below(8) < p_short) lim = 1 + frng->below((uint32_t)(frng->below(2) ? n - 1 : std::min<size_t>(n - 1, 7 + n / 30)));
	ssize_t r = io::real_sendfile(o, i, off, lim);
	int e = errno;
	if (r > 0) c->k_out += r;
	if (r > 0 && (size_t)r < n) n_short++;
	if (r < 0 && e == EAGAIN) n_again++;
	errno = e;
	return r;
}
static ssize_t cut_writev(int fd, const struct iovec *v, int n) {
	Conn *c = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
	if (!c) return io::real_writev(fd, v, n);
	if (c->n_w++ == c->fault_at) {
		c->fault = true;
		n_fault++;
		errno = EPIPE;
		return -1;
	}
	struct iovec t[64];
	size_t tot = 0;
	for (int i = 0; i < n; i++) tot += v[i].iov_len;
	size_t lim = tot;
	if (tot > 1 && (int)frng->below(8) < p_short) lim = 1 + frng->below((uint32_t)(tot - 1));
	int m = 0;
	size_t left = lim;
	for (int i = 0; i < n && (left || !lim); i++) {
		t[m] = v[i];
		if (t[m].iov_len > left) t[m].iov_len = left;
		left -= t[m++].iov_len;
	}
	ssize_t r = io::real_writev(fd, t, m);
	if (r > 0) c->k_out += r;
	return r;
}
static bool upset(Conn *c) { return c->fault || c->gone || c->shut; }
static void own(Conn *c, const char *w) { CHECK(kgl_get_tls_selector() == get_selector_by_index(c->sel), "conn %d: %s completes on another loop", c->id, w); }
struct Cb { Conn *c; kfiber_cond *cond; kfiber_file *fp; int got; int calls; };
static kev_result on_sent(KOPAQUE data, void *arg, int got) {
	Cb *b = (Cb *)arg;
	CHECK(b->calls++ == 0, "conn %d: a sendfile completes twice", b->c->id);
	CHECK(data == b->c->c->st.data, "conn %d: a sendfile completes with another opaque value", b->c->id);
	own(b->c, "sendfile");
	b->got = got;
	b->cond->f->notice(b->cond, 1);
	return kev_ok;
}
static int sender(Conn *c) {
	std::vector<kfiber_file *> fp;
	std::vector<int64_t> pos;
	for (auto &f : files) {
		bool sh = (c->bind >> fp.size() & 1) && f.shared >= 0;
		kfiber_file *x = sh ? kfiber_file_bind(fcntl(f.shared, F_DUPFD_CLOEXEC, 0)) : kfiber_file_open(f.path.c_str(), fileRead, 0);
		n_shared += sh;
		CHECK(x, "cannot open %s: %s", f.path.c_str(), strerror(errno));
		CHECK(kfiber_file_size(x) == f.total(), "file size is %lld, not %lld", (long long)kfiber_file_size(x), (long long)f.total());
		fp.push_back(x);
		int64_t at = f.base;
		kfiber_file_seek(x, seekBegin, at);
		pos.push_back(at);
	}
	for (size_t n = 0; n < c->ops.size() && !c->failed; n++) {
		Op &o = c->ops[n];
		long before = c->k_out, mark = (long)c->expect.size(), moved;
		int64_t rest = files[o.f].total() - pos[o.f];
		long can = std::max<int64_t>(0, std::min<int64_t>(o.len, rest));
		switch (o.k) {
		case SLEEP: kfiber_msleep(o.len); break;
		case SEEK:
			kfiber_file_seek(fp[o.f], seekBegin, o.off);
			pos[o.f] = o.off;
			break;
		case SEND:
		case SEND_FULL:
		case CB_SEND: {
			n_send++;
			n_big += pos[o.f] > 0xffffffffll;
			for (long i = 0; i < can; i++) c->expect += file_byte(files[o.f], pos[o.f] + i);
			long got;
			bool full = true;
			if (o.k == SEND_FULL) {
				int left = o.len;
				full = sh_sendfile_full(c->c, fp[o.f], &left);
				got = o.len - left;
				CHECK(full == (left == 0), "conn %d: sendfile_full of %d returns %d with %d left", c->id, o.len, full, left);
			} else if (o.k == SEND) {
				got = kfiber_sendfile(c->c, fp[o.f], o.len);
			} else {
				n_cb++;
				Cb b = {c, kfiber_cond_init(true), fp[o.f], 0, 0};
				kgl_iovec v;
				v.iov_base = (char *)fp[o.f];
				v.iov_len = o.len;
				kh::post(c->sel, [c, &v, &b] { selectable_sendfile(&c->c->st, on_sent, &v, &b); });
				b.cond->f->wait(b.cond, NULL);
				b.cond->f->release(b.cond);
				got = b.got;
				if (got > 0) kfiber_file_seek(fp[o.f], seekCur, got); // callback style: the caller keeps the position
			}
			own(c, on[o.k]);
			moved = c->k_out - before;
			CHECK(std::max<long>(got, 0) == moved, "conn %d: %s of %d at %lld reports %ld but %ld bytes were transferred", c->id, on[o.k], o.len, (long long)pos[o.f], got, moved);
			CHECK(got <= can, "conn %d: %s of %d at %lld (of %lld) reports %ld", c->id, on[o.k], o.len, (long long)pos[o.f], (long long)files[o.f].total(), got);
			pos[o.f] += moved;
			CHECK(kfiber_file_tell(fp[o.f]) == pos[o.f], "conn %d: after %s sent %ld bytes the position is %lld, not %lld", c->id, on[o.k], moved, (long long)kfiber_file_tell(fp[o.f]), (long long)pos[o.f]);
			if (can < o.len && moved == can) n_eof++;
			if (can > 0 && (got <= 0 || (o.k == SEND_FULL && moved < can))) {
				CHECK(upset(c), "conn %d: %s of %d at %lld failed (%ld) on a working connection", c->id, on[o.k], o.len, (long long)pos[o.f], got);
				c->failed = true;
			}
			if (can == 0) CHECK(got <= 0 && (got == 0 || upset(c)), "conn %d: %s with nothing to send reports %ld", c->id, on[o.k], got);
			if (moved < can) n_part++;
			break;
		}
		case WRITE_FULL: {
			std::string b;
			for (int i = 0; i < o.len; i++) b += (char)net::byte_at(77, mark + i);
			c->expect += b;
			int left = o.len;
			bool ok = sh_net_write_full(c->c, b.data(), &left);
			own(c, on[o.k]);
			moved = c->k_out - before;
			CHECK(o.len - left == moved && ok == (left == 0), "conn %d: write_full of %d leaves %d but %ld bytes were transferred", c->id, o.len, left, moved);
			if (!ok) {
				CHECK(upset(c), "conn %d: write_full failed on a working connection", c->id);
				c->failed = true;
			}
			break;
		}
		case WRITEV: {
			std::string b;
			for (int i = 0; i < o.len; i++) b += (char)net::byte_at(78, mark + i);
			c->expect += b;
			kgl_iovec v[3];
			int a = o.len / 3;
			v[0].iov_base = &b[0];
			v[0].iov_len = a;
			v[1].iov_base = &b[a];
			v[1].iov_len = 0;
			v[2].iov_base = &b[a];
			v[2].iov_len = o.len - a;
			long got = sh_net_writev(c->c, v, 3);
			own(c, on[o.k]);
			moved = c->k_out - before;
			CHECK(std::max<long>(got, 0) == moved, "conn %d: writev of %d reports %ld but %ld bytes were transferred", c->id, o.len, got, moved);
			if (got <= 0) {
				CHECK(upset(c), "conn %d: writev failed on a working connection", c->id);
				c->failed = true;
			}
			break;
		}
		}
		moved = c->k_out - before;
		CHECK(c->in <= mark + moved, "conn %d: the peer received %ld bytes after %s %zu, which sent up to %ld", c->id, c->in, on[o.k], n, mark + moved);
		c->expect.resize(mark + moved);
		c->out += moved;
	}
	for (auto f : fp) kfiber_file_close(f);
	c->wdone = true;
	c->shut = true;
	selectable_shutdown(&c->c->st); // ends the own reader as well
	return 0;
}
static void got_bytes(Conn *c, const char *b, long n) {
	CHECK(c->in + n <= (long)c->expect.size(), "conn %d: the peer received %ld bytes, but only %zu were sent", c->id, c->in + n, c->expect.size());
	if (memcmp(b, c->expect.data() + c->in, n))
		for (long i = 0; i < n; i++) CHECK(b[i] == c->expect[c->in + i], "conn %d: byte %ld of the stream is %02x, not %02x", c->id, c->in + i, (uint8_t)b[i], (uint8_t)c->expect[c->in + i]);
	c->in += n;
}
static void peer_end(Conn *c, bool full) {
	if (full) CHECK(upset(c) && (c->wdone || c->fault), "conn %d: the stream ended early", c->id);
}
static int back_reader(Conn *c) { // the sending end also receives
	std::vector<char> b(2000);
	for (;;) {
		int r = sh_net_read(c->c, b.data(), 1 + (int)(c->back_in % 1999));
		own(c, "read");
		if (r <= 0) {
			CHECK(upset(c), "conn %d: reading ended (%d) on a working connection", c->id, r);
			return 0;
		}
		long bad = net::mismatch(b.data(), 99, c->back_in, r);
		CHECK(bad < 0, "conn %d: byte %ld of the other direction is wrong", c->id, c->back_in + bad);
		c->back_in += r;
	}
}
static int lib_peer(Conn *c) {
	std::vector<char> b(60000);
	size_t i = 0;
	for (;;) {
		if (c->stop_at >= 0 && c->in >= c->stop_at) {
			n_gone++;
			break;
		}
		int r = sh_net_read(c->pc, b.data(), c->rsz[i++ % c->rsz.size()]);
		if (r <= 0) {
			peer_end(c, true);
			break;
		}
		got_bytes(c, b.data(), r);
	}
	c->gone = true;
	by_fd[c->pfd] = nullptr;
	kfiber_net_close(c->pc);
	alive--;
	return 0;
}
static void raw_peer(Conn *c) {
	std::vector<char> b(60000);
	long sent = 0;
	for (;;) {
		if (c->stop_at >= 0 && c->in >= c->stop_at) {
			n_gone++;
			break;
		}
		bool moved = false;
		if (sent < c->back) {
			int n = (int)std::min<long>(c->back - sent, 1 + frng->below(3000));
			net::fill(b.data(), 99, sent, n);
			ssize_t r = ::send(c->pfd, b.data(), n, MSG_NOSIGNAL);
			if (r > 0) sent += r, moved = true;
			if (r < 0 && errno != EAGAIN) CHECK(upset(c), "conn %d: the peer's send failed: %s", c->id, strerror(errno));
			ds::yield();
		}
		ssize_t r = ::recv(c->pfd, b.data(), c->rsz[frng->below((uint32_t)c->rsz.size())], 0);
		if (r > 0) {
			got_bytes(c, b.data(), r);
			moved = true;
		} else if (r == 0 || errno != EAGAIN) {
			peer_end(c, true);
			break;
		}
		if (!moved) ds::sleep_ms(1 + frng->below(30));
	}
	c->gone = true;
	::close(c->pfd);
	alive--;
}
static void run_case() {
	ds::Config cfg = ds::draw_config(true);
	int nsel = 1 << draw(2), nconn = range(1, 3);
	p_short = (int)draw(3) ? (int)draw(7) : 0;
	Rng r(draw_seed());
	frng = &r;
	// files
	int nf = range(1, 3);
	for (int i = 0; i < nf; i++) {
		File f;
		f.path = std::string(scratch_dir()) + "/f" + kh::ll(i);
		f.key = 1000 + i;
		f.base = chance(1, 5) ? (chance(1, 2) ? 0x100000000ll : 0x7ffff000ll) + (int64_t)draw(0x3000) : 0;
		f.size = chance(1, 10) ? 0 : size_dist(1, 90000);
		int fd = ::open(f.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0600);
		std::vector<char> b(f.size + 1);
		net::fill(b.data(), f.key, 0, f.size);
		if (fd < 0 || (f.size && io::real_pwrite(fd, b.data(), f.size, f.base) != f.size) || (!f.size && f.base && ftruncate(fd, f.base))) discard("scratch file");
		::close(fd);
		if (chance(1, 2)) f.shared = ::open(f.path.c_str(), O_RDONLY | O_CLOEXEC);
		files.push_back(f);
		logf("file %d: %ld bytes at %lld", i, f.size, (long long)f.base);
	}
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(3600, 3600);
	int fds0 = io::open_fds();
	for (int i = 0; i < nconn; i++) {
		int fd[2];
		Conn *c = new Conn;
		conns.emplace_back(c);
		c->id = i;
		c->tcp = chance(1, 3);
		net::pair(fd, c->tcp, !c->tcp && chance(2, 3) ? (int)size_dist(1, 20000) : 0);
		c->fd = fd[0];
		c->pfd = fd[1];
		c->raw = chance(1, 2);
		c->sel = (int)draw(nsel);
		c->psel = (int)draw(nsel);
		c->back = c->raw && chance(1, 2) ? size_dist(1, 5000) : 0;
		c->bind = (int)draw(8);
		long budget = c->tcp ? 40000 : 200000;
		int n = size_dist(1, 14);
		std::string t;
		for (int k = 0; k < n; k++) {
			Op o;
			static const int kinds[] = {SEND, SEND_FULL, CB_SEND, WRITE_FULL, WRITEV, SEEK, SLEEP};
			o.k = kinds[weighted({6, 5, 3, 3, 2, 3, 1})];
			o.f = (int)draw(nf);
			o.off = 0;
			File &f = files[o.f];
			o.len = o.k == SLEEP ? range(1, 250) : o.k == WRITE_FULL || o.k == WRITEV ? size_dist(1, 3000) : chance(1, 6) ? (int)std::min<long>(f.size + draw(3), 90000) : size_dist(1, 60000);
			if (o.k == SEEK) o.off = f.base + (chance(1, 5) ? (int64_t)f.size + draw(3) : (int64_t)draw((uint32_t)f.size + 1));
			if (o.k < SEEK) {
				if (budget <= 0) continue;
				o.len = (int)std::min<long>(o.len, budget);
				budget -= o.len;
			}
			if (o.k == SEND && chance(1, 30)) o.len = 0;
			c->ops.push_back(o);
			t += std::string(" ") + on[o.k] + (o.k == SEEK ? " f" + kh::ll(o.f) + "@" + kh::ll(o.off) : o.k < WRITE_FULL ? " f" + kh::ll(o.f) + ":" + kh::ll(o.len) : " " + kh::ll(o.len));
		}
		n = range(1, 4);
		for (int k = 0; k < n; k++) c->rsz.push_back(std::max(size_dist(1, 60000), (int)((c->tcp ? 40000 : 200000) - budget) / 200 + 1));
		if (chance(1, 5)) switch (draw(3)) {
			case 2: c->reg_fails = range(1, 2); c->fault_at = 1 << 30; break;
			case 0: c->fault_at = (int)draw(20); break;
			default: c->stop_at = (int)draw(40000);
			}
		by_fd[c->fd] = c;
		logf("conn %d: loop %d, %s%s, %s peer, back %ld, fault %d, stop %d, short %d/8:%s", i, c->sel, c->tcp ? "tcp" : "unix", "", c->raw ? "raw" : "library", c->back, c->fault_at, c->stop_at, p_short, t.c_str());
	}
	io::epoll_add_hook = [](int fd) {
		Conn *c = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
		if (!c || c->reg_fails <= 0) return false;
		c->reg_fails--;
		c->fault = true;
		n_fault++;
		return true;
	};
	io::sendfile_hook = cut_sendfile;
	io::writev_hook = cut_writev;
	for (auto &u : conns) {
		Conn *c = u.get();
		alive += 2;
		if (c->raw)
			ds::spawn([c] { raw_peer(c); });
		else {
			c->pc = net::conn(c->pfd, c->psel);
			kh::fiber(c->psel, [c] { return lib_peer(c); });
		}
		c->c = net::conn(c->fd, c->sel);
		kh::fiber(c->sel, [c] {
			kfiber *rd = NULL;
			if (c->back) kfiber_create2(get_selector_by_index(c->sel), kh::run_fiber_fn, new std::function<int()>([c] { return back_reader(c); }), 0, 0, &rd);
			sender(c);
			if (rd) kfiber_join(rd, NULL);
			by_fd[c->fd] = nullptr;
			kfiber_net_close(c->c);
			alive--;
			return 0;
		});
	}
	bool ok = ds::run_until([] { return alive == 0; }, 120000);
	if (!ok) {
		for (auto &c : conns) logf("conn %d: sent %ld, received %ld of %zu, wdone %d", c->id, c->k_out, c->in, c->expect.size(), c->wdone);
		fail("a connection made no progress for two minutes");
	}
	ds::run_until([] { return false; }, 300);
	bool good = false;
	for (auto &c : conns) {
		n_bytes += c->in;
		if (c->in > 0) good = true;
		if (c->fault_at < 0 && c->stop_at < 0) {
			CHECK(c->in == (long)c->expect.size(), "conn %d: the peer received %ld of %zu bytes", c->id, c->in, c->expect.size());
			CHECK(!c->failed, "conn %d: failed without a cause", c->id);
		}
	}
	CHECK(io::open_fds() <= fds0, "%d descriptors are left open", io::open_fds() - fds0);
	for (auto &f : files)
		if (f.shared >= 0) ::close(f.shared);
	count("handles that share an open file", n_shared);
	count("sendfile calls", n_send);
	count("short transfers", n_short);
	count("would-block results", n_again);
	count("ranges reaching the end of the file", n_eof);
	count("positions beyond 4 GB", n_big);
	count("callback style", n_cb);
	count("calls that sent less than they could", n_part);
	count("injected errors", n_fault);
	count("peers that went away", n_gone);
	count("bytes moved", n_bytes);
	if (good && n_send && (n_short || n_again)) nontrivial();
}
Property pbt::property = {
	"C14",
	"1-3 connections (socket pairs with small buffers, loopback TCP); each sends 1-14 operations: sendfile, sendfile_full, callback-style sendfile, interleaved write_full/writev, seeks and sleeps, from 1-3 files (0-90 KB, some placed beyond 2 or 4 GB in a sparse file, ranges beyond the end), opened or bound to duplicates of one shared descriptor; kernel transfers are cut short at random, errors injected, the peer (raw thread or library fiber on any loop) reads in generated pieces, sends the other way, or goes away. Oracle: the peer's bytes equal the concatenation of the file ranges and writes, each call reports exactly what the kernel transferred, the file position advances by exactly that, nothing fails on a working connection. Non-trivial: data was sent by sendfile with a short or would-block transfer.",
	run_case, 1, 60000, 1000000, 30, 400, 200,
	{"kernel sendfile and sockets behave as documented"},
};
