// kv: variant=fast:0.5,std:0.3,fastbio:0.2
// Stream connections: every byte once and in order, every result exact.
#include "net.h"
#include "shim.h"
using namespace pbt;

struct Op { int k; int len; std::vector<int> parts; int sleep; bool turn = false; };
enum { WRITE, WRITEV, WRITE_FULL, WRITEV_FULL, CB_WRITE, READ, READV, READ_FULL, CB_READ, CB_NEXT, CB_NEXTW };
static const char *kn[] = {"write", "writev", "write_full", "writev_full", "callback write", "read", "readv", "read_full", "callback read", "callback next", "callback next write"};
struct End {
	int id, sel, fd;
	kconnection *c = nullptr;
	End *peer = nullptr;
	bool raw = false;
	uint32_t key;                // content of what this end writes
	std::vector<Op> wr, rd;
	long total = 0;              // bytes wr will write
	long k_out = 0, k_in = 0;    // transferred by the kernel (hooks)
	long l_out = 0, l_in = 0;    // reported by the library
	bool wr_done = false, rd_done = false, closed = false, shut = false, eof = false;
	bool w_fault = false, r_fault = false; // an error was injected
	int fault_w_at = -1, fault_r_at = -1, n_w = 0, n_r = 0;
	int reg_fails = 0; // registrations with the loop that fail
	int users = 0;
	bool closer = false;
	int shut_at = -1; // local shutdown after this many ms
	int raw_stop = -1; // a raw peer goes away after reading/writing this many bytes
	int w_kernel_results = 0, r_kernel_results = 0;
};
static std::vector<std::unique_ptr<End>> ends;
static End *by_fd[4096];
static Rng *frng;
static int p_short; // of 8
static int alive, n_short, n_again, n_empty, n_fault, n_cb, n_part, n_abort, n_zero_end;

static bool upset(End *e) { // is a failed or ended operation of e explained?
	return e->closed || e->shut || e->peer->closed || e->peer->shut || e->w_fault || e->r_fault || e->peer->w_fault || e->peer->r_fault;
}
static ssize_t cut_readv(int fd, const struct iovec *v, int n) {
	End *e = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
	if (!e) return io::real_readv(fd, v, n);
	struct iovec t[128];
	size_t tot = 0;
	for (int i = 0; i < n; i++) tot += v[i].iov_len;
	if (e->n_r++ == e->fault_r_at) {
		e->r_fault = true;
		n_fault++;
		errno = ECONNRESET;
		return -1;
	}
	size_t lim = tot;
	if (tot > 1 && (int)frng->below(8) < p_short) lim = 1 + frng->below((uint32_t)(frng->below(2) ? tot - 1 : std::min<size_t>(tot - 1, 7 + tot / 30)));
	int m = 0;
	size_t left = lim;
	for (int i = 0; i < n; i++) {
		t[m] = v[i];
		if (t[m].iov_len > left) t[m].iov_len = left;
		left -= t[m].iov_len;
		m++;
		if (left == 0 && lim) break;
	}
	ssize_t r = io::real_readv(fd, t, m);
	if (r > 0) e->k_in += r;
	if (r > 0 && (size_t)r < tot) n_short++;
	if (r < 0 && errno == EAGAIN) {
		n_again++;
		errno = EAGAIN;
	}
	return r;
}
static ssize_t cut_writev(int fd, const struct iovec *v, int n) {
	End *e = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
	if (!e) return io::real_writev(fd, v, n);
	struct iovec t[128];
	size_t tot = 0;
	for (int i = 0; i < n; i++) tot += v[i].iov_len;
	if (e->n_w++ == e->fault_w_at) {
		e->w_fault = true;
		n_fault++;
		errno = EPIPE;
		return -1;
	}
	size_t lim = tot;
	if (tot > 1 && (int)frng->below(8) < p_short) lim = 1 + frng->below((uint32_t)(frng->below(2) ? tot - 1 : std::min<size_t>(tot - 1, 7 + tot / 30)));
	int m = 0;
	size_t left = lim;
	for (int i = 0; i < n; i++) {
		t[m] = v[i];
		if (t[m].iov_len > left) t[m].iov_len = left;
		left -= t[m].iov_len;
		m++;
		if (left == 0 && lim) break;
	}
	ssize_t r = io::real_writev(fd, t, m);
	if (r > 0) e->k_out += r;
	if (r > 0 && (size_t)r < tot) n_short++;
	if (r < 0 && errno == EAGAIN) {
		n_again++;
		errno = EAGAIN;
	}
	return r;
}
struct Bufs { // a buffer vector over separately allocated pieces
	std::vector<std::unique_ptr<char[]>> mem;
	std::vector<kgl_iovec> v;
	std::vector<int> len;
	Bufs(const Op &o) {
		std::vector<int> p = o.parts;
		if (p.empty()) p.push_back(o.len);
		for (int n : p) {
			mem.emplace_back(new char[n ? n : 1]);
			len.push_back(n);
			kgl_iovec x;
			x.iov_base = mem.back().get();
			x.iov_len = n;
			v.push_back(x);
		}
	}
	long total() const {
		long t = 0;
		for (int n : len) t += n;
		return t;
	}
	void set(uint32_t key, long pos) {
		for (size_t i = 0; i < mem.size(); pos += len[i], i++) net::fill(mem[i].get(), key, pos, len[i]);
	}
	void poison() {
		for (size_t i = 0; i < mem.size(); i++) memset(mem[i].get(), 0xEE, len[i]);
	}
	void verify(End *e, long pos, long got) { // what a read delivered
		for (size_t i = 0; i < mem.size(); i++) {
			long n = std::min<long>(got, len[i]);
			long bad = net::mismatch(mem[i].get(), e->peer->key, pos, n);
			CHECK(bad < 0, "end %d: byte %ld of the stream was altered, lost or repeated", e->id, pos + bad);
			for (long j = n; j < len[i]; j++) CHECK((uint8_t)mem[i][j] == 0xEE, "end %d: a read changed its buffer after the %ld bytes it reported", e->id, got);
			got -= n;
			pos += n;
		}
	}
};
static void on_own_loop(End *e, const char *what) {
	CHECK(kgl_get_tls_selector() == get_selector_by_index(e->sel), "end %d: %s completed on another loop", e->id, what);
}
// a result of a write attempt of `want` bytes; false: the connection is over
static bool wrote(End *e, const Op &o, long before, long want, long got, bool full = false) {
	on_own_loop(e, kn[o.k]);
	CHECK(got <= want, "end %d: %s of %ld reports %ld", e->id, kn[o.k], want, got);
	long moved = e->k_out - before;
	CHECK(std::max<long>(got, 0) == moved, "end %d: %s of %ld reports %ld but %ld bytes were transferred", e->id, kn[o.k], want, got, moved);
	e->l_out += std::max<long>(got, 0);
	if (want > 0 && (got <= 0 || (full && got < want))) {
		CHECK(upset(e), "end %d: %s of %ld failed (%ld) on a working connection", e->id, kn[o.k], want, got);
		return false;
	}
	return true;
}
static bool has_read(End *e, const Op &o, Bufs &b, long before, long pos, long want, long got, bool full = false) {
	on_own_loop(e, kn[o.k]);
	CHECK(got <= want, "end %d: %s of %ld reports %ld", e->id, kn[o.k], want, got);
	long moved = e->k_in - before;
	CHECK(std::max<long>(got, 0) == moved, "end %d: %s of %ld reports %ld but %ld bytes were transferred", e->id, kn[o.k], want, got, moved);
	b.verify(e, pos, std::max<long>(got, 0));
	e->l_in += std::max<long>(got, 0);
	if (want > 0 && (got <= 0 || (full && got < want))) {
		CHECK(upset(e), "end %d: %s of %ld ended (%ld) on a working connection", e->id, kn[o.k], want, got);
		e->eof = true;
		return false;
	}
	return true;
}
static void release(End *e) {
	if (--e->users) return;
	// both directions are over: close on the connection's own loop
	e->closed = true;
	by_fd[e->fd] = nullptr;
	kfiber_net_close(e->c);
	e->c = nullptr;
	alive--;
}
// ---- operations in callback style -------------------------------------------
struct Cb {
	End *e;
	const Op *o;
	std::unique_ptr<Bufs> b;
	kgl_iovec iov;
	long before, pos;
	int calls = 0;
	std::function<void(bool)> then;
};
static kev_result cb_done(KOPAQUE data, void *arg, int got) {
	Cb *c = (Cb *)arg;
	CHECK(c->calls++ == 0, "end %d: %s completed twice", c->e->id, kn[c->o->k]);
	CHECK(data == c->e->c->st.data, "end %d: %s completed with another opaque value", c->e->id, kn[c->o->k]);
	bool ok;
	long want = c->b->total();
	if (c->o->k == CB_WRITE) {
		c->b->poison();
		ok = wrote(c->e, *c->o, c->before, want, got);
	} else if (c->o->k == CB_READ) {
		ok = has_read(c->e, *c->o, *c->b, c->before, c->pos, want, got);
	} else {
		// a connection whose other end has closed fails its writers
		CHECK(got == 0 || (got == -1 && c->o->k == CB_NEXTW && upset(c->e)), "end %d: a requested next read/write turn reports %d", c->e->id, got);
		on_own_loop(c->e, "next turn");
		ok = true;
	}
	auto f = std::move(c->then);
	f(ok);
	return kev_ok;
}
static std::vector<std::unique_ptr<Cb>> cbs;
static void start_cb(End *e, const Op &o, long pos, std::function<void(bool)> then) {
	cbs.emplace_back(new Cb{e, &o, std::unique_ptr<Bufs>(new Bufs(o)), {}, 0, pos, 0, then});
	Cb *c = cbs.back().get();
	n_cb++;
	kh::post(e->sel, [c, &o, e] {
		c->iov.iov_base = (char *)c->b->v.data();
		c->iov.iov_len = (int)c->b->v.size();
		if (o.k == CB_WRITE) {
			c->b->set(e->key, c->pos);
			c->before = e->k_out;
			selectable_write(&e->c->st, cb_done, &c->iov, c);
		} else if (o.k == CB_READ) {
			c->b->poison();
			c->before = e->k_in;
			selectable_read(&e->c->st, cb_done, &c->iov, c);
		} else if (o.k == CB_NEXT)
			selectable_next_read(&e->c->st, cb_done, c);
		else
			selectable_next_write(&e->c->st, cb_done, c);
	});
}
static bool cb_wait(End *e, const Op &o, long pos) {
	kfiber_cond *cond = kfiber_cond_init(true);
	bool ok = false;
	start_cb(e, o, pos, [cond, &ok](bool r) {
		ok = r;
		cond->f->notice(cond, 1);
	});
	cond->f->wait(cond, NULL);
	cond->f->release(cond);
	return ok;
}
static void drop(End *e) { // give the connection up after a failed operation
	e->shut = true;
	kfiber_net_shutdown(e->c);
}
static int writer(End *e) {
	long pos = 0;
	for (auto &o : e->wr) {
		if (o.sleep) kfiber_msleep(o.sleep);
		bool ok = true;
		if (o.turn) { // a turn of the loop as a writer first
			Op t = o;
			t.k = CB_NEXTW;
			cb_wait(e, t, pos);
		}
		if (o.k == CB_WRITE) {
			// one attempt may take less than everything: go on with the rest
			Op rest = o;
			while (ok && rest.len > 0) {
				long b4 = e->l_out;
				ok = cb_wait(e, rest, pos);
				pos += e->l_out - b4;
				rest.len -= (int)(e->l_out - b4);
				rest.parts.clear();
				if (ok && rest.len > 0) n_part++;
			}
		} else {
			Bufs b(o);
			b.set(e->key, pos);
			long want = b.total(), before = e->k_out;
			if (o.k == WRITE || o.k == WRITE_FULL) {
				if (o.k == WRITE_FULL) {
					int left = o.len;
					bool r = sh_net_write_full(e->c, b.mem[0].get(), &left);
					b.poison();
					CHECK(r == (left == 0), "end %d: write_full returns %d with %d bytes left", e->id, r, left);
					ok = wrote(e, o, before, want, want - left, true);
					pos += want - left;
				} else {
					while (ok && want > 0) {
						before = e->k_out;
						int got = sh_net_write(e->c, b.mem[0].get() + (o.len - want), (int)want);
						if (got > 0) memset(b.mem[0].get() + (o.len - want), 0xEE, got);
						ok = wrote(e, o, before, want, got);
						if (got > 0) {
							pos += got;
							want -= got;
							if (want) n_part++;
						}
					}
				}
			} else if (o.k == WRITEV_FULL) {
				int bc = (int)b.v.size();
				std::vector<kgl_iovec> v = b.v;
				size_t got = sh_net_writev_full(e->c, v.data(), &bc);
				ok = wrote(e, o, before, want, (long)got, true);
				// the caller sees what is left in the vector
				long left = 0;
				CHECK(bc >= 0 && bc <= (int)v.size(), "end %d: writev_full leaves a buffer count of %d (of %zu)", e->id, bc, v.size());
				for (size_t i = v.size() - bc; i < v.size(); i++) left += v[i].iov_len;
				CHECK(left == want - (long)got, "end %d: writev_full sent %zu of %ld but leaves %ld", e->id, got, want, left);
				if ((long)got == want) CHECK(bc == 0, "[writev-full-empty-tail] end %d: writev_full sent everything but leaves a buffer count of %d", e->id, bc);
				if (bc > 0) {
					size_t i = v.size() - bc;
					CHECK((char *)v[i].iov_base + v[i].iov_len == b.mem[i].get() + b.len[i], "end %d: writev_full leaves a wrong rest", e->id);
				}
				b.poison();
				pos += (long)got;
			} else {
				int got = sh_net_writev(e->c, b.v.data(), (int)b.v.size());
				b.poison();
				ok = wrote(e, o, before, want, got);
				if (got > 0) pos += got;
				if (ok && got < want) { // send the rest
					n_part++;
					Op rest = o;
					rest.len = (int)(want - got);
					rest.parts.clear();
					Bufs rb(rest);
					rb.set(e->key, pos);
					int left = rest.len;
					before = e->k_out;
					rest.k = WRITE_FULL;
					sh_net_write_full(e->c, rb.mem[0].get(), &left);
					ok = wrote(e, rest, before, rest.len, rest.len - left, true);
					pos += rest.len - left;
				}
			}
		}
		if (!ok) {
			drop(e);
			break;
		}
	}
	e->wr_done = true;
	return 0;
}
static bool read_op(End *e, const Op &o) {
	if (o.sleep) kfiber_msleep(o.sleep);
	if (o.k == CB_READ || o.k == CB_NEXT) return cb_wait(e, o, e->l_in);
	Bufs b(o);
	b.poison();
	long pos = e->l_in, before = e->k_in, want = b.total();
	if (o.k == READ) return has_read(e, o, b, before, pos, want, sh_net_read(e->c, b.mem[0].get(), (int)want));
	if (o.k == READV) return has_read(e, o, b, before, pos, want, sh_net_readv(e->c, b.v.data(), (int)b.v.size()));
	int left = o.len;
	bool r = sh_net_read_full(e->c, b.mem[0].get(), &left);
	CHECK(r == (left == 0), "end %d: read_full returns %d with %d bytes left", e->id, r, left);
	return has_read(e, o, b, before, pos, want, want - left, true);
}
static int reader(End *e) {
	size_t i = 0;
	while (!e->eof) {
		long left = e->peer->total - e->l_in;
		if (left <= 0) break;
		Op o = e->rd[i++ % e->rd.size()];
		if (o.k == READ_FULL && o.len > left) o.len = (int)left;
		if (!read_op(e, o)) break;
	}
	e->rd_done = true;
	if (!e->eof && !e->closer && !e->shut) {
		// everything is here; the next thing is the peer's close
		Op o = {READ, 100, {}, 0};
		if (e->rd[0].k == CB_READ) o.k = CB_READ;
		read_op(e, o);
		CHECK(e->eof, "end %d: data after the end of the stream", e->id);
	}
	if (e->eof && !e->wr_done) drop(e);
	return 0;
}
static void raw_peer(End *e) {
	std::vector<char> buf(70000);
	long pos = 0;
	size_t wi = 0;
	long opleft = wi < e->wr.size() ? e->wr[wi].len : 0;
	auto gone = [&] { return e->raw_stop >= 0 && pos + e->l_in >= e->raw_stop; };
	for (;;) {
		bool moved = false;
		if (gone()) break;
		if (pos < e->total) {
			while (opleft <= 0) opleft = e->wr[++wi].len;
			int n = (int)std::min<long>(opleft, 60000);
			if (e->raw_stop >= 0) n = (int)std::min<long>(n, e->raw_stop - pos - e->l_in);
			net::fill(buf.data(), e->key, pos, n);
			ssize_t r = ::send(e->fd, buf.data(), n, MSG_NOSIGNAL);
			if (r > 0) {
				pos += r;
				e->l_out = e->k_out = pos;
				opleft -= r;
				moved = true;
			} else if (r < 0 && errno != EAGAIN) {
				CHECK(upset(e), "raw end %d: send failed: %s", e->id, strerror(errno));
				break;
			}
		} else
			e->wr_done = true;
		ds::yield();
		if (gone()) break;
		Op &o = e->rd[frng->below((uint32_t)e->rd.size())];
		int want = (int)std::min<long>(std::max(1, o.len), 60000);
		if (e->raw_stop >= 0) want = (int)std::min<long>(want, e->raw_stop - pos - e->l_in);
		ssize_t r = ::recv(e->fd, buf.data(), want, 0);
		if (r > 0) {
			long bad = net::mismatch(buf.data(), e->peer->key, e->l_in, r);
			CHECK(bad < 0, "raw end %d: byte %ld of the stream was altered, lost or repeated", e->id, e->l_in + bad);
			e->l_in += r;
			moved = true;
		} else if (r == 0 || errno != EAGAIN) {
			CHECK(upset(e), "raw end %d: the stream ended early", e->id);
			e->eof = true;
		}
		if (e->l_in == e->peer->total) e->rd_done = true;
		if (e->eof || (e->rd_done && e->wr_done && e->closer)) break;
		if (!moved) ds::sleep_ms(1 + frng->below(20));
	}
	if (gone()) n_abort++;
	e->closed = true;
	by_fd[e->fd] = nullptr;
	::close(e->fd);
	alive--;
}
static Op draw_op(bool wr, int cap) { // over TCP little enough that no kernel timer is needed to move it
	Op o;
	static const int wk[] = {WRITE, WRITEV, WRITE_FULL, WRITEV_FULL, CB_WRITE}, rk[] = {READ, READV, READ_FULL, CB_READ, CB_NEXT};
	o.k = wr ? wk[weighted({3, 3, 2, 3, 2})] : rk[weighted({3, 3, 2, 2, 1})];
	o.len = std::min(cap, size_dist(1, chance(1, 6) ? 60000 : 3000));
	o.sleep = chance(1, 6) ? range(1, 250) : 0;
	o.turn = wr && chance(1, 10);
	if (o.k == WRITEV || o.k == WRITEV_FULL || o.k == READV || ((o.k == CB_WRITE || o.k == CB_READ) && chance(1, 2))) {
		int n = size_dist(1, chance(1, 12) ? 120 : 9), left = o.len;
		for (int i = 0; i < n; i++) {
			int p = i == n - 1 ? left : chance(1, 5) ? 0 : (int)draw(std::min(left, 60000) + 1);
			if (chance(1, 2)) p = std::min(p, 20);
			if (i == n - 1) p = left;
			left -= p;
			o.parts.push_back(p);
			if (!p) n_empty++;
		}
		if (chance(1, 6)) { // empty buffers at the end
			for (int i = range(1, 2); i > 0; i--) o.parts.push_back(0);
			n_zero_end++;
		}
	}
	return o;
}
static void run_case() {
	ds::Config cfg = ds::draw_config(true);
	int nsel = 1 << draw(2), nconn = range(1, 3);
	p_short = (int)draw(3) ? (int)draw(7) : 0;
	uint64_t seed = draw_seed();
	Rng r(seed);
	frng = &r;
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(3600, 3600);
	int fds0 = io::open_fds();
	for (int i = 0; i < nconn; i++) {
		int fd[2];
		bool tcp = chance(1, 3);
		net::pair(fd, tcp, !tcp && chance(2, 3) ? (int)size_dist(1, 20000) : 0);
		bool abort = chance(1, 4), both = !chance(1, 3);
		End *p[2];
		for (int j = 0; j < 2; j++) {
			End *e = new End;
			ends.emplace_back(e);
			e->id = (int)ends.size() - 1;
			e->sel = (int)draw(nsel);
			e->fd = fd[j];
			e->key = (uint32_t)e->id + 1 + (uint32_t)(seed & 0xff) * 16;
			by_fd[fd[j]] = e;
			p[j] = e;
			if (j == 0 || both) {
				int n = size_dist(1, 12);
				for (int k = 0; k < n; k++) e->wr.push_back(draw_op(true, tcp ? 4000 : 60000));
			}
			int n = range(1, 6);
			for (int k = 0; k < n; k++) e->rd.push_back(draw_op(false, 60000));
			if (std::all_of(e->rd.begin(), e->rd.end(), [](const Op &o) { return o.k == CB_NEXT; })) e->rd[0].k = READ;
			for (auto &o : e->wr) e->total += o.len;
		}
		p[0]->peer = p[1];
		p[1]->peer = p[0];
		for (auto e : p) // not thousands of tiny reads
			for (auto &o : e->rd)
				if ((long)o.len * 100 < e->peer->total) o.len = (int)(e->peer->total / 100), o.parts.clear();
		p[0]->raw = chance(1, 5);
		p[draw(2)]->closer = true;
		if (abort) {
			switch (draw(5)) {
			case 4: p[draw(2)]->reg_fails = range(1, 2); break;
			case 0: p[draw(2)]->shut_at = (int)draw(600); break;
			case 1: p[draw(2)]->fault_w_at = (int)draw(20); break;
			case 2: p[draw(2)]->fault_r_at = (int)draw(20); break;
			default:
				p[0]->raw = true;
				p[0]->raw_stop = (int)draw((uint32_t)std::min<long>(p[0]->total + p[1]->total, 100000) + 1);
			}
		}
		if (p[0]->raw) p[0]->shut_at = -1;
	}
	if (p_short) logf("short transfers %d/8\n", p_short);
	for (auto &e : ends) {
		std::string t;
		for (auto &o : e->wr) {
			t += std::string(" ") + kn[o.k] + " " + kh::ll(o.len);
			for (size_t k = 0; k < o.parts.size(); k++) t += (k ? "," : "(") + kh::ll(o.parts[k]) + (k + 1 == o.parts.size() ? ")" : "");
			if (o.sleep) t += " after " + kh::ll(o.sleep) + "ms";
		}
		t += "; reads:";
		for (auto &o : e->rd) t += std::string(" ") + kn[o.k] + " " + kh::ll(o.len);
		logf("end %d sel %d%s%s fd %d shut_at %d wfault %d rfault %d regfails %d raw_stop %d, writes %ld:%s", e->id, e->sel, e->raw ? " raw" : "", e->closer ? " closer" : "", e->fd, e->shut_at, e->fault_w_at, e->fault_r_at, e->reg_fails, e->raw_stop, e->total, t.c_str());
	}
	io::readv_hook = cut_readv;
	io::writev_hook = cut_writev;
	io::epoll_add_hook = [](int fd) {
		End *e = fd >= 0 && fd < 4096 ? by_fd[fd] : nullptr;
		if (!e || e->reg_fails <= 0) return false;
		e->reg_fails--;
		e->w_fault = e->r_fault = true;
		n_fault++;
		return true;
	};
	alive = (int)ends.size();
	for (auto &u : ends) {
		End *e = u.get();
		if (e->raw) {
			ds::spawn([e] { raw_peer(e); });
			continue;
		}
		e->c = net::conn(e->fd, e->sel);
		e->users = 1;
		kh::fiber(e->sel, [e] {
			// reader, writer and the optional shutdown share the connection
			kfiber *w = NULL, *s = NULL;
			kfiber_create2(get_selector_by_index(e->sel), kh::run_fiber_fn, new std::function<int()>([e] { return writer(e); }), 0, 0, &w);
			if (e->shut_at >= 0)
				kfiber_create2(get_selector_by_index(e->sel), kh::run_fiber_fn, new std::function<int()>([e] {
					if (e->shut_at) kfiber_msleep(e->shut_at);
					e->shut = true;
					n_abort++;
					return kfiber_net_shutdown(e->c);
				}), 0, 0, &s);
			reader(e);
			kfiber_join(w, NULL);
			if (s) kfiber_join(s, NULL);
			release(e);
			return 0;
		});
	}
	bool ok = ds::run_until([] { return alive == 0; }, 120000);
	if (!ok) {
		for (auto &e : ends)
			logf("end %d: out %ld (reported %ld) of %ld, in %ld (reported %ld), wr_done %d rd_done %d closed %d flags %x\n", e->id, e->k_out, e->l_out, e->total, e->k_in, e->l_in, e->wr_done, e->rd_done, e->closed, e->c ? e->c->st.base.st_flags : 0);
		fail("a connection made no progress for two minutes");
	}
	ds::run_until([] { return false; }, 300);
	long bytes = 0;
	bool moved = false;
	for (auto &e : ends) {
		CHECK(e->l_in <= e->peer->k_out, "end %d received %ld bytes but only %ld were sent", e->id, e->l_in, e->peer->k_out);
		if (!upset(e.get()) || (!e->shut && !e->w_fault && !e->r_fault && !e->peer->shut && !e->peer->w_fault && !e->peer->r_fault && e->raw_stop < 0 && e->peer->raw_stop < 0)) {
			CHECK(e->k_out == e->total && e->l_out == e->total, "end %d: wrote %ld of %ld bytes", e->id, e->l_out, e->total);
			CHECK(e->l_in == e->peer->total, "end %d: received %ld of %ld bytes", e->id, e->l_in, e->peer->total);
		}
		bytes += e->l_in;
		if (e->l_in > 0 && e->n_r > 1) moved = true;
	}
	CHECK(io::open_fds() <= fds0, "%d descriptors are left open", io::open_fds() - fds0);
	count("bytes moved", bytes);
	count("short transfers", n_short);
	count("would-block results", n_again);
	count("empty buffers in a vector", n_empty);
	count("vectors ending in empty buffers", n_zero_end);
	count("injected errors", n_fault);
	count("shutdowns and peers that went away", n_abort);
	count("callback operations", n_cb);
	count("writes that took less than asked", n_part);
	if (moved && (n_short || n_again)) nontrivial();
}
Property pbt::property = {
	"C10",
	"1-3 connections (socket pairs and loopback TCP, random socket buffer sizes) between ends on the same or different loops, or with a plain thread using the raw descriptor as the peer; each end writes 1-12 blocks (write, writev with empty buffers, write_full, writev_full, callback style) and reads with read, readv, read_full, callbacks and requested turns, both directions at once; the kernel's transfers are cut short at random, errors are injected, one side shuts down, resets or goes away at a random moment. Oracle: every byte is the one of its position in the written stream, every result equals what the kernel transferred, full transfers report exactly what is left, an undisturbed connection delivers everything and then the end. Non-trivial: data moved and at least one transfer was short or would have blocked.",
	run_case, 1, 60000, 1000000, 30, 500, 300,
	{"kernel sockets behave as documented; injected would-block results are not used (the kernel gives no edge after them), they come from small socket buffers"},
};
