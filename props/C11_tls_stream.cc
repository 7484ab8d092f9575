// kv: variant=fast:0.35,std:0.2,fastbio:0.3,stdbio:0.15
// TLS connections: the stream of bytes between two ends, whatever the transport.
#include "net.h"
#include "shim.h"
#include "certs.h"
#include <openssl/rand.h>
#include <sys/ioctl.h>
using namespace pbt;

#ifdef ENABLE_KSSL_BIO
static const bool bio_mode = true;
#else
static const bool bio_mode = false;
#endif
enum { WRITE, WRITEV, WRITE_FULL, WRITEV_FULL, CB_WRITE, READ, READV, READ_FULL, CB_READ };
static const char *kn[] = {"write", "writev", "write_full", "writev_full", "callback write", "read", "readv", "read_full", "callback read"};
struct Op { int k, len; std::vector<int> parts; int sleep; bool moved; };
struct Link;
struct End {
	int id, sel, fd;
	bool raw = false, server = false, closer = false, cb_handshake = false;
	int close_how = 0; // 0 close, 1 shutdown first, 2 callback style close from the loop, 3 from the callback of a read
	kconnection *c = nullptr;
	SSL *ssl = nullptr;
	End *peer = nullptr;
	Link *link = nullptr;
	uint32_t key;
	std::vector<Op> wr, rd;
	int key_updates = 0;
	long total = 0, l_out = 0, l_in = 0;
	long offered = 0; // bytes handed to a write, whether or not it was reported as taken
	bool hs = false, hs_fail = false, wr_done = false, rd_done = false, eof = false, broken = false, closed = false, closing = false, orderly = false, writing = false;
	int last = 1; // the result that ended reading
	int shut_at = -1;
	bool shut = false, upd = false;
	int users = 0;
	bool early = false;         // a raw client that starts with early data
	long early_len = 0;
};
struct Link { // the transport between two ends
	End *e[2];
	bool proxy = false, hit = false; // hit: the transport was damaged
	int p[2];        // the proxy's descriptors
	int piece[2], delay[2];
	long cut_at[2], flip_at[2];
	int flip_bit;
	long moved[2] = {0, 0};
	bool abandoned() const { return hit || e[0]->shut || e[1]->shut; }
};
static std::vector<std::unique_ptr<End>> ends;
static std::vector<std::unique_ptr<Link>> links;
static SSL_CTX *sctx, *cctx;
static Rng *frng, *rrng;
static SSL_SESSION *session;
static int alive, n_hs, n_hs_fail, n_part, n_orderly, n_cut, n_flip, n_rejected, n_pieces, n_upd, n_moved, n_multi, n_early, n_cb_close;

static int rnd_bytes(unsigned char *b, int n) {
	for (int i = 0; i < n; i++) b[i] = (unsigned char)rrng->next();
	return 1;
}
static int rnd_status() { return 1; }
static const RAND_METHOD rnd_meth = {NULL, rnd_bytes, NULL, NULL, rnd_bytes, rnd_status};

struct Bufs {
	std::vector<std::unique_ptr<char[]>> mem;
	std::vector<kgl_iovec> v;
	std::vector<int> len;
	Bufs(const Op &o) {
		std::vector<int> p = o.parts;
		if (p.empty()) p.push_back(o.len);
		for (int n : p) {
			mem.emplace_back(new char[n ? n : 1]);
			len.push_back(n);
			kgl_iovec x;
			x.iov_base = mem.back().get();
			x.iov_len = n;
			v.push_back(x);
		}
	}
	void set(uint32_t key, long pos) {
		for (size_t i = 0; i < mem.size(); pos += len[i], i++) net::fill(mem[i].get(), key, pos, len[i]);
	}
	void poison() {
		for (size_t i = 0; i < mem.size(); i++) memset(mem[i].get(), 0xEE, len[i]);
	}
	void verify(End *e, long pos, long got) {
		for (size_t i = 0; i < mem.size(); i++) {
			long n = std::min<long>(got, len[i]);
			long bad = net::mismatch(mem[i].get(), e->peer->key, pos, n);
			CHECK(bad < 0, "end %d: byte %ld of the stream was altered, lost or repeated", e->id, pos + bad);
			for (long j = n; j < len[i]; j++) CHECK((uint8_t)mem[i][j] == 0xEE, "end %d: a read changed its buffer after the %ld bytes it reported", e->id, got);
			got -= n;
			pos += n;
		}
	}
};
static void received(End *e, long got) {
	e->l_in += got;
	CHECK(e->l_in <= e->peer->offered, "end %d received %ld bytes but only %ld were written", e->id, e->l_in, e->peer->offered);
}
static bool over(End *e) { return e->link->abandoned() || e->closed || e->closing || e->peer->closing || e->peer->shut || e->shut; }
static bool wrote(End *e, const Op &o, long want, long got, bool full) {
	CHECK(kgl_get_tls_selector() == get_selector_by_index(e->sel), "end %d: %s completed on another loop", e->id, kn[o.k]);
	CHECK(got <= want, "end %d: %s of %ld reports %ld", e->id, kn[o.k], want, got);
	e->l_out += std::max<long>(got, 0);
	if (got <= 0 || (full && got < want)) {
		CHECK(over(e), "end %d: %s of %ld failed (%ld) on a working connection", e->id, kn[o.k], want, got);
		return false;
	}
	return true;
}
static bool has_read(End *e, const Op &o, Bufs &b, long want, long got, int raw_result, bool full) {
	CHECK(kgl_get_tls_selector() == get_selector_by_index(e->sel), "end %d: %s completed on another loop", e->id, kn[o.k]);
	CHECK(got <= want, "end %d: %s of %ld reports %ld", e->id, kn[o.k], want, got);
	b.verify(e, e->l_in, std::max<long>(got, 0));
	received(e, std::max<long>(got, 0));
	if (got <= 0 || (full && got < want)) {
		CHECK(over(e), "end %d: %s of %ld ended (%ld) on a working connection", e->id, kn[o.k], want, got);
		e->eof = true;
		e->last = raw_result;
		return false;
	}
	return true;
}
struct Cb {
	End *e;
	kgl_iovec iov;
	kfiber_cond *cond;
	int got, calls = 0;
};
static kev_result cb_done(KOPAQUE data, void *arg, int got) {
	Cb *c = (Cb *)arg;
	CHECK(c->calls++ == 0, "end %d: an operation completed twice", c->e->id);
	c->got = got;
	c->cond->f->notice(c->cond, 1);
	return kev_ok;
}
static std::vector<std::unique_ptr<Cb>> cbs;
static int cb_op(End *e, bool wr, Bufs &b) {
	cbs.emplace_back(new Cb{e, {}, kfiber_cond_init(true), 0});
	Cb *c = cbs.back().get();
	c->iov.iov_base = (char *)b.v.data();
	c->iov.iov_len = (int)b.v.size();
	kh::post(e->sel, [=] {
		if (e->shut) { // nobody may start writing during a shutdown
			cb_done(NULL, c, -1);
			return;
		}
		wr ? selectable_write(&e->c->st, cb_done, &c->iov, c) : selectable_read(&e->c->st, cb_done, &c->iov, c);
	});
	c->cond->f->wait(c->cond, NULL);
	c->cond->f->release(c->cond);
	return c->got;
}
static void drop(End *e) {
	if (e->shut) return;
	e->shut = true;
	kfiber_net_shutdown(e->c);
}
// one write operation, repeated until everything of o is taken
static bool write_op(End *e, const Op &o) {
	Op cur = o;
	std::unique_ptr<Bufs> b(new Bufs(cur));
	long pos = e->offered, want = o.len;
	b->set(e->key, pos);
	e->offered += want;
	long off = 0; // taken from the single buffer
	for (;;) {
		if (e->shut) return false; // nobody may start writing during a shutdown
		int got;
		bool full = false;
		long left = want;
		switch (cur.k) {
		case WRITE: got = sh_net_write(e->c, b->mem[0].get() + off, (int)want); break;
		case WRITEV: got = sh_net_writev(e->c, b->v.data(), (int)b->v.size()); break;
		case CB_WRITE: {
			if (off) b->v[0].iov_base = b->mem[0].get() + off, b->v[0].iov_len = want;
			got = cb_op(e, true, *b);
			break;
		}
		case WRITE_FULL: {
			int l = (int)want;
			bool r = sh_net_write_full(e->c, b->mem[0].get() + off, &l);
			CHECK(r == (l == 0), "end %d: write_full returns %d with %d bytes left", e->id, r, l);
			got = (int)want - l;
			full = true;
			break;
		}
		default: {
			int bc = (int)b->v.size();
			got = (int)sh_net_writev_full(e->c, b->v.data(), &bc);
			full = true;
			left = 0;
			for (size_t i = b->v.size() - bc; i < b->v.size(); i++) left += b->v[i].iov_len;
			CHECK(left == want - got, "end %d: writev_full sent %d of %ld but leaves %ld", e->id, got, want, left);
		}
		}
		if (!wrote(e, o, want, got, full)) return false;
		pos += got;
		want -= got;
		if (want == 0) return true;
		n_part++;
		// go on with the rest, from the same memory or from a copy
		if (o.moved || !o.parts.empty()) {
			if (o.moved) n_moved++;
			if (o.moved || b->v.size() == 1) {
				Op rest = {WRITE_FULL, (int)want, {}, 0, true};
				std::unique_ptr<Bufs> nb(new Bufs(rest));
				nb->set(e->key, pos);
				b->poison();
				b = std::move(nb);
				cur = rest;
				off = 0;
			} else { // drop what was taken from the vector
				long g = got;
				size_t i = 0;
				while (i < b->v.size() && g >= (long)b->v[i].iov_len) g -= b->v[i++].iov_len;
				b->v.erase(b->v.begin(), b->v.begin() + i);
				b->v[0].iov_base = (char *)b->v[0].iov_base + g;
				b->v[0].iov_len -= g;
				n_multi++;
			}
		} else
			off += got;
	}
}
static int writer(End *e) {
	e->writing = true;
	for (auto &o : e->wr) {
		if (o.sleep) kfiber_msleep(o.sleep);
		if (e->shut || !write_op(e, o)) {
			drop(e);
			break;
		}
	}
	e->writing = false;
	e->wr_done = true;
	return 0;
}
static bool read_op(End *e, const Op &o) {
	if (o.sleep) kfiber_msleep(o.sleep);
	Bufs b(o);
	b.poison();
	int want = o.len;
	if (o.k == READ_FULL) {
		int left = want;
		bool r = sh_net_read_full(e->c, b.mem[0].get(), &left);
		CHECK(r == (left == 0), "end %d: read_full returns %d with %d bytes left", e->id, r, left);
		return has_read(e, o, b, want, want - left, 99, true);
	}
	int got = o.k == READ ? sh_net_read(e->c, b.mem[0].get(), want) : o.k == READV ? sh_net_readv(e->c, b.v.data(), (int)b.v.size()) : cb_op(e, false, b);
	return has_read(e, o, b, want, got, got, false);
}
static void reader(End *e) {
	size_t i = 0;
	while (!e->eof) {
		long left = e->peer->total - e->l_in;
		if (left <= 0) break;
		Op o = e->rd[i++ % e->rd.size()];
		if (o.k == READ_FULL && o.len > left) o.len = (int)left;
		read_op(e, o);
	}
	e->rd_done = true;
	if (!e->eof && !e->closer && !e->shut) {
		read_op(e, {e->rd[0].k == CB_READ ? CB_READ : READ, 100, {}, 0, false});
		CHECK(e->eof, "end %d: data after the end of the stream", e->id);
	}
	if (e->eof && !e->wr_done) drop(e);
}
struct Hs { kfiber_cond *cond; int got, calls; };
static kev_result hs_done(KOPAQUE, void *arg, int got) {
	Hs *h = (Hs *)arg;
	CHECK(h->calls++ == 0, "a handshake completed twice");
	h->got = got;
	h->cond->f->notice(h->cond, 1);
	return kev_ok;
}
static int handshake(End *e) {
	if (!e->cb_handshake) return kfiber_ssl_handshake(e->c);
	Hs *h = new Hs{kfiber_cond_init(true), 7, 0};
	kh::post(e->sel, [=] { kconnection_ssl_handshake(e->c, hs_done, h); });
	h->cond->f->wait(h->cond, NULL);
	return h->got;
}
static void finish(End *e) {
	// with the memory transport a server's handshake ends with its session tickets written
	while (bio_mode && e->hs && !e->server && !e->peer->hs && !over(e)) kfiber_msleep(20);
	bool quiet = !e->link->abandoned() && !e->hs_fail && !e->eof;
	if (quiet) e->orderly = true; // this end closes a healthy connection
	e->closing = true;
	if (e->close_how >= 2) {
		struct Gone { End *e; kfiber_cond *cond; int times; };
		static std::vector<std::unique_ptr<Gone>> gone;
		gone.emplace_back(new Gone{e, kfiber_cond_init(true), 0});
		Gone *g = gone.back().get();
		kgl_cleanup_add(e->c->pool, [](void *p) {
			Gone *g = (Gone *)p;
			CHECK(!g->times++, "end %d: destroyed twice", g->e->id);
			CHECK(kgl_get_tls_selector() == get_selector_by_index(g->e->sel), "end %d: destroyed on another loop", g->e->id);
			g->e->closed = true;
			g->cond->f->notice(g->cond, 1);
		}, g);
		n_cb_close++;
		bool in_read = e->close_how == 3 && e->eof && !e->shut;
		kh::post(e->sel, [=] {
			if (!in_read) {
				kconnection_destroy(e->c);
				return;
			}
			static char b[64];
			static kgl_iovec v = {b, sizeof b}, arr;
			arr.iov_base = (char *)&v, arr.iov_len = 1;
			selectable_read(&e->c->st, [](KOPAQUE, void *arg, int got) -> kev_result {
				End *e = (End *)arg;
				CHECK(got <= 0, "end %d: read %d bytes after the end of the stream", e->id, got);
				return kconnection_destroy(e->c);
			}, &arr, e);
		});
		g->cond->f->wait(g->cond, NULL);
		alive--;
		return;
	}
	if (e->close_how && !e->shut) kfiber_net_shutdown(e->c);
	e->closed = true;
	kfiber_net_close(e->c);
	alive--;
}
static int library_end(End *e) {
	bool r = e->server ? kconnection_ssl_accept(e->c, sctx) : kconnection_ssl_connect(e->c, cctx, NULL);
	CHECK(r, "cannot set up TLS");
	int h = handshake(e);
	CHECK(h == 0 || h == -1, "end %d: handshake returns %d", e->id, h);
	if (h != 0) {
		CHECK(over(e) || e->peer->hs_fail, "end %d: the handshake failed on a working connection", e->id);
		e->hs_fail = true;
		n_hs_fail++;
		finish(e);
		return 0;
	}
	CHECK(kgl_get_tls_selector() == get_selector_by_index(e->sel), "end %d: handshake completed on another loop", e->id);
	e->hs = true;
	n_hs++;
	kfiber *w = NULL, *s = NULL;
	kfiber_create2(get_selector_by_index(e->sel), kh::run_fiber_fn, new std::function<int()>([e] { return writer(e); }), 0, 0, &w);
	if (e->shut_at >= 0)
		kfiber_create2(get_selector_by_index(e->sel), kh::run_fiber_fn, new std::function<int()>([e] {
			if (e->shut_at) kfiber_msleep(e->shut_at);
			drop(e);
			return 0;
		}), 0, 0, &s);
	reader(e);
	kfiber_join(w, NULL);
	if (s) kfiber_join(s, NULL);
	finish(e);
	return 0;
}
// a session for resumption, from a handshake in memory
static int got_session(SSL *, SSL_SESSION *s) {
	if (!session && SSL_SESSION_is_resumable(s) && SSL_SESSION_get_max_early_data(s) > 0) {
		session = s;
		return 1;
	}
	return 0;
}
static void make_session() {
	SSL *a = SSL_new(sctx), *b = SSL_new(cctx);
	BIO *x, *y;
	BIO_new_bio_pair(&x, 100000, &y, 100000);
	SSL_set_bio(a, x, x);
	SSL_set_bio(b, y, y);
	SSL_set_accept_state(a);
	SSL_set_connect_state(b);
	char c;
	for (int i = 0; i < 20; i++) {
		SSL_do_handshake(b);
		SSL_do_handshake(a);
		if (SSL_is_init_finished(a) && SSL_is_init_finished(b)) SSL_read(b, &c, 1);
	}
	SSL_free(a);
	SSL_free(b);
	ERR_clear_error();
}
// ---- a plain OpenSSL peer on its own thread ----------------------------------
static void raw_end(End *e) {
	SSL *s = SSL_new(e->server ? sctx : cctx);
	SSL_set_mode(s, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER | SSL_MODE_ENABLE_PARTIAL_WRITE);
	SSL_set_fd(s, e->fd);
	e->server ? SSL_set_accept_state(s) : SSL_set_connect_state(s);
	std::vector<char> buf(70000);
	long pos = 0, opleft = e->wr.empty() ? 0 : e->wr[0].len;
	size_t wi = 0;
	int asked = 0, idle = 0;
	bool done = false;
	long early = 0; // bytes sent as early data
	if (e->early) SSL_set_session(s, SSL_SESSION_dup(session));
	while (!done) {
		bool moved = false;
		if (!e->hs && early < e->early_len) {
			size_t n = 1 + frng->below((uint32_t)(e->early_len - early)), w = 0;
			if (asked) n = (size_t)asked;
			net::fill(buf.data(), e->key, early, n);
			e->offered = std::max<long>(e->offered, early + (long)n);
			ERR_clear_error();
			if (SSL_write_early_data(s, buf.data(), n, &w) == 1) {
				early += (long)w;
				moved = frng->below(2);
				asked = 0;
			} else {
				asked = (int)n;
				int err = SSL_get_error(s, 0);
				if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
					CHECK(over(e) || e->peer->hs_fail, "raw end %d: early data could not be sent on a working connection (%d %s)", e->id, err, ERR_error_string(ERR_peek_error(), NULL));
					e->hs_fail = true;
					break;
				}
			}
		} else if (!e->hs) {
			ERR_clear_error();
			int r = SSL_do_handshake(s);
			if (r == 1) {
				e->hs = moved = true;
				n_hs++;
				if (early && SSL_get_early_data_status(s) == SSL_EARLY_DATA_ACCEPTED) {
					n_early++;
					e->l_out = pos = early;
					while (opleft <= early && pos < e->total) {
						early -= opleft;
						opleft = e->wr[++wi].len;
					}
					opleft -= early;
				}
			} else {
				int err = SSL_get_error(s, r);
				if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
					CHECK(over(e) || e->peer->hs_fail, "raw end %d: the handshake failed on a working connection (%d)", e->id, err);
					e->hs_fail = true;
					n_hs_fail++;
					break;
				}
			}
		} else {
			if (pos < e->total) {
				while (opleft <= 0) opleft = e->wr[++wi].len;
				// OpenSSL cannot answer a requested update while a write is stuck
				if (asked == 0 && e->key_updates && SSL_version(s) == TLS1_3_VERSION) {
					e->key_updates--;
					if (SSL_key_update(s, bio_mode && frng->below(2) ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED)) n_upd++, e->upd = true;
				}
				int n = asked ? asked : (int)std::min<long>(opleft, 60000);
				net::fill(buf.data(), e->key, pos, n);
				e->offered = std::max(e->offered, pos + n);
				ERR_clear_error();
				int r = SSL_write(s, buf.data(), n);
				if (r > 0) {
					asked = 0;
					pos += r;
					e->l_out = pos;
					opleft -= r;
					moved = true;
				} else {
					asked = n;
					int err = SSL_get_error(s, r);
					if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
						CHECK(over(e), "raw end %d: writing failed on a working connection (%d)", e->id, err);
						e->broken = true;
						break;
					}
				}
			} else
				e->wr_done = true;
			ds::yield();
			Op &o = e->rd[frng->below((uint32_t)e->rd.size())];
			ERR_clear_error();
			int want = std::min(std::max(1, o.len), 60000);
			int r = SSL_read(s, buf.data(), want);
			if (r > 0) {
				long bad = net::mismatch(buf.data(), e->peer->key, e->l_in, r);
				CHECK(bad < 0, "raw end %d: byte %ld of the stream was altered, lost or repeated", e->id, e->l_in + bad);
				received(e, r);
				moved = true;
			} else {
				int err = SSL_get_error(s, r);
				if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
					CHECK(over(e), "raw end %d: the stream ended early (%d)", e->id, err);
					e->eof = true;
					e->last = err == SSL_ERROR_ZERO_RETURN ? 0 : -1;
				}
			}
			if (e->l_in == e->peer->total) e->rd_done = true;
			if (e->eof) done = true;
			else if (e->rd_done && e->wr_done && e->closer && (!bio_mode || e->peer->hs || over(e)) && (!e->upd || e->peer->rd_done || over(e))) {
				// (a reader that must answer a key update cannot once this end is gone)
				// let session tickets and the like arrive first
				if (!moved && ++idle > 5) {
					e->orderly = !e->link->abandoned();
					e->closing = true;
					SSL_shutdown(s);
					done = true;
				}
			}
		}
		if (!moved) ds::sleep_ms(1 + frng->below(20));
	}
	e->closed = e->closing = true;
	::shutdown(e->fd, SHUT_RDWR);
	::close(e->fd);
	SSL_free(s);
	alive--;
}
// ---- the transport ------------------------------------------------------------
static void run_proxy(Link *l) {
	std::string q[2];
	bool in_end[2] = {false, false}, out_end[2] = {false, false};
	int64_t hit_at = -1, ready[2] = {0, 0}, last = 0;
	char buf[65536];
	for (;;) {
		bool moved = false;
		int64_t now = ds::mono_us() / 1000;
		for (int d = 0; d < 2; d++) { // from e[d] to e[1-d]
			if (!in_end[d] && q[d].size() < 65536) {
				ssize_t r = ::recv(l->p[d], buf, (size_t)1 + frng->below((uint32_t)l->piece[d]), 0);
				if (r > 0) {
					if (q[d].empty()) ready[d] = now + (l->delay[d] ? frng->below((uint32_t)l->delay[d] + 1) : 0);
					q[d].append(buf, r);
					moved = true;
				} else if (r == 0 || errno != EAGAIN)
					in_end[d] = true;
			}
			if (!q[d].empty() && now >= ready[d] && !out_end[d]) {
				size_t n = std::min<size_t>(q[d].size(), 1 + frng->below((uint32_t)l->piece[d]));
				if (l->cut_at[d] >= 0 && l->moved[d] + (long)n >= l->cut_at[d]) {
					n = (size_t)(l->cut_at[d] - l->moved[d]);
					if (!l->hit) n_cut++;
					l->hit = true;
					hit_at = now - 3000;
				}
				long f = l->flip_at[d];
				bool flip = f >= l->moved[d] && f < l->moved[d] + (long)n;
				if (flip) {
					q[d][f - l->moved[d]] ^= (char)(1 << l->flip_bit);
					if (!l->hit) n_flip++, hit_at = now;
					l->hit = true;
				}
				if (n) {
					ssize_t r = ::send(l->p[1 - d], q[d].data(), n, MSG_NOSIGNAL);
					if (r > 0) {
						if (flip && f >= l->moved[d] + r) q[d][f - l->moved[d]] ^= (char)(1 << l->flip_bit); // not sent yet
						l->moved[d] += r;
						q[d].erase(0, r);
						n_pieces++;
						ready[d] = now + (l->delay[d] ? frng->below((uint32_t)l->delay[d] + 1) : 0);
						moved = true;
					} else {
						if (flip) q[d][f - l->moved[d]] ^= (char)(1 << l->flip_bit);
						if (errno != EAGAIN) q[d].clear(), out_end[d] = true;
					}
				}
			}
			if (in_end[d] && (q[d].empty() || out_end[d])) {
				if (!out_end[d]) ::shutdown(l->p[1 - d], SHUT_WR);
				out_end[d] = true;
			}
		}
		if (moved) last = now;
		// an end is gone and the other does not read: give up
		if ((in_end[0] || in_end[1]) && now > last + 60000) break;
		if (hit_at >= 0 && now >= hit_at + 3000) break;
		if (out_end[0] && out_end[1]) break;
		if ((l->e[0]->closed && l->e[1]->closed)) break;
		if (!moved) ds::sleep_ms(1 + frng->below(10));
		else ds::yield();
	}
	::close(l->p[0]);
	::close(l->p[1]);
	alive--;
}
static Op draw_op(bool wr, int cap) {
	Op o;
	static const int wk[] = {WRITE, WRITEV, WRITE_FULL, WRITEV_FULL, CB_WRITE}, rk[] = {READ, READV, READ_FULL, CB_READ};
	o.k = wr ? wk[weighted({3, 3, 2, 3, 2})] : rk[weighted({3, 3, 2, 2})];
	o.len = std::min(cap, size_dist(1, chance(1, 5) ? 100000 : chance(1, 4) ? 20000 : 3000));
	o.sleep = chance(1, 6) ? range(1, 250) : 0;
	o.moved = wr && chance(1, 3);
	if (o.k == WRITEV || o.k == WRITEV_FULL || o.k == READV || ((o.k == CB_WRITE || o.k == CB_READ) && chance(1, 2))) {
		int n = size_dist(1, chance(1, 12) ? 90 : 9), left = o.len;
		for (int i = 0; i < n; i++) {
			int p = i == n - 1 ? left : chance(1, 6) ? 0 : (int)draw(std::min(left, 60000) + 1);
			if (chance(1, 2)) p = std::min(p, 20);
			if (i == n - 1) p = left;
			left -= p;
			o.parts.push_back(p);
		}
	}
	return o;
}
static SSL_CTX *make_ctx(bool server, const char *proto) {
	SSL_CTX *ctx;
	if (server) {
		static std::string cert = std::string("data:") + certs::alpha_crt, key = std::string("data:") + certs::alpha_key;
		kgl_ref_str_t c, k;
		c.data = (char *)cert.c_str(), c.len = cert.size(), c.ref = 1;
		k.data = (char *)key.c_str(), k.len = key.size(), k.ref = 1;
		ctx = kgl_ssl_ctx_new_server2(&c, &k, NULL, NULL, NULL);
	} else
		ctx = kgl_ssl_ctx_new_client(NULL, NULL, NULL);
	if (!ctx) fail("cannot create a TLS context");
	if (proto) kgl_ssl_ctx_set_protocols(ctx, proto);
	return ctx;
}
static void run_case() {
	ds::Config cfg = ds::draw_config(true);
	int nsel = 1 << draw(2), nconn = range(1, 3);
	uint64_t seed = draw_seed();
	Rng r(seed), rr(seed * 77 + 5);
	frng = &r;
	rrng = &rr;
	const char *proto = pick(std::vector<const char *>{NULL, "TLSv1.2", "TLSv1.3", "TLSv1.2 TLSv1.3"});
	RAND_set_rand_method(&rnd_meth);
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(3600, 3600);
	bool early = chance(1, 4);
	if (early) proto = NULL;
	sctx = make_ctx(true, NULL);
	cctx = make_ctx(false, proto);
	if (early) {
		kgl_ssl_ctx_set_early_data(sctx, true);
		SSL_CTX_set_session_cache_mode(cctx, SSL_SESS_CACHE_CLIENT | SSL_SESS_CACHE_NO_INTERNAL);
		SSL_CTX_sess_set_new_cb(cctx, got_session);
		make_session();
		CHECK(session, "no session to resume");
	}
	logf("%s client protocols %s", bio_mode ? "memory BIO," : "socket BIO,", proto ? proto : "(default)");
	int fds0 = io::open_fds();
	for (int i = 0; i < nconn; i++) {
		Link *l = new Link;
		links.emplace_back(l);
		int fd[2], fd2[2];
		l->proxy = chance(1, 2);
		bool tcp = chance(1, 4);
		int sndbuf = !tcp && chance(2, 3) ? (int)size_dist(1, 20000) : 0;
		net::pair(fd, tcp, sndbuf);
		if (l->proxy) {
			net::pair(fd2, tcp, sndbuf);
			l->p[0] = fd[1];
			l->p[1] = fd2[0];
			fd[1] = fd2[1];
		}
		for (int d = 0; d < 2; d++) {
			l->piece[d] = (int)size_dist(1, chance(1, 2) ? 60000 : 500);
			l->delay[d] = chance(1, 2) ? 0 : range(1, 300);
			l->cut_at[d] = l->flip_at[d] = -1;
		}
		l->flip_bit = 0;
		bool damage = l->proxy && chance(1, 2), abort = !damage && chance(1, 5);
		End *p[2];
		for (int j = 0; j < 2; j++) {
			End *e = new End;
			ends.emplace_back(e);
			e->id = (int)ends.size() - 1;
			e->sel = (int)draw(nsel);
			e->fd = fd[j];
			e->link = l;
			e->key = (uint32_t)e->id + 1 + (uint32_t)(seed & 0xff) * 16;
			p[j] = l->e[j] = e;
			if (j == 0 || !chance(1, 3)) {
				int n = size_dist(1, 8);
				for (int k = 0; k < n; k++) e->wr.push_back(draw_op(true, tcp ? 4000 : 100000));
			}
			int n = range(1, 5);
			for (int k = 0; k < n; k++) e->rd.push_back(draw_op(false, 60000));
			for (auto &o : e->wr) e->total += o.len;
			e->cb_handshake = chance(1, 4);
			e->close_how = (int)draw(4);
			e->key_updates = chance(1, 3) ? range(1, 3) : 0;
		}
		p[0]->peer = p[1];
		p[1]->peer = p[0];
		p[draw(2)]->server = true;
		for (auto e : p)
			for (auto &o : e->rd)
				if ((long)o.len * 100 < e->peer->total) o.len = (int)(e->peer->total / 100), o.parts.clear();
		if (l->proxy)
			for (int d = 0; d < 2; d++) // not thousands of tiny pieces
				{
				if ((long)l->piece[d] * 400 < p[d]->total) l->piece[d] = (int)(p[d]->total / 400), l->delay[d] = std::min(l->delay[d], 20);
				l->delay[d] = std::min(l->delay[d], 10 + l->piece[d]);
			}
		p[0]->raw = chance(2, 5);
		// (a TCP client that closes with unread session tickets resets the connection)
		int closer = (int)draw(2);
		if (tcp && !p[closer]->server) closer = 1 - closer;
		p[closer]->closer = true;
		if (damage) {
			int d = (int)draw(2);
			long at = (long)draw((uint32_t)(4000 + p[d]->total + 1));
			if (chance(1, 2)) l->cut_at[d] = at;
			else {
				l->flip_at[d] = at;
				l->flip_bit = (int)draw(8);
			}
		}
		if (abort) p[draw(2)]->shut_at = (int)draw(600);
		if (p[0]->raw) p[0]->shut_at = -1;
		if (early && sndbuf == 0 /* OpenSSL counts a blocked attempt twice */ && p[0]->raw && !p[0]->server && p[0]->total > 0 && !chance(1, 4)) {
			p[0]->early = true;
			p[0]->closer = true, p[1]->closer = false; // (the server's handshake ends while it reads)
			p[0]->early_len = 1 + draw((uint32_t)std::min<long>(p[0]->total, 12000));
		}
		std::string t;
		if (l->proxy) {
			for (int d = 0; d < 2; d++) t += " [pieces " + kh::ll(l->piece[d]) + " delay " + kh::ll(l->delay[d]) + " cut " + kh::ll(l->cut_at[d]) + " flip " + kh::ll(l->flip_at[d]) + "]";
		}
		logf("connection %d: %s sndbuf %d%s%s", i, tcp ? "tcp" : "socketpair", sndbuf, l->proxy ? " through a proxy" : "", t.c_str());
		for (auto e : p) {
			std::string t;
			for (auto &o : e->wr) {
				t += std::string(" ") + kn[o.k] + " " + kh::ll(o.len);
				for (size_t k = 0; k < o.parts.size(); k++) t += (k ? "," : "(") + kh::ll(o.parts[k]) + (k + 1 == o.parts.size() ? ")" : "");
				if (o.sleep) t += " after " + kh::ll(o.sleep) + "ms";
				if (o.moved) t += " moved";
			}
			t += "; reads:";
			for (auto &o : e->rd) t += std::string(" ") + kn[o.k] + " " + kh::ll(o.len);
			logf("  end %d sel %d%s%s%s%s shut_at %d, writes %ld:%s", e->id, e->sel, e->server ? " server" : " client", e->raw ? " raw" : "", e->closer ? " closer" : "", e->early ? (" early data " + kh::ll(e->early_len)).c_str() : "", e->shut_at, e->total, t.c_str());
		}
	}
	for (auto &l : links) {
		for (auto e : l->e) {
			alive++;
			if (e->raw) {
				ds::spawn([e] { raw_end(e); });
				continue;
			}
			e->c = net::conn(e->fd, e->sel);
			kh::fiber(e->sel, [e] { return library_end(e); });
		}
		if (l->proxy) {
			alive++;
			Link *p = l.get();
			ds::spawn([p] { run_proxy(p); });
		}
	}
	bool ok = ds::run_until([] { return alive == 0; }, 300000);
	if (!ok) {
		for (auto &e : ends)
			logf("end %d: hs %d fail %d out %ld of %ld, in %ld, wr_done %d rd_done %d eof %d closed %d flags %x\n", e->id, e->hs, e->hs_fail, e->l_out, e->total, e->l_in, e->wr_done, e->rd_done, e->eof, e->closed, e->c && !e->closed ? e->c->st.base.st_flags : 0);
#ifdef ENABLE_KSSL_BIO
		for (auto &e : ends)
			if (e->c && !e->closed) {
				int n = -1;
				ioctl(e->fd, FIONREAD, &n);
				logf("end %d: %d bytes in the socket, %d in the read BIO, %d in the write BIO, %d decoded\n", e->id, n, (int)BIO_pending(e->c->st.ssl->bio[OP_READ].bio), (int)BIO_pending(e->c->st.ssl->bio[OP_WRITE].bio), SSL_pending(e->c->st.ssl->ssl));
			}
#endif
		for (auto &l : links)
			if (l->proxy) logf("proxy moved %ld, %ld bytes\n", l->moved[0], l->moved[1]);
		fail("a connection made no progress for minutes");
	}
	ds::run_until([] { return false; }, 300);
	long bytes = 0;
	bool frag = false, two = false;
	for (auto &e : ends) {
		Link *l = e->link;
		if (!l->abandoned()) {
			CHECK(e->hs, "end %d: no handshake on a working connection", e->id);
			CHECK(e->l_out == e->total, "end %d: wrote %ld of %ld bytes", e->id, e->l_out, e->total);
			CHECK(e->l_in == e->peer->total, "end %d: received %ld of %ld bytes", e->id, e->l_in, e->peer->total);
			if (e->peer->orderly && e->eof && e->last != 99) {
				CHECK(e->last == 0, "end %d (%s): the peer's orderly close was seen as %d instead of an end of stream", e->id, e->raw ? "raw" : "library", e->last);
				n_orderly++;
			}
		}
		if (l->hit && e->eof && e->l_in < e->peer->total) n_rejected++;
		bytes += e->l_in;
		if (l->proxy && e->l_in > 0) frag = true;
		if (e->l_in > 0 && e->l_out > 0) two = true;
	}
	CHECK(io::open_fds() <= fds0, "%d descriptors are left open", io::open_fds() - fds0);
	count("bytes moved", bytes);
	count("handshakes completed", n_hs);
	count("handshakes failed on damaged transports", n_hs_fail);
	count("transport pieces", n_pieces);
	count("truncated transports", n_cut);
	count("corrupted transports", n_flip);
	count("streams ended by the damage", n_rejected);
	count("orderly closes seen as end of stream", n_orderly);
	count("writes that took less than asked", n_part);
	count("rests written from another buffer", n_moved);
	count("rests of buffer vectors", n_multi);
	count("connections with accepted early data", n_early);
	count("closes in callback style", n_cb_close);
	count("key updates by the peer", n_upd);
	if (bytes > 0 && (frag || n_part || two)) nontrivial();
}
Property pbt::property = {
	"C11",
	"1-3 TLS connections (1.2 or 1.3) between two library ends or a library end and a plain OpenSSL peer (which also updates its keys and starts with early data on a resumed session), on the same or different loops, over socket pairs with random buffer sizes or loopback TCP, half of them through a proxy that passes the bytes on in random pieces and delays and may truncate the transport or flip a bit at any position; each end writes 1-8 blocks (write, writev, full and callback style, rests sent from the same or another buffer) and reads with read, readv, read_full and callbacks, in both directions at once; socket-BIO and memory-BIO builds. Oracle: every byte delivered is the one of its position in the written stream and was written, an undamaged connection delivers everything, the closing end's orderly close is seen as result 0, every call completes. Non-trivial: data moved and it was fragmented, taken in part or went both ways.",
	run_case, 1, 60000, 1000000, 40, 500, 200,
	{"OpenSSL itself and the kernel's sockets behave as documented"},
};
