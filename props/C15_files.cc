// kv: variant=fast:0.6,std:0.4
// Asynchronous files against a plain file with a position.
#include "net.h"
#include "shim.h"
#include <linux/aio_abi.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <deque>
using namespace pbt;

enum { READ, WRITE, READ_FULL, WRITE_FULL, SEEK, TELL, SIZE, OPEN, CLOSE, DIRECT, CB_READ, CB_WRITE, SLEEP, LOOK, NK };
static const char *kn[] = {"read", "write", "read full", "write full", "seek", "tell", "size", "open", "close", "direct", "callback read", "callback write", "sleep", "look at the file"};
struct Op { int kind, len, h, mode, flags, pos; int64_t off; int key, how; };
struct Sparse { // a file that may have large holes
	enum { P = 4096 };
	std::map<int64_t, std::string> pg;
	int64_t sz = 0;
	int64_t size() const { return sz; }
	void clear() { pg.clear(); sz = 0; }
	char operator[](int64_t i) const {
		auto it = pg.find(i / P);
		return it == pg.end() ? 0 : it->second[i % P];
	}
	void write(int64_t at, const char *b, int64_t n) {
		for (int64_t i = 0; i < n; i++) {
			std::string &s = pg[(at + i) / P];
			if (s.empty()) s.assign(P, '\0');
			s[(at + i) % P] = b[i];
		}
		if (at + n > sz) sz = at + n;
	}
};
struct Path { std::string name, link; Sparse data; bool exists = false, shared = false; int key = 0; };
struct Raw { long res; size_t len; long long off; };
struct Handle {
	kfiber_file *f = nullptr;
	bool r = false, w = false, append = false, direct = false;
	int64_t pos = 0;
	int loop = 0;
	Path *p = nullptr;
	std::vector<Raw> raw; // what the (emulated) kernel did for it since last cleared
};
struct Actor { int loop; int64_t big = 0; std::vector<Op> ops; Path own; Handle h[2]; bool done = false; };
static std::vector<std::unique_ptr<Actor>> A;
static Path shared_file;
static std::map<kfiber_file *, Handle *> handles;
static int nsel_g, late_ms, left_g, n_ops, n_short, n_err, n_eof, n_hole, n_direct, n_unaligned, n_safe, n_again, n_cb, n_multi, inflight, max_inflight, n_served, n_far;
static bool emu, kernel_stop;
static int cut_p, err_p, again_p, delay_max;
static int align_g;
static Rng *rng;
static int64_t now_ms() { return ds::mono_us() / 1000; }

// ---- emulated kernel AIO --------------------------------------------------
struct Req { unsigned long ctx; struct iocb cb; int64_t due; };
struct Ctx { std::deque<struct io_event> ring; };
static std::map<unsigned long, Ctx> ctxs;
static std::vector<Req> reqs;
static int ctx_serial;
static long transfer(const struct iocb &cb) {
	bool wr = cb.aio_lio_opcode == IOCB_CMD_PWRITE;
	size_t n = cb.aio_nbytes;
	bool direct = fcntl(cb.aio_fildes, F_GETFL) & O_DIRECT;
	if (err_p && rng->below(100) < (uint32_t)err_p) {
		n_err++;
		return wr && rng->below(2) ? -ENOSPC : -EIO;
	}
	if (n > 1 && !direct && cut_p && rng->below(100) < (uint32_t)cut_p) {
		n = 1 + rng->below((uint32_t)(n - 1));
		n_short++;
	}
	ssize_t r = wr ? io::real_pwrite(cb.aio_fildes, (void *)(uintptr_t)cb.aio_buf, n, cb.aio_offset) : io::real_pread(cb.aio_fildes, (void *)(uintptr_t)cb.aio_buf, n, cb.aio_offset);
	return r < 0 ? -errno : r;
}
static void note(const struct iocb &cb, long res) {
	auto it = handles.find((kfiber_file *)(uintptr_t)cb.aio_data);
	if (it != handles.end()) it->second->raw.push_back({res, (size_t)cb.aio_nbytes, (long long)cb.aio_offset});
}
static void kernel() {
	while (!kernel_stop) {
		int64_t now = now_ms(), next = now + 50;
		std::vector<size_t> ready;
		for (size_t i = 0; i < reqs.size(); i++) {
			if (reqs[i].due <= now) ready.push_back(i);
			else if (reqs[i].due < next) next = reqs[i].due;
		}
		if (ready.empty()) {
			ds::sleep_ms(next - now);
			continue;
		}
		size_t k = ready[rng->below((uint32_t)ready.size())];
		Req q = reqs[k];
		reqs.erase(reqs.begin() + k);
		long res = transfer(q.cb);
		note(q.cb, res);
		struct io_event ev;
		memset(&ev, 0, sizeof ev);
		ev.data = q.cb.aio_data;
		ev.res = res;
		ctxs[q.ctx].ring.push_back(ev);
		uint64_t one = 1;
		if (q.cb.aio_flags & IOCB_FLAG_RESFD) {
			ssize_t w = ::write(q.cb.aio_resfd, &one, 8);
			(void)w;
		}
		ds::yield();
	}
}
static long aio_call(long n, long a, long b, long c, long d, long e, long f) {
	if (!emu) return io::real_syscall(n, a, b, c, d, e, f);
	switch (n) {
	case SYS_io_setup:
		*(unsigned long *)b = 0x100 + ++ctx_serial;
		ctxs[0x100 + ctx_serial];
		return 0;
	case SYS_io_destroy: return 0;
	case SYS_io_submit: {
		struct iocb **l = (struct iocb **)c;
		CHECK(ctxs.count(a), "io_submit to an unknown context");
		if (inflight >= 128 || (again_p && rng->below(100) < (uint32_t)again_p)) {
			n_again++;
			errno = EAGAIN;
			return -1;
		}
		if ((long long)l[0]->aio_offset < 0 || (ssize_t)l[0]->aio_nbytes < 0) {
			errno = EINVAL;
			return -1;
		}
		int fl = fcntl(l[0]->aio_fildes, F_GETFL);
		bool wr = l[0]->aio_lio_opcode == IOCB_CMD_PWRITE;
		if (fl < 0 || (wr ? (fl & O_ACCMODE) == O_RDONLY : (fl & O_ACCMODE) == O_WRONLY)) {
			errno = EBADF;
			return -1;
		}
		inflight++;
		if (inflight > max_inflight) max_inflight = inflight;
		reqs.push_back({(unsigned long)a, *l[0], now_ms() + (delay_max ? (int64_t)rng->below((uint32_t)delay_max) : 0)});
		return 1;
	}
	case SYS_io_getevents: {
		Ctx &x = ctxs[a];
		long k = 0;
		struct io_event *out = (struct io_event *)d;
		if (c > 1 && rng->below(3) == 0) c = std::max<long>(b, 1 + rng->below((uint32_t)c)); // it may return fewer
		while (k < c && !x.ring.empty()) {
			out[k++] = x.ring.front();
			x.ring.pop_front();
			inflight--;
		}
		if (k < b) ds::yield();
		return k;
	}
	}
	return io::real_syscall(n, a, b, c, d, e, f);
}

// ---- operations ------------------------------------------------------------
static char content(int key, int64_t pos) { return (char)net::byte_at(key, pos); }
static void model_write(Handle &h, const char *b, int64_t at, int64_t n) {
	if (n <= 0) return;
	Sparse &d = h.p->data;
	if (h.append) at = d.size();
	if (at > d.size()) n_hole++;
	n_far += at + n > INT32_MAX;
	d.write(at, b, n);
}
static void look(Path &p, const char *when) {
	int fd = open(p.name.c_str(), O_RDONLY | O_CLOEXEC);
	CHECK((fd >= 0) == p.exists, "%s: the file %s", when, p.exists ? "is not there" : "exists");
	if (fd < 0) return;
	struct stat st;
	CHECK(fstat(fd, &st) == 0 && st.st_size == p.data.size(), "%s: the file has %lld bytes, expected %lld", when, (long long)st.st_size, (long long)p.data.size());
	std::vector<char> b(Sparse::P);
	auto page = [&](int64_t at) {
		int64_t n = std::min<int64_t>(Sparse::P, p.data.size() - at);
		if (n <= 0) return;
		CHECK(io::real_pread(fd, b.data(), n, at) == n, "%s: reading the file failed", when);
		for (int64_t i = 0; i < n; i++) CHECK(b[i] == p.data[at + i], "%s: byte %lld of the file is wrong", when, (long long)(at + i));
	};
	for (auto &x : p.data.pg) page(x.first * Sparse::P);
	for (off_t at = 0, end; at < st.st_size && (at = lseek(fd, at, SEEK_DATA)) >= 0; at = end) { // and nothing else is there
		end = lseek(fd, at, SEEK_HOLE);
		if (end <= at) break;
		for (off_t k = at / Sparse::P * Sparse::P; k < end; k += Sparse::P)
			if (!p.data.pg.count(k / Sparse::P)) page(k);
	}
	::close(fd);
}
static void on_loop(int loop, std::function<void()> fn) { // run fn on a fiber of that loop and wait
	kfiber *h = NULL;
	int rv = 0;
	CHECK(kfiber_create2(get_selector_by_index(loop), kh::run_fiber_fn, new std::function<int()>([fn]() -> int { fn(); return 5; }), 0, 0, &h) == 0, "kfiber_create2 failed");
	CHECK(kfiber_join(h, &rv) == 0 && rv == 5, "join failed");
}
static void do_open(Actor *a, Handle &h, const Op &o) {
	if (h.f) return;
	Path *p = o.how == 0 && shared_file.exists ? &shared_file : &a->own;
	int mode = p->shared ? fileRead : o.mode;
	int loop = o.key % 3 ? a->loop : o.key % nsel_g;
	kfiber_file *f = NULL;
	const char *name = !p->link.empty() && o.flags & 1 ? p->link.c_str() : p->name.c_str();
	int kf = (o.flags & 1 && o.flags & 2 ? KFILE_NOFOLLOW : 0) | (o.flags & 4 ? KFILE_DSYNC : 0) | (o.flags & 8 ? KFILE_NOATIME : 0);
	bool bind = (o.flags & 48) == 48 && mode == fileRead;
	auto fn = [&] {
		if (bind) {
			int fd = open(name, O_RDONLY | O_CLOEXEC);
			f = fd < 0 ? NULL : kfiber_file_bind(fd);
			CHECK(fd < 0 || f, "kfiber_file_bind failed");
		} else
			f = kfiber_file_open(name, (fileModel)mode, kf);
	};
	if (loop == a->loop) fn();
	else on_loop(loop, fn);
	bool link = name != p->name.c_str();
	bool creates = mode == fileAppend || mode == fileModify || mode == fileWrite || mode == fileWriteRead;
	bool ok = (p->exists || creates) && !(link && (kf & KFILE_NOFOLLOW) && !bind);
	if (link && !p->exists && creates && ok) ok = true; // creates the link's target
	CHECK((f != NULL) == ok, "opening %s file in mode %d flags %d%s gave %s", p->exists ? "an existing" : "a missing", mode, kf, link ? " through a link" : "", f ? "a file" : "nothing");
	if (!f) return;
	int fl = fcntl(kasync_file_get_handle(f), F_GETFL), fd_fl = fcntl(kasync_file_get_handle(f), F_GETFD);
	CHECK(fd_fl & FD_CLOEXEC, "the descriptor is inherited");
	CHECK(bind || !!(fl & O_DSYNC) == !!(kf & KFILE_DSYNC), "KFILE_DSYNC was not honoured");
	CHECK(bind || !!(fl & O_NOATIME) == !!(kf & KFILE_NOATIME), "KFILE_NOATIME was not honoured");
	if (creates && !p->exists) {
		struct stat st;
		CHECK(stat(p->name.c_str(), &st) == 0, "the created file is not there");
	}
	if (creates) p->exists = true;
	if (mode == fileWrite || mode == fileWriteRead) p->data.clear();
	h = Handle();
	h.f = f;
	h.p = p;
	h.loop = loop;
	h.r = mode == fileRead || mode == fileReadWrite || mode == fileWriteRead;
	h.w = mode != fileRead;
	h.append = mode == fileAppend;
	handles[f] = &h;
	CHECK(kfiber_file_tell(f) == 0, "a new file's position is %lld", (long long)kfiber_file_tell(f));
	CHECK(kasync_file_get_selector(f) == get_selector_by_index(loop), "the file is bound to another loop");
}
static void check_bytes(Handle &h, const char *b, int64_t at, int64_t n, const char *what) {
	for (int64_t i = 0; i < n; i++) CHECK(at + i < h.p->data.size() && b[i] == h.p->data[at + i], "%s of %lld bytes at %lld: byte %lld is wrong", what, (long long)n, (long long)at, (long long)i);
}
struct CbWait { kfiber_cond *c; Handle *h; int got, calls; };
static kev_result on_file(KOPAQUE data, void *arg, int got) {
	CbWait *w = (CbWait *)arg;
	CHECK(data == (KOPAQUE)w->h, "a file callback got another opaque");
	CHECK(++w->calls == 1, "a file callback ran %d times", w->calls);
	CHECK(kgl_get_tls_selector() == get_selector_by_index(w->h->loop) && kfiber_is_main(), "a file callback ran elsewhere");
	w->got = got;
	w->c->f->notice(w->c, got);
	return kev_ok;
}
static void do_op(Actor *a, const Op &o) {
	Handle &h = a->h[o.h];
	if (o.kind == SLEEP) {
		int64_t t0 = now_ms();
		int busy = inflight;
		kfiber_msleep(o.len % 1500);
		int64_t took = now_ms() - t0;
		CHECK(took >= o.len % 1500 - 102 - 3 * late_ms && took <= o.len % 1500 + 220 + 8 * late_ms, "a sleep of %d ms took %lld ms (%d file operations under way)", o.len % 1500, (long long)took, busy);
		n_served += busy > 0;
		return;
	}
	if (o.kind == LOOK) return look(a->own, "meanwhile");
	if (o.kind == OPEN) return do_open(a, h, o);
	if (!h.f) return;
	int64_t size = h.p->data.size(), pos = h.pos;
	bool local = h.loop == a->loop;
	int kind = o.kind, len = o.len;
	if (!local && (kind == CB_READ || kind == CB_WRITE || kind == READ_FULL)) kind = READ;
	if (h.direct && (kind == READ_FULL || kind == CB_READ || kind == CB_WRITE)) kind = READ;
	if (h.direct && (kind == WRITE || kind == WRITE_FULL)) {
		if (pos % align_g || !h.w || h.append) kind = READ; // the library asks for aligned positions
		else len = (len + align_g - 1) / align_g * align_g;
		if (kind == WRITE_FULL) kind = WRITE;
	}
	h.raw.clear();
	n_ops++;
	int cap = ((len > 0 ? len : 0) + align_g - 1) / align_g * align_g, guard = align_g;
	if (!cap) cap = align_g;
	char *buf = NULL;
	bool xfer = kind == READ || kind == WRITE || kind == READ_FULL || kind == WRITE_FULL || kind == CB_READ || kind == CB_WRITE;
	if (xfer) {
		// a buffer asked for in any size has room for the aligned transfer
		buf = (char *)aio_alloc_buffer(o.key % 3 == 0 ? cap + guard - o.key % align_g : cap + guard);
		CHECK(buf && (uintptr_t)buf % align_g == 0, "aio_alloc_buffer gave an unaligned buffer");
		memset(buf, 0x5a, cap + guard);
	}
	switch (kind) {
	case READ: {
		int r;
		bool safe = !local || o.key % 5 == 0;
		if (!safe) r = kfiber_file_read(h.f, buf, len);
		else {
			n_safe++;
			r = kfiber_file_safe_read(h.f, buf, len);
		}
		int64_t most = size - pos;
		if (most < 0) most = 0;
		if (most > len) most = len;
		if (len < 0 || !h.r) {
			CHECK(r < 0 || (h.direct && h.r && r == 0), "a read of %d bytes from a %s file gave %d", len, h.r ? "readable" : "write-only", r);
			break;
		}
		int64_t off = h.direct ? pos % align_g : 0, least = most;
		if (h.direct && len > 0) {
			n_direct++;
			n_unaligned += off || len % align_g;
			int64_t al = (len + align_g - 1) / align_g * align_g - off;
			if (al < least) least = al;
		}
		if (!h.raw.empty() && emu) {
			CHECK(h.raw.size() == 1, "a read made %zu transfers", h.raw.size());
			long raw = h.raw[0].res;
			if (raw < 0) {
				CHECK(r < 0, "a read that failed (%ld) gave %d", raw, r);
				break;
			}
			if (!h.direct) least = most = raw;
		}
		CHECK(r >= least && r <= most, "a read of %d bytes at %lld of %lld gave %d, expected %lld to %lld%s", len, (long long)pos, (long long)size, r, (long long)least, (long long)most, h.direct ? ", direct" : "");
		if (r == 0 && len > 0) n_eof++;
		check_bytes(h, h.direct ? kfiber_file_adjust(h.f, buf) : buf, pos, r, "read");
		h.pos += r;
		if (!h.direct)
			for (int i = r; i < cap + guard; i++) CHECK(buf[i] == 0x5a, "a read of %d bytes changed byte %d of the buffer", r, i);
		else
			for (int i = cap; i < cap + guard; i++) CHECK(buf[i] == 0x5a, "a direct read of %d bytes changed byte %d of a buffer of %d", len, i, cap);
		break;
	}
	case CB_READ:
	case CB_WRITE: {
		n_cb++;
		bool wr = kind == CB_WRITE;
		CbWait w = {kfiber_cond_init(true), &h, -9999, 0};
		kasync_file_bind_opaque(h.f, &h);
		CHECK(kasync_file_get_opaque(h.f) == (KOPAQUE)&h, "the opaque was not kept");
		if (wr)
			for (int i = 0; i < len; i++) buf[i] = content(o.key, i);
		bool ok = wr ? kgl_selector_module.aio_write(h.f, on_file, buf, len, &w) : kgl_selector_module.aio_read(h.f, on_file, buf, len, &w);
		if (!ok) {
			CHECK(len < 0 || (wr ? !h.w : !h.r), "a callback %s was refused", wr ? "write" : "read");
			w.c->f->release(w.c);
			break;
		}
		int got = -1;
		CHECK(w.c->f->wait(w.c, &got) == 0 && w.calls == 1 && got == w.got, "the callback did not run");
		w.c->f->release(w.c);
		long want = len < 0 || (wr ? !h.w : !h.r) ? -1 : emu && !h.raw.empty() ? h.raw[0].res : wr ? len : std::max<int64_t>(0, std::min<int64_t>(len, size - pos));
		CHECK(want < 0 ? got < 0 : got == want, "a callback %s of %d at %lld of %lld gave %d, expected %ld", wr ? "write" : "read", len, (long long)pos, (long long)size, got, want);
		if (wr) model_write(h, buf, pos, got);
		else if (got > 0) check_bytes(h, buf, pos, got, "callback read");
		break;
	}
	case READ_FULL: {
		int left = len;
		bool r = kfiber_file_read_full(h.f, buf, &left);
		if (len <= 0) {
			CHECK(r && left == len, "a full read of nothing gave %d", (int)r);
			break;
		}
		int64_t n = len - left, most = h.r ? std::max<int64_t>(0, std::min<int64_t>(len, size - pos)) : 0;
		CHECK(left >= 0 && r == (left == 0), "a full read returned %d with %d bytes left", (int)r, left);
		bool failed = false;
		for (Raw &x : h.raw) failed = failed || x.res < 0;
		CHECK(n == most || (failed && n < most), "a full read of %d at %lld of %lld got %lld", len, (long long)pos, (long long)size, (long long)n);
		n_multi += h.raw.size() > 1;
		check_bytes(h, buf, pos, n, "full read");
		h.pos += n;
		for (int64_t i = n; i < cap + guard; i++) CHECK(buf[i] == 0x5a, "a full read of %lld bytes changed byte %lld of the buffer", (long long)n, (long long)i);
		break;
	}
	case WRITE: {
		for (int i = 0; i < len; i++) buf[i] = content(o.key, i);
		int r;
		bool safe = !local;
		int64_t n;
		if (!safe) {
			r = kfiber_file_write(h.f, buf, len);
			n = r;
			if (len < 0 || !h.w) {
				CHECK(r < 0, "a write of %d bytes to a %s file gave %d", len, h.w ? "writable" : "read-only", r);
				break;
			}
			long want = emu && !h.raw.empty() ? h.raw[0].res : len;
			n_direct += h.direct;
			CHECK(want < 0 ? r < 0 : r == want, "a write of %d at %lld gave %d, expected %ld", len, (long long)pos, r, want);
		} else {
			n_safe++;
			int left = len;
			bool ok = kfiber_file_safe_write_full(h.f, buf, &left);
			if (len <= 0) {
				CHECK(ok && left == len, "a full write of nothing gave %d", (int)ok);
				break;
			}
			n = len - left;
			bool failed = !h.w;
			for (Raw &x : h.raw) failed = failed || x.res < 0;
			CHECK(left >= 0 && ok == (left == 0) && (ok || failed), "a full write from another loop returned %d with %d of %d bytes left", (int)ok, left, len);
		}
		model_write(h, buf, pos, n);
		if (n > 0) h.pos += n;
		break;
	}
	case WRITE_FULL: {
		for (int i = 0; i < len; i++) buf[i] = content(o.key, i);
		int left = len;
		bool safe = !local || o.key % 5 == 0;
		n_safe += safe;
		bool ok = safe ? kfiber_file_safe_write_full(h.f, buf, &left) : kfiber_file_write_full(h.f, buf, &left);
		if (len <= 0) {
			CHECK(ok && left == len, "a full write of nothing gave %d", (int)ok);
			break;
		}
		bool failed = !h.w;
		for (Raw &x : h.raw) failed = failed || x.res < 0;
		n_multi += h.raw.size() > 1;
		CHECK(left >= 0 && ok == (left == 0) && (ok || failed), "a full write returned %d with %d of %d bytes left", (int)ok, left, len);
		int64_t n = len - left;
		if (h.append) model_write(h, buf, pos, n);
		else model_write(h, buf, pos, n);
		h.pos += n;
		break;
	}
	case SEEK: {
		int64_t off = h.direct && o.key % 2 ? o.off / align_g * align_g : o.off;
		if (o.pos == seekCur) off -= 4000;
		int64_t to = o.pos == seekBegin ? off : o.pos == seekCur ? pos + off : -1;
		int r = kfiber_file_seek(h.f, (seekPosion)o.pos, off);
		if (o.pos == seekEnd) {
			if (r == 0) h.pos = size + off; // not provided at present
			else CHECK(r == -1, "a refused seek gave %d", r);
			break;
		}
		CHECK(r == (to < 0 ? -1 : 0), "a seek to %lld gave %d", (long long)to, r);
		if (to >= 0) h.pos = to;
		break;
	}
	case TELL: break;
	case SIZE: {
		int64_t s = kfiber_file_size(h.f);
		CHECK(s == size, "the size is %lld, expected %lld", (long long)s, (long long)size);
		break;
	}
	case DIRECT: {
		bool on = o.key % 4 != 0;
		if (kasync_file_direct(h.f, on)) {
			h.direct = on;
			int fl = fcntl(kasync_file_get_handle(h.f), F_GETFL);
			CHECK(!!(fl & O_DIRECT) == on, "direct mode is not set");
		} else
			CHECK(on, "direct mode could not be switched off");
		break;
	}
	case CLOSE: {
		int fd = kasync_file_get_handle(h.f);
		handles.erase(h.f);
		kfiber_file_close(h.f);
		CHECK(fcntl(fd, F_GETFD) == -1, "the descriptor is open after closing");
		h = Handle();
		return;
	}
	}
	if (buf) aio_free_buffer(buf);
	int64_t t = kfiber_file_tell(h.f);
	CHECK(t == h.pos, "after a %s of %d at %lld the position is %lld, expected %lld", kn[kind], len, (long long)pos, (long long)t, (long long)h.pos);
}
static void finish(Actor *a) {
	for (Handle &h : a->h)
		if (h.f) {
			handles.erase(h.f);
			kfiber_file_close(h.f);
		}
	look(a->own, "at the end");
	a->done = true;
	left_g--;
}

// ---- many operations at once ----------------------------------------------
static void flood() {
	int n = range(360, thorough() ? 900 : 500), rec = range(1, 60);
	emu = chance(3, 4);
	logf("%d fibers write and read records of %d bytes at once, %s kernel", n, rec, emu ? "emulated" : "real");
	std::string path = std::string(scratch_dir()) + "/flood";
	ds::Config cfg = ds::draw_config(true);
	uint64_t seed = draw_seed();
	static Rng r(seed);
	rng = &r;
	delay_max = range(0, 300);
	cut_p = err_p = again_p = 0;
	io::syscall_hook = aio_call;
	kh::boot(1, cfg, false, true);
	init_aio_align_size();
	if (emu) ds::spawn(kernel);
	static int left, fd;
	left = n;
	fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
	if (fd < 0) discard("open");
	for (int i = 0; i < n; i++)
		kh::fiber(0, [i, rec]() -> int {
			kfiber_file *f = kfiber_file_bind(dup(fd));
			CHECK(f, "kfiber_file_bind failed");
			std::vector<char> b(rec), c(rec, 0);
			net::fill(b.data(), 7, (uint64_t)i * rec, rec);
			kfiber_file_seek(f, seekBegin, (int64_t)i * rec);
			int w = kfiber_file_write(f, b.data(), rec);
			CHECK(w == rec, "one of many writes of %d bytes gave %d", rec, w);
			kfiber_file_seek(f, seekBegin, (int64_t)i * rec);
			int r = kfiber_file_read(f, c.data(), rec);
			CHECK(r == rec && c == b, "one of many reads of %d bytes gave %d", rec, r);
			kfiber_file_close(f);
			left--;
			return 0;
		}, 16384);
	if (!ds::run_until([] { return left == 0; }, 600000)) fail("file operations stalled\n%s", ds::dump().c_str());
	std::vector<char> all((size_t)n * rec + 1);
	ssize_t got = io::real_pread(fd, all.data(), all.size(), 0);
	CHECK(got == (ssize_t)n * rec && net::mismatch(all.data(), 7, 0, got) < 0, "the file is wrong after many writes");
	count("floods");
	count("refused submissions", n_again);
	nontrivial();
}
static void run() {
	n_ops = n_short = n_err = n_eof = n_hole = n_direct = n_unaligned = n_safe = n_again = n_cb = n_multi = inflight = max_inflight = n_served = n_far = 0;
	handles.clear();
	ctxs.clear();
	reqs.clear();
	ctx_serial = 0;
	kernel_stop = false;
	if (chance(1, 40)) return flood();
	ds::Config cfg = ds::draw_config(true);
	late_ms = cfg.late_us / 1000;
	nsel_g = 1 << range(0, 2);
	emu = !chance(1, 12);
	cut_p = chance(1, 2) ? range(0, 70) : 0;
	err_p = chance(1, 4) ? range(0, 25) : 0;
	again_p = chance(1, 4) ? range(0, 40) : 0;
	delay_max = chance(1, 3) ? range(0, 3000) : range(0, 20);
	if (!emu) cut_p = err_p = again_p = 0;
	int n = range(1, 5);
	std::string dir = scratch_dir();
	shared_file = Path();
	shared_file.name = dir + "/shared";
	shared_file.shared = true;
	if (chance(1, 2)) {
		shared_file.exists = true;
		int sz = size_dist(0, 20000);
		std::string d(sz, 0);
		for (int i = 0; i < sz; i++) d[i] = content(99, i);
		shared_file.data.write(0, d.data(), sz);
	}
	A.clear();
	for (int i = 0; i < n; i++) {
		std::unique_ptr<Actor> a(new Actor);
		a->loop = range(0, nsel_g - 1);
		// work far into the file, around where 32 bits end
		if (chance(1, 4)) a->big = (pick(std::vector<int64_t>{1LL << 31, 1LL << 32, 1LL << 33}) - 8192 + (chance(1, 2) ? 512 * range(0, 30) : range(0, 15000)));
		a->own.name = dir + "/own" + kh::ll(i);
		if (chance(1, 3)) a->own.link = dir + "/link" + kh::ll(i);
		if (chance(1, 2)) {
			a->own.exists = true;
			int sz = size_dist(0, 20000);
			std::string d(sz, 0);
			for (int k = 0; k < sz; k++) d[k] = content(50 + i, k);
			if (sz) a->own.data.write(a->big, d.data(), sz);
		}
		int m = range(1, thorough() ? 40 : 25);
		bool direct = chance(1, 3);
		for (int k = 0; k < m; k++) {
			Op o = Op();
			o.kind = k == 0 ? OPEN : (int)weighted({8, 6, 3, 4, 6, 1, 2, 4, 2, direct ? 5u : 0u, 2, 2, 2, 1});
			o.h = weighted({3, 1});
			o.len = chance(1, 40) ? -1 : chance(1, 4) ? 512 * range(0, 16) : chance(1, 6) ? 4096 * range(0, 3) : size_dist(0, 9000);
			o.mode = pick(std::vector<int>{fileReadWrite, fileWriteRead, fileRead, fileModify, fileWrite, fileAppend});
			if (k == 0 && chance(2, 3)) o.mode = fileWriteRead;
			o.flags = (int)draw(64);
			o.pos = pick(std::vector<int>{seekBegin, seekBegin, seekCur, seekEnd});
			o.off = chance(1, 3) ? 512 * range(0, 40) : chance(1, 10) ? range(0, 200000) : size_dist(0, 21000);
			if (chance(1, 30)) o.off = -1;
			o.key = (int)draw(1000);
			o.how = (int)draw(4);
			if (a->big && o.pos == seekBegin && o.off >= 0 && chance(7, 8)) o.off += a->big;
			else if (a->big && o.pos == seekCur && chance(1, 4)) o.off += chance(1, 2) ? a->big : -a->big;
			a->ops.push_back(o);
		}
		A.push_back(std::move(a));
	}
	logf("%d loops, %s kernel, short %d%% errors %d%% refused %d%% delay up to %d ms; shared file %s (%zu bytes)", nsel_g, emu ? "emulated" : "real", cut_p, err_p, again_p, delay_max, shared_file.exists ? "there" : "missing", (size_t)shared_file.data.size());
	for (auto &a : A) {
		logf("actor on loop %d, file %s (%zu bytes)%s", a->loop, a->own.exists ? "there" : "missing", (size_t)a->own.data.size(), a->own.link.empty() ? "" : " with a link");
		for (Op &o : a->ops) logf("  %s handle %d len %d mode %d flags %d seek %d %lld key %d how %d", kn[o.kind], o.h, o.len, o.mode, o.flags, o.pos, (long long)o.off, o.key, o.how);
	}
	uint64_t seed = draw_seed();
	static std::unique_ptr<Rng> r;
	r.reset(new Rng(seed));
	rng = r.get();
	auto put = [](Path &p) {
		if (!p.exists) return;
		int fd = open(p.name.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
		if (fd < 0) discard("scratch file");
		for (auto &x : p.data.pg) {
			int64_t at = x.first * Sparse::P, n = std::min<int64_t>(Sparse::P, p.data.size() - at);
			if (io::real_pwrite(fd, x.second.data(), n, at) != n) discard("scratch file");
		}
		::close(fd);
	};
	put(shared_file);
	for (auto &a : A) {
		put(a->own);
		if (!a->own.link.empty() && symlink(a->own.name.c_str(), a->own.link.c_str())) discard("symlink");
	}
	io::syscall_hook = aio_call;
	kh::boot(nsel_g, cfg, false, true);
	init_aio_align_size();
	align_g = kgl_aio_align_size;
	CHECK(align_g >= 512 && !(align_g & (align_g - 1)), "the alignment is %d", align_g);
	if (emu) ds::spawn(kernel);
	int fds0 = io::open_fds();
	left_g = n;
	for (auto &a : A) {
		Actor *p = a.get();
		kh::fiber(p->loop, [p]() -> int {
			for (Op &o : p->ops) do_op(p, o);
			finish(p);
			return 0;
		});
	}
	if (!ds::run_until([] { return left_g == 0; }, 3600 * 1000)) fail("file operations stalled\n%s", ds::dump().c_str());
	look(shared_file, "the shared file at the end");
	ds::run_until([] { return kfiber_get_count() == 0; }, 1000);
	CHECK(kfiber_get_count() == 0, "%d fibers are left", kfiber_get_count());
	CHECK(io::open_fds() <= fds0, "%d descriptors are left open", io::open_fds() - fds0);
	count("operations", n_ops);
	count("short transfers", n_short);
	count("failed transfers", n_err);
	count("refused submissions", n_again);
	count("reads at the end", n_eof);
	count("holes", n_hole);
	count("writes beyond 2 GB", n_far);
	count("direct transfers", n_direct);
	count("unaligned direct reads", n_unaligned);
	count("transfers from another loop", n_safe);
	count("callback transfers", n_cb);
	count("full transfers in pieces", n_multi);
	count("sleeps during transfers", n_served);
	if (max_inflight > 1) count("cases with several at once");
	if (n_ops >= 5) nontrivial();
}
Property pbt::property = {
	"C15",
	"random programs of file operations (modes, links, seeks, holes, direct mode, safe and callback transfers) of 1-5 fibers on 1-4 loops, on the kernel's AIO or an emulation that delays, reorders, cuts, refuses and fails transfers; at times hundreds of transfers at once; "
	"non-trivial: at least 5 operations on open files",
	run, 1, 60000, 1000000, 40, 450, 200,
	{"one operation at a time per file handle", "append mode keeps a position of its own while data goes to the end", "direct mode: full reads and unaligned writes are outside the API"},
};
