// kv: variant=std
// Buffer chains and buffer windows against a byte-string model.
#include "kh.h"
using namespace pbt;

static Rng *fill;
static std::string bytes(int n) {
	std::string s(n, 0);
	for (auto &c : s) c = (char)fill->next();
	return s;
}
static kbuf *make_kbuf(const std::string &s, int slack) {
	kbuf *b = new_kbuf((int)s.size() + slack + 1); // slack bytes past the used part
	memcpy(b->data, s.data(), s.size());
	b->used = (int)s.size();
	return b;
}
static std::string number(long long v) { return std::to_string(v); }

static void chain() {
	int chunk = size_dist(1, 600);
	krw_buffer local, *rb = &local;
	bool heap = chance(1, 2);
	if (heap) rb = krw_buffer_new(chunk);
	else memset(&local, 0xa5, sizeof local), krw_buffer_init(rb, chunk);
	std::string m; // unread bytes
	int ops = size_dist(1, 200), ins = 0, app = 0, partial = 0, res = 0;
	logf("chain with chunks of %d, %d operations", chunk, ops);
	auto some = [&]() { return chance(1, 4) ? chunk + range(-1, 1) : size_dist(0, 3 * chunk + 2); };
	auto window = [&](int want_bufs, std::vector<kgl_iovec> &v) {
		v.assign(want_bufs + 1, kgl_iovec());
		v[want_bufs].iov_base = (void *)0x5a5a;
		int n = krw_get_read_buffers(rb, v.data(), want_bufs);
		CHECK(n >= 0 && n <= want_bufs && v[want_bufs].iov_base == (void *)0x5a5a, "read window of %d buffers reported %d", want_bufs, n);
		v.resize(n);
		std::string got;
		for (auto &e : v) got.append((char *)e.iov_base, e.iov_len);
		CHECK(got.size() <= m.size() && m.compare(0, got.size(), got) == 0, "the read window differs from the unread bytes (%zu shown, %zu unread)", got.size(), m.size());
		CHECK(m.empty() || !got.empty(), "%zu unread bytes but an empty read window", m.size());
		if (n < want_bufs) CHECK(got.size() == m.size(), "the read window ends early: %zu of %zu bytes", got.size(), m.size());
		return (int)got.size();
	};
	for (int o = 0; o < ops; o++) {
		switch (weighted({4, 1, 3, 4, 3, 2, 1, 1})) {
		case 0: {
			std::string s = bytes(some());
			logf(" write %zu", s.size());
			krw_write_str(rb, s.data(), (int)s.size());
			m += s;
			break;
		}
		case 1: {
			int64_t v = (int64_t)draw64();
			if (chance(1, 2)) krw_write_int(rb, (int)v), m += number((int)v);
			else krw_write_int64(rb, v), m += number(v);
			break;
		}
		case 2: {
			int len = -1;
			char *p = krw_get_write_buffer(rb, &len);
			CHECK(p && len > 0 && len <= chunk, "write space of %d bytes with chunks of %d", len, chunk);
			int k = chance(1, 3) ? len : chance(1, 4) ? 0 : range(0, len);
			std::string s = bytes(k);
			memset(p, 0xee, len); // all of the space may be used
			memcpy(p, s.data(), k);
			krw_write_success(rb, k);
			m += s;
			logf(" reserve %d use %d", len, k);
			res++;
			break;
		}
		case 3: {
			int n = some();
			std::vector<char> buf(n + 1);
			int want = std::min<int>(n, (int)m.size());
			logf(" read %d of %zu", n, m.size());
			int got = krw_read(rb, buf.data(), n);
			CHECK(got == want, "reading %d of %zu bytes returned %d", n, m.size(), got);
			CHECK(m.compare(0, got, buf.data(), got) == 0, "read returned other bytes than were written");
			m.erase(0, got);
			if (got && !m.empty()) partial++;
			break;
		}
		case 4: {
			std::vector<kgl_iovec> v;
			int shown = window(range(1, 6), v);
			if (shown == 0) break;
			std::string late;
			if (chance(1, 3)) { // bytes written while the window is in use
				late = bytes(some());
				krw_write_str(rb, late.data(), (int)late.size());
				std::string again;
				for (auto &e : v) again.append((char *)e.iov_base, e.iov_len);
				CHECK(m.compare(0, again.size(), again) == 0, "the read window changed while it was in use");
			}
			m += late;
			int k = chance(1, 2) ? shown : range(1, shown);
			logf(" window of %d, consumed %d of %zu", shown, k, m.size());
			bool more = krw_read_success(rb, k);
			m.erase(0, k);
			CHECK(more == !m.empty(), "read_success returned %d with %zu bytes left", more, m.size());
			if (!m.empty()) partial++;
			break;
		}
		case 5: {
			std::string s = bytes(some());
			logf(" append %zu", s.size());
			krw_append(rb, make_kbuf(s, range(0, 3)));
			m += s;
			app++;
			break;
		}
		case 6: {
			std::string s = bytes(std::max(1, some()));
			logf(" insert %zu before %zu", s.size(), m.size());
			krw_insert(rb, make_kbuf(s, range(0, 3)));
			m = s + m;
			ins++;
			break;
		}
		default: {
			int len = -7;
			char *p = krw_get_read_buffer(rb, &len);
			if (m.empty()) CHECK(!p || len == 0, "read buffer of %d bytes on an empty chain", len);
			else CHECK(p && len > 0 && len <= (int)m.size() && m.compare(0, len, p, len) == 0, "read buffer differs from the unread bytes");
			break;
		}
		}
		CHECK(rb->total_len == (int)m.size(), "total length is %d, %zu bytes are unread", rb->total_len, m.size());
	}
	std::vector<kgl_iovec> v;
	while (!m.empty() && chance(4, 5)) {
		int shown = window(range(1, 3), v);
		krw_read_success(rb, shown);
		m.erase(0, shown);
	}
	if (heap) krw_buffer_destroy(rb);
	else krw_buffer_clean(rb);
	if (ins) count("chains with insertions at the front", 1);
	if (app) count("chains with appended buffers", 1);
	if (partial) count("chains read in part", 1);
	if (ops > 8) nontrivial();
}

static void flat() {
	int size = size_dist(1, 3000);
	ks_buffer local, *b = &local;
	bool heap = chance(1, 2);
	if (heap) b = ks_buffer_new(size);
	else memset(&local, 0xa5, sizeof local), ks_buffer_init(b, size);
	std::string m;
	int ops = size_dist(1, 80), saved = 0;
	logf("flat buffer of %d, %d operations", size, ops);
	for (int o = 0; o < ops; o++) {
		switch (weighted({3, 1, 3, 2})) {
		case 0: {
			std::string s = bytes(size_dist(0, 3000));
			CHECK(ks_write_str(b, s.data(), (int)s.size()), "write_str failed");
			m += s;
			break;
		}
		case 1: {
			int64_t v = (int64_t)draw64();
			if (chance(1, 2)) ks_write_int(b, (int)v), m += number((int)v);
			else ks_write_int64(b, v), m += number(v);
			break;
		}
		case 2: {
			char *p;
			int len = -1;
			if (chance(1, 2)) p = ks_get_write_buffer(b, &len);
			else {
				WSABUF w[2];
				CHECK(ks_get_write_buffers(b, w, range(1, 2)) == 1, "get_write_buffers");
				p = (char *)w[0].iov_base;
				len = (int)w[0].iov_len;
			}
			CHECK(p && len > 0, "no write space");
			memset(p, 0xee, len);
			int k = chance(1, 3) ? len : range(0, len);
			std::string s = bytes(k);
			memcpy(p, s.data(), k);
			ks_write_success(b, k);
			m += s;
			break;
		}
		case 3: { // a parser consumed some prefix
			int k = chance(1, 4) ? 0 : chance(1, 4) ? (int)m.size() : range(0, (int)m.size());
			logf(" save_point %d of %zu (size %d)", k, m.size(), b->buf_size);
			ks_save_point(b, b->buf + k);
			m.erase(0, k);
			CHECK(b->used < b->buf_size, "no room after save_point: %d of %d", b->used, b->buf_size);
			saved++;
			break;
		}
		}
		CHECK(b->used == (int)m.size() && b->used <= b->buf_size, "buffer holds %d bytes, expected %zu", b->used, m.size());
		CHECK(memcmp(b->buf, m.data(), m.size()) == 0, "buffer content differs");
	}
	ks_buffer_switch_read(b);
	size_t at = 0;
	while (at < m.size()) {
		int len = -1;
		char *p = ks_get_read_buffer(b, &len);
		CHECK(p && len == (int)(m.size() - at) && memcmp(p, m.data() + at, len) == 0, "read window after %zu of %zu bytes is wrong (%d)", at, m.size(), len);
		WSABUF w[2];
		CHECK(ks_get_read_buffers(b, w, 2) == 1 && (char *)w[0].iov_base == p && (int)w[0].iov_len == len, "get_read_buffers differs");
		int k = chance(1, 3) ? len : range(1, len);
		bool more = ks_read_success(b, k);
		at += k;
		CHECK(more == (at < m.size()), "read_success reported %d with %zu bytes left", more, m.size() - at);
	}
	if (heap) ks_buffer_destroy(b);
	else ks_buffer_clean(b);
	count("flat buffers");
	if (saved) count("flat buffers with a consumed prefix");
	if (ops > 4) nontrivial();
}

static void seek() {
	int n = range(1, 8);
	std::vector<std::string> parts;
	std::string all;
	std::vector<kbuf> kb(n);
	std::vector<kgl_iovec> iv(n);
	for (int i = 0; i < n; i++) parts.push_back(bytes(chance(1, 6) ? 0 : size_dist(1, 40)));
	for (int i = 0; i < n; i++) {
		kb[i].data = (char *)parts[i].data();
		kb[i].used = (int)parts[i].size();
		kb[i].next = i + 1 < n ? &kb[i + 1] : NULL;
		iv[i].iov_base = (void *)parts[i].data();
		iv[i].iov_len = parts[i].size();
		all += parts[i];
	}
	CHECK(kgl_get_bufs_size(iv.data(), n) == (int)all.size(), "get_bufs_size");
	int off = range(0, (int)all.size());
	kbuf hdr;
	const kbuf *p = kbuf_seek(&kb[0], off, &hdr);
	std::string got;
	for (; p; p = p->next) got.append(p->data, p->used);
	CHECK(got == all.substr(off), "kbuf_seek(%d) of %zu shows %zu bytes", off, all.size(), got.size());
	kgl_iovec *q = iv.data();
	int bc = n;
	size_t at = 0;
	int steps = 0;
	while (at < all.size()) { // as a writer does: arbitrary transfer sizes
		int k = chance(1, 3) ? (int)(all.size() - at) : range(1, (int)(all.size() - at));
		q = kgl_iovec_seek(q, &bc, k);
		at += k;
		steps++;
		std::string g;
		CHECK(bc >= 0 && bc <= n && q + bc == iv.data() + n, "iovec_seek left %d of %d buffers", bc, n);
		for (int i = 0; i < bc; i++) g.append((char *)q[i].iov_base, q[i].iov_len);
		CHECK(g == all.substr(at), "iovec_seek after %zu of %zu bytes shows %zu bytes", at, all.size(), g.size());
	}
	count("seeks");
	if (n > 1 && steps > 1) nontrivial();
}
static void run() {
	Rng r(draw(0x7fffffff));
	fill = &r;
	switch (weighted({5, 2, 1})) {
	case 0: chain(); break;
	case 1: flat(); break;
	default: seek(); break;
	}
}
Property pbt::property = {
	"C20",
	"A case is 1-200 generated operations on a buffer chain (write, reserve and fill, read, consume a window also while writing, append, insert), 1-80 on a flat buffer, or a seek in a buffer list; non-trivial = more than 8 (4) operations or several seek steps.",
	run, 50, 2000000, 40000000, 25, 400, 2000,
	{"reference: a byte string", "single-threaded use, as the callers hold the buffer exclusively"}};
