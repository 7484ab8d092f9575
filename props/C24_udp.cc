// kv: variant=fast:0.6,std:0.4
// UDP: one read, one datagram, from the right sender, complete and unaltered.
#include "net.h"
#include "shim.h"
#include "kudp.h"
#include <deque>
#include <map>
#include <netinet/ip.h>
using namespace pbt;

struct Msg { int len; uint32_t key; sockaddr_i to; };
struct Sock {
	int id, sel;
	bool lib, v6, any, pktinfo, reader, cb_style;
	kconnection *c = nullptr;
	int fd = -1;
	sockaddr_i addr;         // as seen by others (source address of what it sends)
	std::map<int, std::deque<Msg>> in; // by sender
	long outstanding = 0, got = 0, expect = 0;
	int fault_at = -1, n_recv = 0;
	std::vector<std::vector<int>> bufs;
	bool rdone = false;
	int err_left = 0;
};
struct Send { int to, len, pause; bool v2; };
static std::vector<std::unique_ptr<Sock>> socks;
static std::map<int, Sock *> by_fd;
static Rng *frng;
static int alive, have_bc = -1;
static long n_sent, n_got, n_trunc, n_empty, n_big, n_wait, n_fault, n_cb, n_v6, n_oversize, n_info, n_bc;

static std::string show(const sockaddr_i *a) {
	char b[64] = "?";
	if (a->v4.sin_family == AF_INET) inet_ntop(AF_INET, &a->v4.sin_addr, b, sizeof b);
	if (a->v4.sin_family == AF_INET6) inet_ntop(AF_INET6, &a->v6.sin6_addr, b, sizeof b);
	return b;
}
static bool same(const sockaddr_i *a, const sockaddr_i *b, bool port = true) {
	if (a->v4.sin_family != b->v4.sin_family) return false;
	if (a->v4.sin_family == AF_INET) return a->v4.sin_addr.s_addr == b->v4.sin_addr.s_addr && (!port || a->v4.sin_port == b->v4.sin_port);
	return !memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, 16) && (!port || a->v6.sin6_port == b->v6.sin6_port);
}
static ssize_t cut_recv(int fd, struct msghdr *m, int fl) {
	auto i = by_fd.find(fd);
	if (i != by_fd.end() && i->second->n_recv++ == i->second->fault_at) {
		n_fault++;
		i->second->err_left++;
		errno = frng->below(2) ? ENOMEM : ENOBUFS;
		return -1;
	}
	ssize_t r = io::real_recvmsg(fd, m, fl);
	if (r < 0 && errno == EAGAIN) {
		n_wait++;
		errno = EAGAIN;
	}
	return r;
}
// one received datagram: the buffers' pieces and what the read returned
static void received(Sock *s, const std::vector<std::vector<char>> &piece, int got, const sockaddr_i *from) {
	Sock *f = nullptr;
	for (auto &u : socks)
		if (same(&u->addr, from)) f = u.get();
	CHECK(f, "socket %d: a datagram of %d bytes has the sender %s:%d, which sent nothing", s->id, got, show(from).c_str(), ksocket_addr_port(from));
	auto &q = s->in[f->id];
	CHECK(!q.empty(), "socket %d: received %d bytes from socket %d, which has sent nothing more", s->id, got, f->id);
	Msg m = q.front();
	q.pop_front();
	long room = 0;
	for (auto &p : piece) room += (long)p.size();
	CHECK(got == std::min<long>(m.len, room), "socket %d: a datagram of %d bytes from socket %d read with %ld bytes of room reports %d", s->id, m.len, f->id, room, got);
	long at = 0;
	for (size_t i = 0; i < piece.size(); i++)
		for (size_t j = 0; j < piece[i].size(); j++, at++) {
			uint8_t want = at < got ? net::byte_at(m.key, at) : 0xA5;
			CHECK((uint8_t)piece[i][j] == want, "socket %d: byte %ld of a datagram of %d from socket %d (buffer %zu+%zu) is %02x, not %02x", s->id, at, m.len, f->id, i, j, (uint8_t)piece[i][j], want);
		}
	if (s->c) {
		sockaddr_i d;
		memset(&d, 0, sizeof d);
		d.v4.sin_family = s->v6 ? AF_INET6 : AF_INET;
		int r = kudp_get_recvaddr(s->c, (struct sockaddr *)&d);
		if (s->pktinfo) {
			n_info++;
			n_bc += m.to.v4.sin_family == AF_INET && m.to.v4.sin_addr.s_addr == htonl(0x7fffffffu);
			CHECK(r == 0 && same(&d, &m.to, false), "socket %d: a datagram sent to %s is reported (%d) as sent to %s", s->id, show(&m.to).c_str(), r, show(&d).c_str());
		} else
			CHECK(r != 0, "socket %d: reports a destination without having asked for it", s->id);
	}
	s->outstanding -= m.len + 2000;
	s->got++;
	n_got++;
	n_trunc += m.len > room;
	n_empty += m.len == 0;
	n_big += m.len > 20000;
	n_v6 += s->v6;
}
struct Cb { Sock *s; kfiber_cond *cond; int got, calls; };
static kev_result on_read(KOPAQUE data, void *arg, int got) {
	Cb *b = (Cb *)arg;
	CHECK(b->calls++ == 0, "socket %d: a read completes twice", b->s->id);
	CHECK(kgl_get_tls_selector() == get_selector_by_index(b->s->sel), "socket %d: a read completes on another loop", b->s->id);
	b->got = got;
	b->cond->f->notice(b->cond, 1);
	return kev_ok;
}
static int reader(Sock *s) {
	size_t n = 0;
	while (s->got < s->expect) {
		auto &shape = s->bufs[n++ % s->bufs.size()];
		std::vector<std::vector<char>> piece;
		std::vector<kgl_iovec> v(shape.size());
		for (size_t i = 0; i < shape.size(); i++) {
			piece.emplace_back(shape[i], (char)0xA5);
		}
		for (size_t i = 0; i < shape.size(); i++) v[i].iov_base = piece[i].data(), v[i].iov_len = piece[i].size();
		int got;
		if (s->cb_style && (n & 1)) {
			n_cb++;
			Cb b = {s, kfiber_cond_init(true), 0, 0};
			kgl_iovec w;
			w.iov_base = (char *)v.data();
			w.iov_len = (int)v.size();
			kh::post(s->sel, [s, &w, &b] { selectable_read(&s->c->st, on_read, &w, &b); });
			b.cond->f->wait(b.cond, NULL);
			b.cond->f->release(b.cond);
			got = b.got;
		} else {
			got = sh_net_readv(s->c, v.data(), (int)v.size());
			CHECK(kgl_get_tls_selector() == get_selector_by_index(s->sel), "socket %d: a read completes on another loop", s->id);
		}
		if (got < 0) {
			CHECK(s->err_left > 0, "socket %d: a read failed (%d) without a reason", s->id, got);
			s->err_left--;
			continue;
		}
		CHECK(s->err_left == 0, "socket %d: an error was not reported", s->id);
		received(s, piece, got, &s->c->addr);
	}
	s->rdone = true;
	return 0;
}
static void raw_reader(Sock *s) {
	std::vector<char> b(66000);
	while (s->got < s->expect) {
		sockaddr_i from;
		memset(&from, 0, sizeof from);
		socklen_t n = sizeof from;
		ssize_t r = ::recvfrom(s->fd, b.data(), b.size(), MSG_DONTWAIT, (struct sockaddr *)&from, &n);
		if (r < 0) {
			ds::sleep_ms(1 + frng->below(20));
			continue;
		}
		std::vector<std::vector<char>> p(1, std::vector<char>(b.begin(), b.begin() + r));
		p[0].resize(66000, (char)0xA5);
		received(s, p, (int)r, &from);
	}
	s->rdone = true;
}
static void send_all(Sock *s, const std::vector<Send> &plan, bool fiber) {
	std::vector<char> b(66000);
	for (auto &o : plan) {
		Sock *d = socks[o.to].get();
		while (d->outstanding > 100000) fiber ? (void)kfiber_msleep(10) : ds::sleep_ms(1 + frng->below(10));
		if (o.pause) fiber ? (void)kfiber_msleep(o.pause) : ds::sleep_ms(o.pause);
		Msg m = {o.len, (uint32_t)n_sent++ + 17, d->addr};
		if (d->any) { // any address of the loopback network reaches it
			if (!d->v6) m.to.v4.sin_addr.s_addr = htonl(have_bc && frng->below(4) == 0 ? 0x7fffffffu : 0x7f000001u + frng->below(50000));
		}
		net::fill(b.data(), m.key, 0, o.len);
		bool fits = o.len <= 65507;
		if (fits) {
			d->in[s->id].push_back(m);
			d->outstanding += o.len + 2000;
		} else
			n_oversize++;
		bool ok;
		if (!s->lib)
			ok = ::sendto(s->fd, b.data(), o.len, 0, (struct sockaddr *)&m.to, ksocket_addr_len(&m.to)) == o.len;
		else if (o.v2) {
			int r = kudp_send(s->c, (struct sockaddr *)&m.to, ksocket_addr_len(&m.to), b.data(), o.len);
			CHECK(r == (fits ? o.len : -1), "socket %d: sending %d bytes reports %d", s->id, o.len, r);
			ok = r == o.len;
		} else
			ok = kudp_send_to(s->c, &m.to, b.data(), o.len);
		CHECK(ok == fits, "socket %d: sending %d bytes to socket %d %s", s->id, o.len, d->id, ok ? "succeeds" : strerror(errno));
		if (fiber && frng->below(4) == 0) kfiber_msleep(0);
		if (!fiber) ds::yield();
	}
}
static void run_case() {
	ds::Config cfg = ds::draw_config(true);
	int nsel = 1 << draw(2);
	Rng r(draw_seed());
	frng = &r;
	static int have6 = -1;
	if (have6 < 0) {
		int f = socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0);
		struct sockaddr_in6 a;
		memset(&a, 0, sizeof a);
		a.sin6_family = AF_INET6;
		a.sin6_addr = in6addr_loopback;
		have6 = f >= 0 && bind(f, (struct sockaddr *)&a, sizeof a) == 0;
		if (f >= 0) ::close(f);
	}
	if (have_bc < 0) { // is the broadcast address of the loopback network delivered here?
		int f = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0), one = 1;
		struct sockaddr_in a;
		socklen_t l = sizeof a;
		memset(&a, 0, sizeof a);
		a.sin_family = AF_INET;
		setsockopt(f, SOL_SOCKET, SO_BROADCAST, &one, sizeof one);
		have_bc = f >= 0 && bind(f, (struct sockaddr *)&a, sizeof a) == 0 && getsockname(f, (struct sockaddr *)&a, &l) == 0;
		a.sin_addr.s_addr = htonl(0x7fffffffu);
		char b[4];
		have_bc = have_bc && sendto(f, "x", 1, 0, (struct sockaddr *)&a, sizeof a) == 1 && recv(f, b, sizeof b, MSG_DONTWAIT) == 1;
		if (f >= 0) ::close(f);
	}
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(3600, 3600);
	int fds0 = io::open_fds(), n = range(2, 5);
	static std::vector<std::vector<Send>> plans;
	plans.resize(n);
	for (int i = 0; i < n; i++) {
		Sock *s = new Sock;
		socks.emplace_back(s);
		s->id = i;
		s->sel = (int)draw(nsel);
		s->v6 = chance(1, 3) && have6 == 1;
		s->lib = i == 0 || chance(2, 3);
		s->any = chance(1, 4) && i;
		s->pktinfo = s->lib && chance(1, 2);
		s->cb_style = chance(1, 3);
		s->reader = true;
		if (s->lib && chance(1, 4)) s->fault_at = (int)draw(10);
		int nb = range(1, 4);
		for (int k = 0; k < nb; k++) {
			std::vector<int> v;
			int np = range(1, 5);
			for (int j = 0; j < np; j++) v.push_back(chance(1, 8) ? 0 : size_dist(1, 30000));
			s->bufs.push_back(v);
		}
		if (s->lib) {
			s->c = kudp_new2((s->v6 ? KSOCKET_ONLY_IPV6 : 0) | (s->pktinfo ? KSOCKET_IP_PKTINFO : 0), get_selector_by_index(s->sel));
			CHECK(s->c, "cannot create a socket");
			s->fd = s->c->st.fd;
		} else
			s->fd = socket(s->v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
		int big = 1 << 20;
		setsockopt(s->fd, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
		setsockopt(s->fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
		int one = 1;
		setsockopt(s->fd, SOL_SOCKET, SO_BROADCAST, &one, sizeof one);
		memset(&s->addr, 0, sizeof s->addr);
		if (s->v6) {
			s->addr.v6.sin6_family = AF_INET6;
			if (!s->any) s->addr.v6.sin6_addr = in6addr_loopback;
		} else {
			s->addr.v4.sin_family = AF_INET;
			s->addr.v4.sin_addr.s_addr = htonl(s->any ? 0 : 0x7f000002u + draw(200000));
		}
		bool ok = s->lib ? kudp_bind(s->c, &s->addr) : bind(s->fd, (struct sockaddr *)&s->addr, ksocket_addr_len(&s->addr)) == 0;
		CHECK(ok, "socket %d: cannot bind to %s: %s", i, show(&s->addr).c_str(), strerror(errno));
		sockaddr_i want = s->addr;
		socklen_t l = sizeof s->addr;
		getsockname(s->fd, (struct sockaddr *)&s->addr, &l);
		CHECK(same(&want, &s->addr, false), "socket %d: bound to %s instead of %s", i, show(&s->addr).c_str(), show(&want).c_str());
		if (s->any) {
			if (s->v6) s->addr.v6.sin6_addr = in6addr_loopback;
			else s->addr.v4.sin_addr.s_addr = htonl(0x7f000001);
		}
		by_fd[s->fd] = s;
		std::string t;
		for (auto &v : s->bufs) {
			t += " [";
			for (int x : v) t += " " + kh::ll(x);
			t += " ]";
		}
		logf("socket %d: %s on loop %d, ipv%d%s%s, fault %d, buffers%s", i, s->lib ? "library" : "raw", s->sel, s->v6 ? 6 : 4, s->any ? ", any address" : "", s->pktinfo ? ", destination wanted" : "", s->fault_at, t.c_str());
	}
	for (int i = 0; i < n; i++) {
		int k = size_dist(i ? 0 : 1, 16);
		std::string t;
		for (int j = 0; j < k; j++) {
			Send o;
			o.to = (int)draw(n);
			if (socks[o.to]->v6 != socks[i]->v6) {
				o.to = -1;
				for (int x = 0; x < n; x++)
					if (socks[x]->v6 == socks[i]->v6) o.to = x;
			}
			o.len = chance(1, 25) ? 65507 - (int)draw(2) : chance(1, 40) ? 65508 + (int)draw(5) : chance(1, 10) ? 0 : size_dist(1, 40000);
			if (socks[i]->v6 && o.len > 65507) o.len = 65500;
			o.pause = chance(1, 4) ? range(1, 250) : 0;
			o.v2 = chance(1, 2);
			if (o.to < 0) continue;
			plans[i].push_back(o);
			if (o.len <= 65507) socks[o.to]->expect++;
			t += " " + kh::ll(o.len) + ">" + kh::ll(o.to);
		}
		logf("socket %d sends:%s", i, t.c_str());
	}
	io::recvmsg_hook = cut_recv;
	int left_send = n;
	for (auto &u : socks) {
		Sock *s = u.get();
		alive++;
		if (s->lib) {
			kh::fiber(s->sel, [s] { return reader(s); });
			if (s->id & 1)
				ds::spawn([s, &left_send] { send_all(s, plans[s->id], false); left_send--; });
			else
				kh::fiber(s->sel, [s, &left_send] { send_all(s, plans[s->id], true); left_send--; return 0; });
		} else {
			ds::spawn([s] { raw_reader(s); });
			ds::spawn([s, &left_send] { send_all(s, plans[s->id], false); left_send--; });
		}
	}
	bool ok = ds::run_until([&] {
		if (left_send) return false;
		for (auto &s : socks)
			if (s->got < s->expect) return false;
		return true;
	}, 120000);
	if (!ok) {
		for (auto &s : socks) logf("socket %d: received %ld of %ld", s->id, s->got, s->expect);
		fail("datagrams were lost: no progress for two minutes");
	}
	ds::run_until([] { return false; }, 250);
	for (auto &s : socks) {
		CHECK(s->rdone, "socket %d: a reader did not end", s->id);
		char b[8];
		CHECK(::recv(s->fd, b, sizeof b, MSG_DONTWAIT) < 0, "socket %d: received more than was sent", s->id);
	}
	int open = n;
	for (auto &u : socks) {
		Sock *s = u.get();
		if (s->lib)
			kh::fiber(s->sel, [s, &open] { kfiber_net_close(s->c); open--; return 0; });
		else
			::close(s->fd), open--;
	}
	CHECK(ds::run_until([&] { return open == 0; }, 30000), "closing a socket does not end");
	for (auto &s : socks) CHECK(s->err_left == 0, "socket %d: an error was not reported", s->id);
	CHECK(io::open_fds() <= fds0, "%d descriptors are left open", io::open_fds() - fds0);
	count("datagrams received", n_got);
	count("broadcast destination reported", n_bc);
	count("truncated", n_trunc);
	count("empty", n_empty);
	count("above 20000 bytes", n_big);
	count("too large to send", n_oversize);
	count("over IPv6", n_v6);
	count("with destination", n_info);
	count("reads that had to wait", n_wait);
	count("callback reads", n_cb);
	count("injected errors", n_fault);
	if (n_got >= 2 && n_wait) nontrivial();
}
Property pbt::property = {
	"C24",
	"2-5 UDP sockets (library sockets on 1, 2 or 4 loops, raw ones on threads; IPv4 on 127.0.0.0/8 and IPv6 addresses or any address, with and without destination information); each sends 0-16 datagrams (0 to 65507 bytes, some too large) from fibers or threads, and reads with generated vectors of 1-5 buffers (also empty and too small ones) by fiber or callback; receive errors are injected. Oracle: every read returns exactly the next unread datagram of its reported sender, truncated only to the buffers, bytes in order and nothing written beyond; the sender and destination addresses are complete; errors are reported once; no datagram is lost or duplicated. Non-trivial: at least two datagrams and a read that had to wait.",
	run_case, 1, 60000, 1000000, 30, 400, 200, {"loopback UDP delivers everything within the receive buffer, in order per sender and receiver"}};
