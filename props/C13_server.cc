// kv: variant=fast:0.6,std:0.4
// Servers: each connection handed out once, closing releases everything.
#include "refs.h"
#include "net.h"
#include "shim.h"
#include <sys/un.h>
#include <sys/stat.h>
using namespace pbt;

enum { OPEN, EXIST, FIBER };
static const char *mn[] = {"kserver_open", "kserver_open_exsit", "fiber accept"};
struct Srv;
struct Client {
	Srv *s;
	int id, fd = -1;
	int lib = -1; // time-out of the library's connect
	bool connected = false, refused = false, mute, rst, named, late = false;
	int64_t at = -1;
	struct sockaddr_storage me;
	socklen_t mlen = 0;
	int handed = 0; // connections of the server that turned out to be this client
	bool answered = false, over = false;
	int64_t answer_due = -1;
};
struct Srv {
	int id, mode, fam, sel, flag;
	std::string ip;
	int port = 0;
	kserver *s = nullptr;
	bool open = false, closed = false, closing = false, released = false, freed = false, tls = false;
	int64_t close_at = -1;
	int close_after = -1; // close from the callback of the n-th connection
	int accepted = 0, live = 0, acceptors = 0, generation = 0;
	struct sockaddr_storage addr;
	socklen_t alen = 0;
	std::vector<std::unique_ptr<Client>> cl;
	std::vector<kgl_ssl_ctx *> ctxs; // contexts it may use
	int hold = 0;
	bool release_first = false;
	int nameless = 0; // accepted connections without a name and without data
};
static std::vector<std::unique_ptr<Srv>> srv;
static long n_libc;
static Srv *connecting;
static Rng *frng;
static int p_fault, n_fault, n_acc, n_named, n_close_cb, n_reopen, n_cross, n_refused_open, n_burst, n_mute, n_swap, n_late;
static int nsel, n_named_clients;
static std::string dir;

static int fault_accept(int fd, struct sockaddr *a, socklen_t *l, int fl) {
	if (p_fault && (int)frng->below(10) < p_fault) {
		static const int e[] = {ECONNABORTED, EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO};
		n_fault++;
		errno = e[frng->below(7)];
		return -1;
	}
	return io::real_accept4(fd, a, l, fl);
}
static std::string show(const struct sockaddr_storage &a, socklen_t n) {
	char b[200];
	if (a.ss_family == AF_INET) return std::string(inet_ntop(AF_INET, &((struct sockaddr_in &)a).sin_addr, b, sizeof b)) + ":" + kh::ll(ntohs(((struct sockaddr_in &)a).sin_port));
	if (a.ss_family == AF_INET6) return std::string(inet_ntop(AF_INET6, &((struct sockaddr_in6 &)a).sin6_addr, b, sizeof b)) + "]:" + kh::ll(ntohs(((struct sockaddr_in6 &)a).sin6_port));
	if (a.ss_family == AF_UNIX) return std::string("unix:") + (n > 2 ? ((struct sockaddr_un &)a).sun_path : "");
	return "family " + kh::ll(a.ss_family);
}
// the address of the peer, as the connection reports it
static void conn_addr(kconnection *c, struct sockaddr_storage &a, socklen_t &n) {
	memset(&a, 0, sizeof a);
	if (c->addr.v4.sin_family == AF_UNIX) {
		n = (socklen_t)c->addr.u.size;
		CHECK(n == sizeof(struct sockaddr_un) && c->addr.u.addr, "a unix connection has an address of %d bytes", n);
		memcpy(&a, c->addr.u.addr, n);
		n = ((struct sockaddr_un &)a).sun_path[0] ? (socklen_t)(2 + strlen(((struct sockaddr_un &)a).sun_path)) : 2;
		return;
	}
	n = c->addr.v4.sin_family == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
	memcpy(&a, &c->addr, n);
}
static bool same(const struct sockaddr_storage &a, const struct sockaddr_storage &b) {
	if (a.ss_family != b.ss_family) return false;
	if (a.ss_family == AF_INET) return ((struct sockaddr_in &)a).sin_port == ((struct sockaddr_in &)b).sin_port && ((struct sockaddr_in &)a).sin_addr.s_addr == ((struct sockaddr_in &)b).sin_addr.s_addr;
	if (a.ss_family == AF_INET6) return ((struct sockaddr_in6 &)a).sin6_port == ((struct sockaddr_in6 &)b).sin6_port && !memcmp(&((struct sockaddr_in6 &)a).sin6_addr, &((struct sockaddr_in6 &)b).sin6_addr, 16);
	return !strcmp(((struct sockaddr_un &)a).sun_path, ((struct sockaddr_un &)b).sun_path);
}
static void do_close(Srv *s) {
	if (s->closing || !s->open) return;
	s->closing = true;
	s->close_at = ds::mono_us();
	kserver *k = s->s;
	kserver_close(k);
	if (s->release_first) {
		s->released = true;
		kserver_release(k);
	}
	s->closed = true;
}
static void freed(KOPAQUE data) {
	Srv *s = (Srv *)data;
	CHECK(!s->freed, "server %d was freed twice", s->id);
	CHECK(s->released, "server %d was freed before its user released it", s->id);
	CHECK(s->live == 0, "server %d was freed with %d connections left", s->id, s->live);
	s->freed = true;
	s->s = nullptr;
}
static void handle(Srv *s, kconnection *c) {
	char b[8];
	struct sockaddr_storage a;
	socklen_t n;
	conn_addr(c, a, n);
	Client *who = nullptr;
	CHECK(a.ss_family == s->fam, "server %d: a connection reports %s as its peer", s->id, show(a, n).c_str());
	if (n > 2) {
		n_named++;
		for (;;) {
			bool busy = connecting == s;
			for (auto &cl : s->cl)
				if (cl->mlen > 2 && same(cl->me, a)) who = cl.get();
			if (who || !busy) break;
			kfiber_msleep(0); // its address is not known here before the library's connect returns
		}
		CHECK(who, "server %d: a connection reports the peer %s, which did not connect", s->id, show(a, n).c_str());
	}
	int got = sh_net_read(c, b, 4);
	CHECK(kgl_get_tls_selector() == c->st.base.selector, "server %d: a connection is served on another loop", s->id);
	if (got == 4) {
		uint32_t id;
		memcpy(&id, b, 4);
		CHECK(id < s->cl.size(), "server %d: a client sent an unknown number", s->id);
		if (who) CHECK(who->id == (int)id, "server %d: client %u is reported as %s, the address of client %d", s->id, id, show(a, n).c_str(), who->id);
		who = s->cl[id].get();
		if (!(n > 2)) CHECK(who->mlen <= 2, "server %d: client %d at %s is reported without an address", s->id, who->id, show(who->me, who->mlen).c_str());
	}
	if (who) {
		CHECK(who->handed++ == 0, "server %d: the connection of client %d was handed out twice", s->id, who->id);
		if (!who->mute && !who->rst) CHECK(got == 4, "server %d: reading from client %d gives %d", s->id, who->id, got);
	} else
		s->nameless++;
	if (got == 4) {
		b[0] = (char)who->id;
		sh_net_write(c, b, 1);
		if (s->hold) kfiber_msleep(s->hold);
		got = sh_net_read(c, b, 1);
		CHECK(got <= 0, "server %d: unexpected data from client %d", s->id, who->id);
	}
	s->live--;
	kfiber_net_close(c);
}
static Srv *server_of(kserver *k) {
	for (auto &s : srv)
		if (s->s == k) return s.get();
	fail("a connection belongs to no server");
}
static kev_result accepted(kconnection *c) {
	Srv *s = server_of(c->server);
	CHECK(!s->freed, "server %d hands out a connection after it was freed", s->id);
	n_acc++;
	s->accepted++;
	s->live++;
	CHECK(c->st.fd >= 0 && kgl_get_tls_selector() == c->st.base.selector, "server %d hands out a connection on another loop than the connection's", s->id);
	if (s->tls) {
		SSL_CTX *x = c->st.ssl ? SSL_get_SSL_CTX(c->st.ssl->ssl) : NULL;
		bool ok = false;
		for (auto k : s->ctxs) ok |= kgl_get_ssl_ctx(k) == x;
		CHECK(ok, "server %d: a connection does not have a TLS context of the server", s->id);
	} else
		CHECK(!c->st.ssl, "server %d: a plain connection has TLS state", s->id);
	kfiber_create2(c->st.base.selector, kh::run_fiber_fn, new std::function<int()>([s, c] {
		handle(s, c);
		return 0;
	}), 0, 0, NULL);
	if (s->close_after >= 0 && s->accepted > s->close_after) {
		s->close_after = -1;
		n_close_cb++;
		do_close(s);
	}
	return kev_ok;
}
static void acceptor(Srv *s, kserver_selectable *ss) {
	for (;;) {
		kconnection *c = (kconnection *)8;
		int r = kfiber_net_accept(ss, &c);
		CHECK(kgl_get_tls_selector() == ss->st.base.selector, "server %d: an accept completes on another loop", s->id);
		if (r != 0 || c == NULL) {
			CHECK(s->closing, "server %d: an accept ended (%d) though the server is not closed", s->id, r);
			break;
		}
		CHECK(c != (kconnection *)8, "server %d: an accept returned no connection", s->id);
		accepted(c);
	}
	s->acceptors--;
	kserver_selectable_destroy(ss);
}
static bool do_open(Srv *s) {
	bool r = false;
	if (s->mode == EXIST) {
		int fd = ksocket_listen(&s->s->addr, s->flag);
		CHECK(fd >= 0, "server %d: cannot listen on %s: %s", s->id, s->ip.c_str(), strerror(errno));
		r = kserver_open_exsit(s->s, fd, sh_on_accept);
	} else if (s->mode == FIBER) {
		kserver_selectable *ss = (kserver_selectable *)8;
		CHECK(kfiber_net_listen(s->s, s->flag, &ss) == 0, "server %d: kfiber_net_listen fails", s->id);
		r = ss != NULL;
		if (ss) {
			s->acceptors++;
			kfiber_create2(ss->st.base.selector, kh::run_fiber_fn, new std::function<int()>([s, ss] {
				acceptor(s, ss);
				return 0;
			}), 0, 0, NULL);
		}
	} else
		r = kserver_open(s->s, s->flag, sh_on_accept);
	if (r) {
		s->alen = s->fam == AF_UNIX ? sizeof(struct sockaddr_un) : s->fam == AF_INET ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6);
		memcpy(&s->addr, &s->s->addr, s->alen);
		if (s->fam != AF_UNIX) {
			s->port = ksocket_addr_port(&s->s->addr);
			CHECK(s->port != 0, "server %d is open on port 0", s->id);
		}
	}
	return r;
}
// run fn on a fiber of the server's loop and wait, or here
static void on_server_loop(Srv *s, bool fiber, std::function<void()> fn) {
	if (!fiber) return fn();
	bool done = false;
	kh::fiber(s->sel, [&] {
		fn();
		done = true;
		return 0;
	});
	if (!ds::run_until([&] { return done; }, 60000)) fail("server %d: opening or closing takes more than a minute", s->id);
}
static void bind_server(Srv *s) {
	s->s = kserver_init();
	kserver_set_opaque(s->s, freed, s);
	kgl_ssl_ctx *x = NULL;
	if (s->tls) {
		x = kgl_new_ssl_ctx(SSL_CTX_new(TLS_server_method()));
		kgl_add_ref_ssl_ctx(x); // kept for the comparison
		s->ctxs.push_back(x);
	}
	CHECK(kserver_bind(s->s, s->ip.c_str(), (uint16_t)s->port, x), "server %d: cannot bind %s", s->id, s->ip.c_str());
	CHECK(s->s->addr.v4.sin_family == s->fam, "server %d: bound to another family", s->id);
	s->closed = s->closing = s->released = s->freed = false;
	s->close_at = -1;
}
static void start_client(Client *c) {
	Srv *s = c->s;
	bool lib = c->lib >= 0 && s->fam == AF_INET6; // through the library's blocking connect
	c->fd = lib ? -1 : socket(s->fam, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
	if (c->fd < 0 && !lib) discard("socket");
	if (!lib)
	if (c->named || s->fam == AF_INET) {
		memset(&c->me, 0, sizeof c->me);
		if (s->fam == AF_UNIX) {
			struct sockaddr_un *u = (struct sockaddr_un *)&c->me;
			u->sun_family = AF_UNIX;
			std::string p = dir + "/c" + kh::ll(s->id) + "-" + kh::ll(n_named_clients++);
			size_t want = frng->below(107);
			while (p.size() < want) p += "x";
			snprintf(u->sun_path, sizeof u->sun_path, "%s", p.c_str());
			if (bind(c->fd, (struct sockaddr *)u, sizeof *u)) discard("bind client");
		} else if (s->fam == AF_INET) {
			struct sockaddr_in *a = (struct sockaddr_in *)&c->me;
			a->sin_family = AF_INET;
			a->sin_addr.s_addr = htonl(0x7f000000u | (frng->below(0xfffffd) + 1));
			// which listener the kernel gives it to depends on the addresses: the same ones each time
			a->sin_port = htons((uint16_t)(10000 + frng->below(50000)));
			int one = 1;
			setsockopt(c->fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
			if (bind(c->fd, (struct sockaddr *)a, sizeof *a)) discard("bind client");
		}
	}
	struct sockaddr_storage to = s->addr;
	if (s->fam == AF_INET && ((struct sockaddr_in &)to).sin_addr.s_addr == 0) ((struct sockaddr_in &)to).sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	if (s->fam == AF_INET6 && IN6_IS_ADDR_UNSPECIFIED(&((struct sockaddr_in6 &)to).sin6_addr)) ((struct sockaddr_in6 &)to).sin6_addr = in6addr_loopback;
	c->at = ds::mono_us();
	int r = 0;
	if (lib) {
		n_libc++;
		connecting = s;
		sockaddr_i t, b;
		memset(&t, 0, sizeof t);
		memcpy(&t, &to, s->alen);
		memset(&b, 0, sizeof b);
		b.v6.sin6_family = AF_INET6;
		b.v6.sin6_addr = in6addr_loopback;
		int fds = io::open_fds();
		c->fd = ksocket_connect(&t, c->named ? &b : NULL, c->lib);
		if (c->fd < 0) {
			r = -1;
			CHECK(io::open_fds() <= fds, "a failed connect leaves a descriptor");
		} else {
			CHECK((fcntl(c->fd, F_GETFL) & O_NONBLOCK) == 0 && (fcntl(c->fd, F_GETFD) & FD_CLOEXEC), "a connected socket has wrong flags");
			fcntl(c->fd, F_SETFL, O_NONBLOCK);
		}
	} else
	r = connect(c->fd, (struct sockaddr *)&to, s->alen);
	if (r) logf("  client %d: connect: %s", c->id, strerror(errno));
	if (r && !lib && errno == EINPROGRESS) {
		struct sockaddr_storage p;
		socklen_t n = sizeof p;
		if (getpeername(c->fd, (struct sockaddr *)&p, &n) == 0) r = 0;
	}
	if (r) {
		connecting = nullptr;
		c->refused = true;
		if (c->fd >= 0) ::close(c->fd);
		c->fd = -1;
		c->over = true;
		return;
	}
	c->connected = true;
	c->mlen = sizeof c->me;
	memset(&c->me, 0, sizeof c->me);
	if (getsockname(c->fd, (struct sockaddr *)&c->me, &c->mlen)) discard("getsockname");
	connecting = nullptr;
	for (auto &o : srv)
		for (auto &k : o->cl)
			if (k.get() != c && k->mlen > 2 && c->mlen > 2 && same(k->me, c->me)) discard("a client address was used again");
	if (!c->mute) {
		uint32_t id = (uint32_t)c->id;
		send(c->fd, &id, 4, MSG_NOSIGNAL);
	}
	if (c->mute || c->rst) {
		struct linger l = {1, 0};
		if (c->rst || (s->fam == AF_INET && frng->below(16))) setsockopt(c->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
		::close(c->fd);
		c->fd = -1;
		c->over = true;
	}
}
static void poll_client(Client *c) {
	if (c->fd < 0 || c->over) return;
	char b[4];
	ssize_t r = recv(c->fd, b, 4, 0);
	if (r < 0 && errno == EAGAIN) return;
	if (r == 1) {
		CHECK(!c->answered && (unsigned char)b[0] == (c->id & 0xff), "server %d: client %d got the answer for another one", c->s->id, c->id);
		c->answered = true;
	}
	struct linger l = {1, 0}; // leave nothing in TIME_WAIT
	setsockopt(c->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
	::close(c->fd);
	c->fd = -1;
	c->over = true;
}
// how long an established connection may have to wait: each injected failure delays by one retry
static int64_t slack_us(Srv *) { return 1500000 + (int64_t)n_fault * 400000; }
// established connections that have to be handed out still
static bool missing(Srv *s) {
	int nameless = 0;
	for (auto &c : s->cl) {
		if (!c->connected || c->handed || (s->close_at >= 0 && c->at + slack_us(s) >= s->close_at)) continue;
		if (c->mlen > 2 || !(c->mute || c->rst)) return true;
		nameless++;
	}
	return s->nameless < nameless;
}
static void check_clients(Srv *s) {
	int nameless = 0, must = 0;
	for (auto &c : s->cl) {
		if (!c->connected) continue;
		bool risk = s->close_at >= 0 && c->at + slack_us(s) >= s->close_at;
		if (c->mlen <= 2 && (c->mute || c->rst)) { // cannot be told apart
			nameless += 1;
			must += !risk;
			continue;
		}
		CHECK(risk || c->handed == 1, "server %d: client %d connected at %lld us and was never handed out%s", s->id, c->id, (long long)c->at, s->close_at >= 0 ? (" before the close at " + kh::ll(s->close_at)).c_str() : "");
		if (!risk && !c->mute && !c->rst) CHECK(c->answered, "server %d: client %d was disconnected without an answer", s->id, c->id);
		CHECK(c->handed || !c->answered, "server %d: client %d got an answer but was never handed out", s->id, c->id);
	}
	// a named one that reset before it was read is told apart by its address, the others are counted
	CHECK(s->nameless <= nameless, "server %d: %d connections were handed out for %d nameless silent clients", s->id, s->nameless, nameless);
	CHECK(s->nameless + [&] { int n = 0; for (auto &c : s->cl) n += c->handed && c->mlen <= 2 && (c->mute || c->rst); return n; }() >= must, "server %d: only %d of %d nameless silent clients were handed out", s->id, s->nameless, must);
}
static std::unique_ptr<Client> new_client(Srv *s, bool plain) {
	std::unique_ptr<Client> c(new Client);
	c->s = s;
	c->id = (int)s->cl.size();
	c->mute = !plain && chance(1, 5);
	c->rst = !plain && chance(1, 6);
	c->named = chance(1, 2);
	c->lib = chance(1, 2) ? (int)draw(3) : -1;
	n_mute += c->mute;
	return c;
}
static void holders() {
	static int freed;
	if (chance(1, 2)) {
		kserver *p = kserver_init();
		p->free_opaque = [](void *) { freed++; };
		refs::race({"server", [p] { kserver_refs(p); }, [p] { kserver_release(p); },
			[] { CHECK(freed == 0, "a server was freed while held"); },
			[] { return freed == 1; }, p});
		return;
	}
	kgl_ssl_ctx *p = kgl_new_ssl_ctx(NULL);
	refs::race({"TLS context", [p] { sh_add_ref_ssl_ctx(p); }, [p] { sh_release_ssl_ctx(p); },
		[p] { CHECK(p->ctx == NULL, "a TLS context was freed while held"); },
		[] { return true; }, p});
}
static void run_case() {
	if (chance(1, 12)) return holders();
	ds::Config cfg = ds::draw_config(true);
	cfg.max_steps = 40000000;
	nsel = 1 << draw(3);
	p_fault = chance(1, 3) ? range(1, 7) : 0;
	uint64_t seed = draw_seed();
	Rng r(seed);
	frng = &r;
	dir = scratch_dir();
	kh::boot(nsel, cfg);
	selector_manager_set_timeout(3600, 3600);
	int fds0 = io::open_fds();
	sh_accepted = accepted;
	io::accept_hook = fault_accept;
	io::shutdown_hook = [](int fd, int) { CHECK(fd < 0 || fcntl(fd, F_GETFD) >= 0, "descriptor %d is shut down after it was closed: it may belong to another connection by then", fd); };
	logf("%d loops, accept failures %d/10", nsel, p_fault);
	int ns = range(1, 2);
	struct Step { int at, what, srv, n; bool fiber; };
	std::vector<Step> steps;
	for (int i = 0; i < ns; i++) {
		Srv *s = new Srv;
		srv.emplace_back(s);
		s->id = i;
		s->mode = (int)weighted({3, 2, 2});
		s->fam = weighted({4, 2, 3}) == 0 ? AF_INET : chance(2, 5) ? AF_INET6 : AF_UNIX;
		char b[80];
		// an address of this case's own: nobody else may take the port while it is closed
		uint32_t own = frng->next() & 0xffffff;
		snprintf(b, sizeof b, "127.%u.%u.%u", own >> 16, (own >> 8) & 0xff, 1 + own % 250);
		s->ip = s->fam == AF_INET ? b : s->fam == AF_INET6 ? "::1" : dir + "/s" + kh::ll(i);
		s->sel = (int)draw(nsel);
		if (s->fam == AF_INET6 && s->mode == OPEN && nsel > 1) s->mode = EXIST; // one address for all: the kernel's choice of a listener would differ each time
		if (s->fam == AF_INET && !chance(1, s->mode == OPEN ? 10 : 3)) {
			struct sockaddr_in a;
			memset(&a, 0, sizeof a);
			a.sin_family = AF_INET;
			inet_pton(AF_INET, s->ip.c_str(), &a.sin_addr);
			s->port = 1024 + (int)frng->below(60000);
			a.sin_port = htons((uint16_t)s->port);
			int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
			if (bind(fd, (struct sockaddr *)&a, sizeof a)) discard("the port is taken");
			::close(fd);
		}
		s->flag = chance(1, 4) && s->fam != AF_UNIX ? KSOCKET_FASTOPEN : 0;
		s->hold = chance(1, 3) ? range(1, 1500) : 0;
		s->release_first = chance(1, 2);
		s->tls = s->mode != FIBER && chance(1, 4);
		bool fiber = s->mode != OPEN || chance(1, 2);
		bool taken = s->fam == AF_INET && s->mode != EXIST && chance(1, 10);
		bind_server(s);
		int squat = -1;
		if (taken) { // somebody else has the port
			squat = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
			struct sockaddr_in a;
			memcpy(&a, &s->s->addr, sizeof a);
			socklen_t n = sizeof a;
			if (bind(squat, (struct sockaddr *)&a, sizeof a) || listen(squat, 5) || getsockname(squat, (struct sockaddr *)&a, &n)) discard("squat");
			memcpy(&s->s->addr, &a, sizeof a);
			s->port = ntohs(a.sin_port);
			n_refused_open++;
		}
		logf("server %d: %s on %s, loop %d%s%s%s%s hold %d", i, mn[s->mode], s->ip.c_str(), s->sel, fiber ? " from a fiber" : "", s->tls ? " with TLS contexts" : "", s->release_first ? ", released at once" : "", taken ? ", address taken" : "", s->hold);
		bool ok = false;
		on_server_loop(s, fiber, [&] { ok = do_open(s); });
		CHECK(ok == !taken, "server %d: opening %s", i, ok ? "succeeds on an address that is taken" : "fails");
		s->open = ok;
		if (taken) {
			::close(squat);
			CHECK(klist_empty(&s->s->ss) && s->s->refs == 1, "server %d: a failed opening leaves listeners or references", i);
			if (chance(1, 2)) { // and now it works
				on_server_loop(s, fiber, [&] { ok = do_open(s); });
				CHECK(ok, "server %d: opening fails after the address is free", i);
				s->open = true;
			}
		}
		if (!s->open) continue;
		int n = range(1, 6), t = 0;
		for (int k = 0; k < n; k++) {
			t += chance(1, 2) ? 0 : (int)draw(chance(1, 4) ? 2000 : 150);
			steps.push_back({t, 0, i, chance(1, 4) ? size_dist(1, 30) : range(1, 3), false});
			if (s->tls && chance(1, 3)) steps.push_back({t + (int)draw(100), 2, i, 0, chance(1, 2)});
		}
		if (chance(2, 3)) {
			// often right behind a burst, when accepting goes on at the same time
			int at = chance(1, 3) ? steps.back().at : chance(1, 2) ? (int)draw(t + 3000) : t + 3000 + (int)draw(100);
			if (chance(1, 4))
				s->close_after = (int)draw(6);
			else
				steps.push_back({at, 1, i, 0, chance(1, 2)});
			if (s->tls && chance(1, 3)) steps.push_back({std::max(0, at - 1), 2, i, 0, chance(1, 2)});
		}
	}
	std::stable_sort(steps.begin(), steps.end(), [](const Step &a, const Step &b) { return a.at < b.at; });
	int64_t t0 = ds::mono_us();
	auto poll_all = [] {
		for (auto &s : srv)
			for (auto &c : s->cl) poll_client(c.get());
	};
	for (auto &st : steps) {
		int64_t due = t0 + (int64_t)st.at * 1000;
		while (ds::mono_us() < due) {
			ds::run_until([] { return false; }, std::min<int64_t>(100, std::max<int64_t>(1, (due - ds::mono_us() + 999) / 1000)));
			poll_all();
		}
		Srv *s = srv[st.srv].get();
		if (st.what == 0) {
			logf("+%d ms: %d clients connect to server %d", st.at, st.n, s->id);
			if (st.n > 3) n_burst++;
			for (int k = 0; k < st.n; k++) {
				s->cl.push_back(new_client(s, false));
				start_client(s->cl.back().get());
				Client *c = s->cl.back().get();
				if (s->close_at < 0) CHECK(c->connected, "server %d: client %d is refused by an open server", s->id, c->id);
				if (chance(1, 3)) ds::yield();
			}
		} else if (st.what == 1) {
			logf("+%d ms: server %d is closed%s", st.at, s->id, st.fiber ? " on its loop" : "");
			on_server_loop(s, st.fiber, [s] { do_close(s); });
		} else if (!s->released && !s->closing) {
			logf("+%d ms: server %d gets a new TLS context", st.at, s->id);
			kgl_ssl_ctx *x = kgl_new_ssl_ctx(SSL_CTX_new(TLS_server_method()));
			kgl_add_ref_ssl_ctx(x);
			s->ctxs.push_back(x);
			n_swap++;
			on_server_loop(s, st.fiber, [s, x] { kserver_set_ssl_ctx(s->s, x); });
		}
	}
	auto quiet = [&] {
		for (auto &s : srv) {
			for (auto &c : s->cl)
				if (!c->over) return false;
			if (s->live || missing(s.get())) return false;
			if (s->closed && !s->freed && !klist_empty(&s->s->ss)) return false;
			if (s->closed && (s->acceptors || (s->released && !s->freed))) return false;
		}
		return true;
	};
	auto settle = [&](const char *when) {
		int64_t end = ds::mono_us() + 20000000 + (int64_t)n_fault * 400000;
		// everything that was established is handed out within the slack
		ds::run_until([] { return false; }, 1000);
		while (!quiet() && ds::mono_us() < end) {
			poll_all();
			ds::run_until([] { return false; }, 100);
		}
		if (!quiet())
			for (auto &s : srv) {
				for (auto &c : s->cl) CHECK(c->over, "server %d: client %d (connected at %lld us) waits forever%s", s->id, c->id, (long long)c->at, when);
				CHECK(s->live == 0, "server %d: %d connections did not end%s", s->id, s->live, when);
				if (s->closed) {
					CHECK(s->freed || klist_empty(&s->s->ss), "server %d was closed but keeps a listener%s", s->id, when);
					CHECK(!s->acceptors, "server %d was closed but an accept is still pending%s", s->id, when);
					CHECK(!s->released || s->freed, "server %d was closed and released but not freed%s", s->id, when);
				}
			}
		ds::run_until([] { return false; }, 1000 + n_fault * 5);
	};
	settle("");
	for (auto &s : srv) check_clients(s.get());
	p_fault = 0;
	// close what is open; then the address can be used again
	for (auto &s : srv) {
		if (!s->open) {
			s->released = true;
			kserver_release(s->s);
			CHECK(s->freed, "server %d was never open and is not freed by its release", s->id);
			continue;
		}
		if (!s->closed) on_server_loop(s.get(), chance(1, 2), [&] { do_close(s.get()); });
	}
	settle(" after the close");
	for (auto &u : srv) {
		Srv *s = u.get();
		if (!s->open) continue;
		if (s->fam != AF_INET6) {
			s->cl.clear();
			s->cl.push_back(new_client(s, true));
			start_client(s->cl[0].get());
			CHECK(s->cl[0]->refused, "server %d was closed but still accepts connections", s->id);
		}
		s->cl.clear();
		s->accepted = s->nameless = 0;
		s->close_after = -1;
		bool again = s->fam != AF_INET6 && chance(1, 2);
		if (again && !s->freed && chance(1, 2)) { // the same server once more
			s->closed = s->closing = false;
			s->close_at = -1;
		} else {
			if (!s->released) {
				s->released = true;
				kserver_release(s->s);
			}
			CHECK(s->freed, "server %d was closed and released but is not freed", s->id);
			if (!again) continue;
			bind_server(s);
		}
		n_reopen++;
		bool ok = false;
		on_server_loop(s, true, [&] { ok = do_open(s); });
		CHECK(ok, "server %d: its address cannot be used again after it was closed", s->id);
		int n = range(1, 3);
		for (int i = 0; i < n; i++) {
			s->cl.push_back(new_client(s, true));
			start_client(s->cl.back().get());
			CHECK(s->cl.back()->connected, "server %d was opened again but refuses connections", s->id);
		}
		settle(" after it was opened again");
		check_clients(s);
		on_server_loop(s, true, [&] { do_close(s); });
		settle(" after it was closed again");
		if (!s->released) {
			s->released = true;
			kserver_release(s->s);
		}
		CHECK(s->freed, "server %d was closed and released but is not freed", s->id);
	}
	for (auto &s : srv)
		for (auto x : s->ctxs) {
			CHECK(katom_get((void *)&x->refs) == 1, "server %d: a TLS context has %d references left after the server is gone", s->id, (int)katom_get((void *)&x->refs) - 1);
			kgl_release_ssl_ctx(x);
		}
	CHECK(io::open_fds() <= fds0, "%d descriptors are left open", io::open_fds() - fds0);
	if (n_libc) count("clients of the library's connect", n_libc);
	count("connections handed out", n_acc);
	count("peer addresses compared", n_named);
	count("accept failures injected", n_fault);
	count("bursts", n_burst);
	count("clients that went away at once", n_mute);
	count("closed from the accept handler", n_close_cb);
	count("opened again", n_reopen);
	count("address taken", n_refused_open);
	count("TLS contexts replaced", n_swap);
	if (n_acc >= 2) nontrivial();
}
Property pbt::property = {
	"C13",
	"1-2 servers on 1-4 loops (kserver_open with a listener per loop, kserver_open_exsit, fiber listen/accept; IPv4, IPv6, Unix; opened from a fiber or a plain thread; some with TLS contexts that are replaced), clients that connect one by one and in bursts, with generated own addresses, some silent, some resetting; accept failures are injected; a server is closed at a random moment, from its accept handler, its loop or another thread, and released before or after; an address may be taken at first. Oracle: each established connection is handed out once with its client's address and served on its loop (unless the close came within the accept delay), closing ends every accept, drops all listeners, frees the server once all is gone, no descriptor or context reference is left, a closed address refuses and can be opened again. Non-trivial: at least two connections were handed out.",
	run_case, 1, 60000, 1000000, 30, 500, 200,
	{"loopback connects complete in the kernel at once (bursts stay below the listen backlog)"},
};
