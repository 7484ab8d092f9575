// kv: variant=std
// Socket addresses: round trips, order/equality/hash laws, parsing.
#include "kh.h"
#include <arpa/inet.h>
using namespace pbt;

static Rng *R;
// heap copies: AddressSanitizer sees any access outside the object
template <class T> struct H {
	T *p;
	H() { p = (T *)malloc(sizeof(T)); for (size_t i = 0; i < sizeof(T); i++) ((char *)p)[i] = (char)R->next(); }
	~H() { free(p); }
	T *operator->() { return p; }
};
struct A { int fam; uint8_t b[16]; uint16_t port; };
static A draw_addr() {
	A a;
	memset(&a, 0, sizeof a);
	a.fam = chance(1, 2) ? AF_INET6 : AF_INET;
	int n = a.fam == AF_INET ? 4 : 16;
	uint32_t st = draw(4);
	for (int i = 0; i < n; i++)
		switch (st) {
		case 0: a.b[i] = chance(1, 4) ? (uint8_t)draw(256) : 0; break;
		case 1: a.b[i] = (uint8_t)draw(256); break;
		case 2: { static const uint8_t e[] = {0, 1, 127, 128, 255}; a.b[i] = e[draw(5)]; break; }
		default: a.b[i] = (uint8_t)draw(2); break;
		}
	if (a.fam == AF_INET6) {
		if (chance(1, 8)) { memset(a.b, 0, 10); a.b[10] = a.b[11] = 0xff; }
		if (a.b[0] == 0xfe && (a.b[1] & 0xc0) == 0x80) a.b[0] = 0xfd; // scoped addresses need an interface
		if (a.b[0] == 0xff) a.b[0] = 0x20;
	}
	static const uint16_t pe[] = {0, 1, 80, 65535, 255, 256, 32768};
	a.port = chance(1, 2) ? pe[draw(7)] : (uint16_t)draw(65536);
	return a;
}
static void put(const A &a, sockaddr_i *s) {
	if (a.fam == AF_INET) {
		s->v4.sin_family = AF_INET;
		s->v4.sin_port = htons(a.port);
		memcpy(&s->v4.sin_addr, a.b, 4);
	} else {
		s->v6.sin6_family = AF_INET6;
		s->v6.sin6_port = htons(a.port);
		memcpy(&s->v6.sin6_addr, a.b, 16);
		s->v6.sin6_scope_id = 0;
	}
}
static bool same(const A &a, const A &b) { return a.fam == b.fam && memcmp(a.b, b.b, 16) == 0; }
static bool holds(const A &a, const sockaddr_i *s) {
	if (s->v4.sin_family != a.fam) return false;
	return a.fam == AF_INET ? !memcmp(&s->v4.sin_addr, a.b, 4) : !memcmp(&s->v6.sin6_addr, a.b, 16);
}
static bool holds(const A &a, const ip_addr *s) { return s->sin_family == a.fam && !memcmp(s->addr8, a.b, a.fam == AF_INET ? 4 : 16); }
static std::string text(const A &a) {
	char b[64];
	inet_ntop(a.fam, a.b, b, sizeof b);
	return b;
}
static int sgn(int v) { return (v > 0) - (v < 0); }

static void trip() {
	A a = draw_addr();
	logf("address %s port %d", text(a).c_str(), a.port);
	H<sockaddr_i> s;
	put(a, s.p);
	CHECK(ksocket_addr_port(s.p) == a.port, "the port is %d, expected %d", ksocket_addr_port(s.p), a.port);
	CHECK(ksocket_addr_len(s.p) == (a.fam == AF_INET ? (int)sizeof(sockaddr_in) : (int)sizeof(sockaddr_in6)), "address length %d", ksocket_addr_len(s.p));
	H<ip_addr> ia;
	ksocket_ipaddr(s.p, ia.p);
	CHECK(holds(a, ia.p), "ksocket_ipaddr changed %s", text(a).c_str());
	int len = chance(1, 3) ? range(1, 50) : MAXIPLEN;
	std::string want = text(a);
	for (int via = 0; via < 2; via++) {
		char *ip = (char *)malloc(len);
		bool ok = via ? ksocket_ipaddr_ip(ia.p, ip, len) : ksocket_sockaddr_ip(s.p, ip, len);
		bool fits = (int)want.size() < len;
		if (fits) {
			CHECK(ok, "formatting %s into %d bytes failed", want.c_str(), len);
			A b = a;
			memset(b.b, 0, 16);
			CHECK(inet_pton(a.fam, ip, b.b) == 1 && same(a, b), "formatting %s gave %s", want.c_str(), ip);
			H<ip_addr> back;
			CHECK(ksocket_get_ipaddr(ip, back.p), "parsing %s failed", ip);
			CHECK(holds(a, back.p), "parsing %s gave another address", ip);
			CHECK(ksocket_ipaddr_compare(ia.p, back.p) == 0 && *ia.p == *back.p, "%s is not equal to itself after a round trip", ip);
			H<sockaddr_i> sa;
			CHECK(ksocket_getaddr(ip, a.port, AF_UNSPEC, AI_NUMERICHOST, sa.p), "getaddr %s failed", ip);
			CHECK(holds(a, sa.p) && ksocket_addr_port(sa.p) == a.port, "getaddr %s port %d gave another address or port %d", ip, a.port, ksocket_addr_port(sa.p));
			CHECK(ksocket_addr_compare(sa.p, s.p) == 0, "%s is not equal to itself after a round trip", ip);
			CHECK(ksocket_addr_hash(sa.p) == ksocket_addr_hash(s.p), "%s hashes differently after a round trip", ip);
			CHECK(back->get_hash() == ia->get_hash(), "equal addresses %s hash differently", ip);
			bool mapped = a.fam == AF_INET6 && !memcmp(a.b, "\0\0\0\0\0\0\0\0\0\0\xff\xff", 12); // the resolver maps these
			CHECK(mapped || !ksocket_getaddr(ip, a.port, a.fam == AF_INET ? AF_INET6 : AF_INET, AI_NUMERICHOST, sa.p), "getaddr %s accepted for the other family", ip);
		} else {
			CHECK(!ok && (len < 1 || *ip == 0), "formatting %s into %d bytes did not fail cleanly", want.c_str(), len);
			count("buffer too small");
		}
		free(ip);
	}
	// from a resolver answer
	H<sockaddr_in> r4;
	H<sockaddr_in6> r6;
	struct addrinfo ai;
	memset(&ai, 0, sizeof ai);
	ai.ai_family = a.fam;
	if (a.fam == AF_INET) {
		r4->sin_family = AF_INET;
		memcpy(&r4->sin_addr, a.b, 4);
		ai.ai_addr = (struct sockaddr *)r4.p;
		ai.ai_addrlen = sizeof(sockaddr_in);
	} else {
		r6->sin6_family = AF_INET6;
		memcpy(&r6->sin6_addr, a.b, 16);
		ai.ai_addr = (struct sockaddr *)r6.p;
		ai.ai_addrlen = sizeof(sockaddr_in6);
	}
	H<sockaddr_i> built;
	if (chance(1, 2)) ksocket_addrinfo_sockaddr(&ai, a.port, built.p);
	else CHECK(kgl_addr_build(&ai, a.port, built.p), "addr_build");
	CHECK(holds(a, built.p) && ksocket_addr_port(built.p) == a.port, "an address built from a resolver answer differs");
	count("round trips");
	nontrivial();
}
static void laws() {
	int n = range(2, 7);
	std::vector<A> v;
	for (int i = 0; i < n; i++) {
		if (i && chance(1, 3)) {
			A a = v[draw((uint32_t)v.size())];
			if (chance(1, 2)) a.b[draw(a.fam == AF_INET ? 4 : 16)] ^= 1 << draw(8);
			else a.port ^= 1; // the port does not take part
			v.push_back(a);
		} else v.push_back(draw_addr());
		logf(" %s", text(v.back()).c_str());
	}
	std::vector<std::unique_ptr<H<sockaddr_i>>> s;
	std::vector<std::unique_ptr<H<ip_addr>>> p;
	for (auto &a : v) {
		s.emplace_back(new H<sockaddr_i>);
		p.emplace_back(new H<ip_addr>);
		put(a, s.back()->p);
		ksocket_ipaddr(s.back()->p, p.back()->p);
	}
	auto cs = [&](int i, int j) { return sgn(ksocket_addr_compare(s[i]->p, s[j]->p)); };
	auto cp = [&](int i, int j) { return sgn(ksocket_ipaddr_compare(p[i]->p, p[j]->p)); };
	int eq = 0;
	for (int i = 0; i < n; i++)
		for (int j = 0; j < n; j++) {
			bool e = same(v[i], v[j]);
			CHECK((cs(i, j) == 0) == e, "addr_compare(%s, %s) is %d", text(v[i]).c_str(), text(v[j]).c_str(), cs(i, j));
			CHECK((cp(i, j) == 0) == e, "ipaddr_compare(%s, %s) is %d", text(v[i]).c_str(), text(v[j]).c_str(), cp(i, j));
			CHECK((*p[i]->p == *p[j]->p) == e, "operator== on %s and %s", text(v[i]).c_str(), text(v[j]).c_str());
			CHECK(cs(i, j) == -cs(j, i), "addr_compare is not antisymmetric for %s and %s", text(v[i]).c_str(), text(v[j]).c_str());
			CHECK(cp(i, j) == -cp(j, i), "ipaddr_compare is not antisymmetric for %s and %s", text(v[i]).c_str(), text(v[j]).c_str());
			bool lt = *p[i]->p < *p[j]->p, gt = *p[j]->p < *p[i]->p;
			CHECK(lt + gt == !e, "operator< is not a strict total order on %s and %s", text(v[i]).c_str(), text(v[j]).c_str());
			if (e) {
				CHECK(ksocket_addr_hash(s[i]->p) == ksocket_addr_hash(s[j]->p), "equal addresses %s have different hashes", text(v[i]).c_str());
				CHECK((*p[i])->get_hash() == (*p[j])->get_hash(), "equal addresses %s have different hashes", text(v[i]).c_str());
				eq += i != j;
			}
			for (int k = 0; k < n; k++) {
				if (cs(i, j) < 0 && cs(j, k) < 0) CHECK(cs(i, k) < 0, "addr_compare is not transitive: %s < %s < %s", text(v[i]).c_str(), text(v[j]).c_str(), text(v[k]).c_str());
				if (cp(i, j) < 0 && cp(j, k) < 0) CHECK(cp(i, k) < 0, "ipaddr_compare is not transitive: %s < %s < %s", text(v[i]).c_str(), text(v[j]).c_str(), text(v[k]).c_str());
				if (lt && *p[j]->p < *p[k]->p) CHECK(*p[i]->p < *p[k]->p, "operator< is not transitive");
			}
			if (v[i].fam == v[j].fam) { // network masks
				A m = v[i];
				for (int b = 0; b < 16; b++) m.b[b] &= v[j].b[b];
				H<ip_addr> r;
				ksocket_ipaddr_and(p[i]->p, p[j]->p, r.p);
				CHECK(holds(m, r.p), "%s masked with %s is wrong", text(v[i]).c_str(), text(v[j]).c_str());
				ip_addr o = *p[i]->p & *p[j]->p;
				CHECK(holds(m, &o), "%s & %s is wrong", text(v[i]).c_str(), text(v[j]).c_str());
			}
		}
	if (eq) count("sets with equal addresses");
	count("sets of addresses");
	nontrivial();
}
static void parse() {
	std::string t;
	uint32_t st = draw(4);
	if (st == 0) {
		int n = size_dist(0, 20);
		for (int i = 0; i < n; i++) t += "0123456789abcdefABCDEF:.::..x g\t"[draw(32)];
	} else if (st == 1) {
		static const char *tok[] = {"0", "1", "255", "256", ".", ":", "::", "ffff", "10000", "0x7f", "017", "::ffff:", "1.2.3.4", "f", "00000", "-1", "+1", "4294967295", "65536"};
		int n = range(1, 12);
		for (int i = 0; i < n; i++) t += tok[draw(19)];
	} else {
		A a = draw_addr();
		t = text(a);
		if (st == 3) {
			int n = range(1, 3);
			for (int i = 0; i < n; i++) {
				size_t at = draw((uint32_t)t.size() + 1);
				switch (draw(3)) {
				case 0: t.insert(at, 1, "0123456789abcdef:."[draw(18)]); break;
				case 1: if (at < t.size()) t.erase(at, 1); break;
				default: if (at < t.size()) t[at] = "0123456789abcdef:."[draw(18)]; break;
				}
			}
		}
	}
	logf("text '%s'", t.c_str());
	A a;
	memset(&a, 0, sizeof a);
	bool strict = false, loose = false;
	if (inet_pton(AF_INET, t.c_str(), a.b) == 1) strict = true, a.fam = AF_INET;
	else if (inet_pton(AF_INET6, t.c_str(), a.b) == 1) strict = true, a.fam = AF_INET6;
	else {
		struct in_addr x;
		if (t.find_first_of(" \t") == std::string::npos && inet_aton(t.c_str(), &x)) { // numbers-and-dots notation
			loose = true;
			a.fam = AF_INET;
			memcpy(a.b, &x, 4);
		}
	}
	char *in = strdup(t.c_str());
	H<ip_addr> r;
	bool ok = ksocket_get_ipaddr(in, r.p);
	CHECK(ok == (strict || loose), "'%s' was %s", in, ok ? "accepted" : "refused");
	if (ok) CHECK(holds(a, r.p), "'%s' was parsed as another address", in);
	H<sockaddr_i> s;
	uint16_t port = (uint16_t)draw(65536);
	int fam = draw(3);
	static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6};
	bool mapped = a.fam == AF_INET6 && !memcmp(a.b, "\0\0\0\0\0\0\0\0\0\0\xff\xff", 12);
	if (mapped && fam == 1) fam = 0; // the resolver would map the address
	bool want = ok && (fam == 0 || fams[fam] == a.fam);
	bool got = ksocket_getaddr(in, port, fams[fam], AI_NUMERICHOST, s.p);
	CHECK(got == want, "'%s' for family %d was %s", in, fams[fam], got ? "accepted" : "refused");
	if (got) CHECK(holds(a, s.p) && ksocket_addr_port(s.p) == port, "'%s' was parsed as another address or port", in);
	if (*in != '/' && !t.empty()) {
		kserver *sv = kserver_init();
		bool b = kserver_bind(sv, in, port, NULL);
		CHECK(b == ok, "binding a server to '%s' %s", in, b ? "succeeded" : "failed");
		if (b) CHECK(holds(a, &sv->addr) && ksocket_addr_port(&sv->addr) == port, "the server is bound to another address than '%s'", in);
		kserver_release(sv);
	}
	free(in);
	count(strict ? "valid texts" : loose ? "numbers-and-dots texts" : "invalid texts");
	nontrivial();
}
static void unix_path() {
	int n = chance(1, 2) ? range(100, 115) : size_dist(1, 300);
	std::string path = "/";
	while ((int)path.size() < n) path += (char)('a' + draw(26));
	char *in = strdup(path.c_str());
	H<struct sockaddr_un> u;
	int r = ksocket_unix_addr(in, u.p);
	CHECK(u->sun_family == AF_UNIX, "unix address family");
	CHECK(memchr(u->sun_path, 0, sizeof u->sun_path), "the path of a unix address (%d characters) is not terminated", n);
	CHECK(ksocket_addr_len((sockaddr_i *)u.p) == sizeof(struct sockaddr_un), "unix address length");
	kserver *sv = kserver_init();
	bool b = kserver_bind(sv, in, 0, NULL);
	if (n < (int)sizeof u->sun_path) {
		CHECK(r == 0 && path == ksocket_unix_path(u.p), "the path of a unix address changed");
		CHECK(b && path == ksocket_unix_path(&sv->un_addr) && kserver_test_flag(sv, KGL_SERVER_UNIX), "a server bound to a unix path of %d characters", n);
		count("unix paths that fit");
	} else {
		CHECK(r != 0, "a unix path of %d characters was accepted although it does not fit", n);
		CHECK(!b, "a server was bound to a truncated unix path");
		count("unix paths that do not fit");
	}
	kserver_release(sv);
	free(in);
	nontrivial();
}
static void modes() {
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) discard("socketpair");
	for (int i = range(1, 4); i > 0; i--) {
		bool nb = chance(1, 2);
		if (nb) ksocket_no_block(sv[0]);
		else ksocket_block(sv[0]);
		CHECK(!!(fcntl(sv[0], F_GETFL, 0) & O_NONBLOCK) == nb, "the blocking mode was not set");
		CHECK(ksocket_is_block(sv[0]) == !nb, "a %sblocking socket is reported as %sblocking", nb ? "non-" : "", nb ? "" : "non-");
	}
	close(sv[0]), close(sv[1]);
	count("blocking modes");
}
static void run() {
	Rng r(draw(0x7fffffff));
	R = &r;
	switch (weighted({5, 4, 4, 1, 1})) {
	case 0: trip(); break;
	case 1: laws(); break;
	case 2: parse(); break;
	case 3: unix_path(); break;
	default: modes(); break;
	}
}
Property pbt::property = {
	"C21",
	"A case is a generated address (round trip through text, resolver answer and every buffer length), a set of 2-7 related addresses (order, equality, hash and mask laws), a generated text, a unix path or a blocking mode; non-trivial = any but blocking modes.",
	run, 50, 2000000, 40000000, 25, 400, 2000,
	{"numeric hosts only", "scoped IPv6 addresses are not generated", "oracle: inet_pton/inet_ntop/inet_aton"}};
