// Connection pairs for the network properties.
#pragma once
#include "kh.h"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <sys/socket.h>
#include <unistd.h>
namespace net {
inline uint8_t byte_at(uint32_t key, uint64_t pos) {
	uint64_t z = ((uint64_t)key << 40) + pos + 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	return (uint8_t)(z >> 33);
}
inline void fill(char *b, uint32_t key, uint64_t pos, size_t n) {
	for (size_t i = 0; i < n; i++) b[i] = (char)byte_at(key, pos + i);
}
// index of the first byte that is not the stream's, or -1
inline long mismatch(const char *b, uint32_t key, uint64_t pos, size_t n) {
	for (size_t i = 0; i < n; i++)
		if ((uint8_t)b[i] != byte_at(key, pos + i)) return (long)i;
	return -1;
}
inline void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
inline void tcp_pair(int fd[2]) {
	int l = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	struct sockaddr_in a;
	memset(&a, 0, sizeof a);
	a.sin_family = AF_INET;
	// an address of its own, so that ports in TIME_WAIT do not run out
	static uint32_t serial;
	a.sin_addr.s_addr = htonl(0x7f000000u | ((((uint32_t)getpid() * 40503u + serial++ * 7919u) & 0xfffff) + 1));
	socklen_t n = sizeof a;
	if (l < 0 || bind(l, (struct sockaddr *)&a, sizeof a) || listen(l, 1) || getsockname(l, (struct sockaddr *)&a, &n)) pbt::discard("no loopback");
	fd[0] = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (connect(fd[0], (struct sockaddr *)&a, sizeof a)) pbt::discard("no loopback");
	fd[1] = io::real_accept4(l, NULL, NULL, SOCK_CLOEXEC);
	if (fd[1] < 0) pbt::discard("no loopback");
	::close(l);
	int one = 1;
	for (int i = 0; i < 2; i++) setsockopt(fd[i], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}
inline void pair(int fd[2], bool tcp, int sndbuf) {
	if (tcp)
		tcp_pair(fd);
	else if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd))
		pbt::discard("socketpair");
	for (int i = 0; i < 2; i++) {
		if (sndbuf) {
			setsockopt(fd[i], SOL_SOCKET, SO_SNDBUF, &sndbuf, sizeof sndbuf);
			if (tcp) setsockopt(fd[i], SOL_SOCKET, SO_RCVBUF, &sndbuf, sizeof sndbuf);
		}
		nonblock(fd[i]);
	}
}
// a library connection over an existing descriptor
inline kconnection *conn(int fd, int sel) {
	kconnection *c = kconnection_new(NULL);
	c->st.fd = fd;
	selectable_bind(&c->st, get_selector_by_index(sel));
	return c;
}
} // namespace net
