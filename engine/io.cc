#include "io.h"
#include "ds.h"
#include <dirent.h>
#include <sys/epoll.h>
#include <dlfcn.h>
#include <netdb.h>
#include <stdarg.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
namespace io {
bool fake_aio;
std::function<ssize_t(int, const struct iovec *, int)> readv_hook, writev_hook;
std::function<ssize_t(int, int, off_t *, size_t)> sendfile_hook;
std::function<ssize_t(int, struct msghdr *, int)> recvmsg_hook;
std::function<int(int, struct sockaddr *, socklen_t *, int)> accept_hook;
std::function<bool(int)> epoll_add_hook;
std::function<void(int, int)> shutdown_hook;
std::function<int(const char *, const char *, const struct addrinfo *, struct addrinfo **)> getaddrinfo_hook;
std::function<void(struct addrinfo *)> freeaddrinfo_hook;
std::function<long(long, long, long, long, long, long, long)> syscall_hook;
std::function<ssize_t(int, void *, size_t, off_t)> pread_hook;
std::function<ssize_t(int, const void *, size_t, off_t)> pwrite_hook;
template <class F> static F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
ssize_t real_readv(int f, const struct iovec *v, int n) {
	static auto r = next<ssize_t (*)(int, const struct iovec *, int)>("readv");
	return r(f, v, n);
}
ssize_t real_writev(int f, const struct iovec *v, int n) {
	static auto r = next<ssize_t (*)(int, const struct iovec *, int)>("writev");
	return r(f, v, n);
}
ssize_t real_sendfile(int o, int i, off_t *off, size_t n) {
	static auto r = next<ssize_t (*)(int, int, off_t *, size_t)>("sendfile");
	return r(o, i, off, n);
}
ssize_t real_recvmsg(int f, struct msghdr *m, int fl) {
	static auto r = next<ssize_t (*)(int, struct msghdr *, int)>("recvmsg");
	return r(f, m, fl);
}
int real_accept4(int f, struct sockaddr *a, socklen_t *l, int fl) {
	static auto r = next<int (*)(int, struct sockaddr *, socklen_t *, int)>("accept4");
	return r(f, a, l, fl);
}
long real_syscall(long n, long a, long b, long c, long d, long e, long f) {
	static auto r = next<long (*)(long, ...)>("syscall");
	return r(n, a, b, c, d, e, f);
}
ssize_t real_pread(int f, void *b, size_t n, off_t o) {
	static auto r = next<ssize_t (*)(int, void *, size_t, off_t)>("pread");
	return r(f, b, n, o);
}
ssize_t real_pwrite(int f, const void *b, size_t n, off_t o) {
	static auto r = next<ssize_t (*)(int, const void *, size_t, off_t)>("pwrite");
	return r(f, b, n, o);
}
int open_fds() {
	int n = 0;
	DIR *d = opendir("/proc/self/fd");
	if (!d) return -1;
	while (struct dirent *e = readdir(d))
		if (e->d_name[0] != '.') {
			// an exiting thread's allocator reads /proc or /sys at times
			char b[8] = "";
			ssize_t r = readlinkat(dirfd(d), e->d_name, b, sizeof b);
			if (r < 0 || (r > 4 && (!memcmp(b, "/proc/s", 7) || !memcmp(b, "/sys/", 5)))) continue;
			n++;
		}
	closedir(d);
	return n - 1;
}
}
extern "C" {
int epoll_ctl(int ep, int op, int f, struct epoll_event *ev) {
	static auto r = io::next<int (*)(int, int, int, struct epoll_event *)>("epoll_ctl");
	if (op == EPOLL_CTL_ADD && io::epoll_add_hook && io::epoll_add_hook(f)) {
		errno = ENOSPC;
		return -1;
	}
	return r(ep, op, f, ev);
}
ssize_t readv(int f, const struct iovec *v, int n) { ds::sys_point(); return io::readv_hook ? io::readv_hook(f, v, n) : io::real_readv(f, v, n); }
ssize_t writev(int f, const struct iovec *v, int n) { ds::sys_point(); return io::writev_hook ? io::writev_hook(f, v, n) : io::real_writev(f, v, n); }
ssize_t sendfile(int o, int i, off_t *off, size_t n) { ds::sys_point(); return io::sendfile_hook ? io::sendfile_hook(o, i, off, n) : io::real_sendfile(o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t *off, size_t n) { ds::sys_point(); return io::sendfile_hook ? io::sendfile_hook(o, i, off, n) : io::real_sendfile(o, i, off, n); }
ssize_t recvmsg(int f, struct msghdr *m, int fl) { ds::sys_point(); return io::recvmsg_hook ? io::recvmsg_hook(f, m, fl) : io::real_recvmsg(f, m, fl); }
int accept4(int f, struct sockaddr *a, socklen_t *l, int fl) { ds::sys_point(); return io::accept_hook ? io::accept_hook(f, a, l, fl) : io::real_accept4(f, a, l, fl); }
off_t lseek(int f, off_t o, int w) {
	ds::sys_point();
	static auto r = (off_t(*)(int, off_t, int))dlsym(RTLD_NEXT, "lseek");
	return r(f, o, w);
}
off_t lseek64(int f, off_t o, int w) { return lseek(f, o, w); }
int shutdown(int f, int how) {
	if (io::shutdown_hook) io::shutdown_hook(f, how);
	static auto r = (int (*)(int, int))dlsym(RTLD_NEXT, "shutdown");
	return r(f, how);
}
ssize_t pread(int f, void *b, size_t n, off_t o) { ds::sys_point(); return io::pread_hook ? io::pread_hook(f, b, n, o) : io::real_pread(f, b, n, o); }
ssize_t pread64(int f, void *b, size_t n, off_t o) { ds::sys_point(); return io::pread_hook ? io::pread_hook(f, b, n, o) : io::real_pread(f, b, n, o); }
ssize_t pwrite(int f, const void *b, size_t n, off_t o) { ds::sys_point(); return io::pwrite_hook ? io::pwrite_hook(f, b, n, o) : io::real_pwrite(f, b, n, o); }
ssize_t pwrite64(int f, const void *b, size_t n, off_t o) { ds::sys_point(); return io::pwrite_hook ? io::pwrite_hook(f, b, n, o) : io::real_pwrite(f, b, n, o); }
int getaddrinfo(const char *h, const char *s, const struct addrinfo *hint, struct addrinfo **res) {
	if (io::getaddrinfo_hook) return io::getaddrinfo_hook(h, s, hint, res);
	static auto r = (int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **))dlsym(RTLD_NEXT, "getaddrinfo");
	return r(h, s, hint, res);
}
void freeaddrinfo(struct addrinfo *a) {
	if (io::freeaddrinfo_hook) return io::freeaddrinfo_hook(a);
	static auto r = (void (*)(struct addrinfo *))dlsym(RTLD_NEXT, "freeaddrinfo");
	r(a);
}
long syscall(long n, ...) {
	va_list ap;
	va_start(ap, n);
	long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
	va_end(ap);
	if (io::fake_aio) {
		// a kernel AIO context costs an RCU grace period (tens of ms) when the process ends
		if (n == SYS_io_setup) {
			*(unsigned long *)b = 0x41494f;
			return 0;
		}
		if (n == SYS_io_destroy) return 0;
	}
	return io::syscall_hook ? io::syscall_hook(n, a, b, c, d, e, f) : io::real_syscall(n, a, b, c, d, e, f);
}
}
