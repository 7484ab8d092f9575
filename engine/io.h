// Fault hooks on system calls and libc calls the code under test makes.
#pragma once
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <functional>
struct addrinfo;
namespace io {
extern bool fake_aio; // pretend io_setup/io_destroy worked (for cases that use no kernel AIO)
extern std::function<ssize_t(int, const struct iovec *, int)> readv_hook, writev_hook;
extern std::function<ssize_t(int, int, off_t *, size_t)> sendfile_hook;
extern std::function<ssize_t(int, struct msghdr *, int)> recvmsg_hook;
extern std::function<int(int, struct sockaddr *, socklen_t *, int)> accept_hook;
extern std::function<bool(int)> epoll_add_hook; // true: this descriptor cannot be registered (ENOSPC)
extern std::function<void(int, int)> shutdown_hook; // called before shutdown()
extern std::function<int(const char *, const char *, const struct addrinfo *, struct addrinfo **)> getaddrinfo_hook;
extern std::function<void(struct addrinfo *)> freeaddrinfo_hook;
extern std::function<long(long, long, long, long, long, long, long)> syscall_hook;
extern std::function<ssize_t(int, void *, size_t, off_t)> pread_hook;
extern std::function<ssize_t(int, const void *, size_t, off_t)> pwrite_hook;
ssize_t real_readv(int, const struct iovec *, int);
ssize_t real_writev(int, const struct iovec *, int);
ssize_t real_sendfile(int, int, off_t *, size_t);
ssize_t real_recvmsg(int, struct msghdr *, int);
int real_accept4(int, struct sockaddr *, socklen_t *, int);
long real_syscall(long, long, long, long, long, long, long);
ssize_t real_pread(int, void *, size_t, off_t);
ssize_t real_pwrite(int, const void *, size_t, off_t);
int open_fds(); // number of open descriptors of this process
}
