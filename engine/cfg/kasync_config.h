/* Configuration the repository's own build generates on this platform; it is
 * git-ignored there, so a fresh copy may not have it. Same guard, so the
 * repository's generated file (when present) becomes a no-op. */
#ifndef KASYNC_CONFIG_INCLUDED_H
#define KASYNC_CONFIG_INCLUDED_H
#define KSOCKET_SSL
#ifdef KV_SSL_BIO
#define ENABLE_KSSL_BIO
#endif
#define LINUX
#define HAVE_ACCEPT4
#define HAVE_MEMALIGN
#define HAVE_SETMNTENT
#define HAVE_WRITEV
#define HAVE_READV
#define ENABLE_FCONTEXT
#ifdef LINUX
#undef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#endif
