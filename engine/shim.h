// Out-of-line entry points for API that the library provides as inline
// functions. Compiled like the library itself, so that their memory accesses
// are preemption points too (the harness' own bookkeeping is not preempted).
#pragma once
#include "kh.h"
int sh_mutex_lock(kfiber_mutex *m);
int sh_mutex_try_lock(kfiber_mutex *m, int max);
int sh_mutex_unlock(kfiber_mutex *m);
int sh_mutex_get_count(kfiber_mutex *m);
int sh_mutex_get_worker(kfiber_mutex *m);
void sh_mutex_set_limit(kfiber_mutex *m, int n);
int sh_mutex_get_limit(kfiber_mutex *m);
kfiber_mutex *sh_mutex_init2(int n);
void sh_mutex_destroy(kfiber_mutex *m);
kfiber_rwlock *sh_rwlock_init();
void sh_rwlock_destroy(kfiber_rwlock *m);
int sh_rlock(kfiber_rwlock *m);
int sh_wlock(kfiber_rwlock *m);
int sh_runlock(kfiber_rwlock *m);
int sh_wunlock(kfiber_rwlock *m);
int sh_cond_notice(kfiber_cond *c, int got);
int sh_cond_wait(kfiber_cond *c, int *got);
int sh_cond_try_wait(kfiber_cond *c, int *got);
kev_result sh_cond_wait_callback(kfiber_cond *c, KOPAQUE data, result_callback cb, void *arg);
void sh_cond_release(kfiber_cond *c);
kcond *sh_kcond_init(bool ar);
void sh_kcond_wait(kcond *c);
bool sh_kcond_try_wait(kcond *c, int ms);
void sh_kcond_notice(kcond *c);
void sh_kcond_reset(kcond *c);
void sh_kcond_destroy(kcond *c);
void sh_krw_init(krw_mutex *m);
void sh_krw_rlock(krw_mutex *m);
void sh_krw_wlock(krw_mutex *m);
void sh_krw_runlock(krw_mutex *m);
void sh_krw_wunlock(krw_mutex *m);
void sh_kwr_init(kwr_mutex *m);
void sh_kwr_rlock(kwr_mutex *m, bool hp);
void sh_kwr_wlock(kwr_mutex *m);
void sh_kwr_runlock(kwr_mutex *m);
void sh_kwr_wunlock(kwr_mutex *m);
void sh_next(kselector *s, KOPAQUE d, result_callback cb, void *arg, int got);
int sh_net_writev(kconnection *cn, kgl_iovec *b, int bc);
int sh_net_readv(kconnection *cn, kgl_iovec *b, int bc);
int sh_net_write(kconnection *cn, const char *b, int len);
int sh_net_read(kconnection *cn, char *b, int len);
size_t sh_net_writev_full(kconnection *cn, kgl_iovec *b, int *bc);
bool sh_net_write_full(kconnection *cn, const char *b, int *len);
bool sh_net_read_full(kconnection *cn, char *b, int *len);
enum { AT_ADD, AT_SUB, AT_INC, AT_DEC, AT_SET, AT_GET, AT_CAS };
// *supported=false when the library has no such operation of that width
int64_t sh_atom(int width, int op, void *var, int64_t a, int64_t b, bool *supported);
kgl_ref_str_t *sh_kstring_refs(const kgl_ref_str_t *s);
void sh_kstring_release(kgl_ref_str_t *s);
void sh_add_ref_ssl_ctx(kgl_ssl_ctx *c);
void sh_release_ssl_ctx(kgl_ssl_ctx *c);
// the callback-style accept handler (KACCEPT_CALLBACK), forwarding to a hook
extern std::function<kev_result(kconnection *)> sh_accepted;
kev_result sh_on_accept(KOPAQUE data, void *arg, int got);
bool sh_sendfile_full(kconnection *cn, kfiber_file *fp, int *len);
