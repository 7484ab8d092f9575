#include "shim.h"
#include "kstring.h"
int sh_mutex_lock(kfiber_mutex *m) { return kfiber_mutex_lock(m); }
int sh_mutex_try_lock(kfiber_mutex *m, int max) { return kfiber_mutex_try_lock(m, max); }
int sh_mutex_unlock(kfiber_mutex *m) { return kfiber_mutex_unlock(m); }
int sh_mutex_get_count(kfiber_mutex *m) { return kfiber_mutex_get_count(m); }
int sh_mutex_get_worker(kfiber_mutex *m) { return kfiber_mutex_get_worker(m); }
void sh_mutex_set_limit(kfiber_mutex *m, int n) { kfiber_mutex_set_limit(m, n); }
int sh_mutex_get_limit(kfiber_mutex *m) { return kfiber_mutex_get_limit(m); }
kfiber_mutex *sh_mutex_init2(int n) { return kfiber_mutex_init2(n); }
void sh_mutex_destroy(kfiber_mutex *m) { kfiber_mutex_destroy(m); }
kfiber_rwlock *sh_rwlock_init() { return kfiber_rwlock_init(); }
void sh_rwlock_destroy(kfiber_rwlock *m) { kfiber_rwlock_destroy(m); }
int sh_rlock(kfiber_rwlock *m) { return kfiber_rwlock_rlock(m); }
int sh_wlock(kfiber_rwlock *m) { return kfiber_rwlock_wlock(m); }
int sh_runlock(kfiber_rwlock *m) { return kfiber_rwlock_runlock(m); }
int sh_wunlock(kfiber_rwlock *m) { return kfiber_rwlock_wunlock(m); }
int sh_cond_notice(kfiber_cond *c, int got) { return c->f->notice(c, got); }
int sh_cond_wait(kfiber_cond *c, int *got) { return c->f->wait(c, got); }
int sh_cond_try_wait(kfiber_cond *c, int *got) { return c->f->try_wait(c, got); }
kev_result sh_cond_wait_callback(kfiber_cond *c, KOPAQUE data, result_callback cb, void *arg) { return c->f->wait_callback(c, data, cb, arg); }
void sh_cond_release(kfiber_cond *c) { c->f->release(c); }
kcond *sh_kcond_init(bool ar) { return kcond_init(ar); }
void sh_kcond_wait(kcond *c) { kcond_wait(c); }
bool sh_kcond_try_wait(kcond *c, int ms) { return kcond_try_wait(c, ms); }
void sh_kcond_notice(kcond *c) { kcond_notice(c); }
void sh_kcond_reset(kcond *c) { kcond_reset(c); }
void sh_kcond_destroy(kcond *c) { kcond_destroy(c); }
void sh_krw_init(krw_mutex *m) { krw_mutex_init(m); }
void sh_krw_rlock(krw_mutex *m) { krw_mutex_rlock(m); }
void sh_krw_wlock(krw_mutex *m) { krw_mutex_wlock(m); }
void sh_krw_runlock(krw_mutex *m) { krw_mutex_runlock(m); }
void sh_krw_wunlock(krw_mutex *m) { krw_mutex_wunlock(m); }
void sh_kwr_init(kwr_mutex *m) { kwr_mutex_init(m); }
void sh_kwr_rlock(kwr_mutex *m, bool hp) { kwr_mutex_rlock(m, hp); }
void sh_kwr_wlock(kwr_mutex *m) { kwr_mutex_wlock(m); }
void sh_kwr_runlock(kwr_mutex *m) { kwr_mutex_runlock(m); }
void sh_kwr_wunlock(kwr_mutex *m) { kwr_mutex_wunlock(m); }
void sh_next(kselector *s, KOPAQUE d, result_callback cb, void *arg, int got) { kgl_selector_module.next(s, d, cb, arg, got); }
int sh_net_writev(kconnection *cn, kgl_iovec *b, int bc) { return kfiber_net_writev(cn, b, bc); }
int sh_net_readv(kconnection *cn, kgl_iovec *b, int bc) { return kfiber_net_readv(cn, b, bc); }
int sh_net_write(kconnection *cn, const char *b, int len) { return kfiber_net_write(cn, b, len); }
int sh_net_read(kconnection *cn, char *b, int len) { return kfiber_net_read(cn, b, len); }
size_t sh_net_writev_full(kconnection *cn, kgl_iovec *b, int *bc) { return kfiber_net_writev_full(cn, b, bc); }
bool sh_net_write_full(kconnection *cn, const char *b, int *len) { return kfiber_net_write_full(cn, b, len); }
bool sh_net_read_full(kconnection *cn, char *b, int *len) { return kfiber_net_read_full(cn, b, len); }
int64_t sh_atom(int width, int op, void *var, int64_t a, int64_t b, bool *supported) {
	*supported = true;
	if (width == 16) switch (op) {
		case AT_INC: return katom_inc16(var);
		case AT_DEC: return katom_dec16(var);
		case AT_SET: return (int16_t)katom_set16(var, (uint16_t)a);
		case AT_CAS: return katom_cas16(var, (int16_t)a, (int16_t)b);
	}
	if (width == 32) switch (op) {
		case AT_ADD: return (int32_t)katom_add(var, (int32_t)a);
		case AT_SUB: return (int32_t)katom_sub(var, (int32_t)a);
		case AT_INC: return (int32_t)katom_inc(var);
		case AT_DEC: return (int32_t)katom_dec(var);
		case AT_SET: return (int32_t)katom_set(var, (uint32_t)a);
		case AT_GET: return (int32_t)katom_get(var);
		case AT_CAS: return katom_cas(var, (int32_t)a, (int32_t)b);
	}
	if (width == 64) switch (op) {
		case AT_ADD: return katom_add64(var, a);
		case AT_SUB: return katom_sub64(var, a);
		case AT_INC: return (int64_t)katom_inc64(var);
		case AT_DEC: return katom_dec64(var);
		case AT_SET: return katom_set64(var, (uint64_t)a);
		case AT_GET: return (int64_t)katom_get64(var);
		case AT_CAS: return katom_cas64(var, a, b);
	}
	*supported = false;
	return 0;
}
kgl_ref_str_t *sh_kstring_refs(const kgl_ref_str_t *s) { return kstring_refs(s); }
void sh_kstring_release(kgl_ref_str_t *s) { kstring_release(s); }
void sh_add_ref_ssl_ctx(kgl_ssl_ctx *c) { kgl_add_ref_ssl_ctx(c); }
void sh_release_ssl_ctx(kgl_ssl_ctx *c) { kgl_release_ssl_ctx(c); }
std::function<kev_result(kconnection *)> sh_accepted;
KACCEPT_CALLBACK(sh_on_accept) { return sh_accepted((kconnection *)arg); }
bool sh_sendfile_full(kconnection *cn, kfiber_file *fp, int *len) { return kfiber_sendfile_full(cn, fp, len); }
