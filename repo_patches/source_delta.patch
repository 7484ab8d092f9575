From 93ad2d5564e7bf433ef4642cbc48387533e9714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 01/61] fix: kfiber_mutex_lock2 must count its holder and be
 callable on a selector's main fiber

---
 src/kfiber_sync.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 0ab8567..88ba40a 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -10,8 +10,9 @@
 //mutext
 kev_result kfiber_mutex_lock2(kfiber_mutex* mutex, KOPAQUE data, result_callback notice, void* arg)
 {
-	kassert(kfiber_self2() == NULL);
+	kassert(kfiber_is_main());
 	kmutex_lock(&mutex->lock);
+	mutex->count++;
 	if (mutex->worker < mutex->limit) {
 		mutex->worker++;
 		kmutex_unlock(&mutex->lock);
-- 
2.43.0


From 43df8cc121dd109e6ba57ea0959002a058564789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 02/61] fix: kfiber_rwlock_wunlock must not wake readers while
 holding the internal mutex

---
 include/kfiber_sync.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index 5ee8ea5..e14e6b1 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -195,13 +195,12 @@ INLINE int kfiber_rwlock_wunlock(kfiber_rwlock* mutex) {
 	if (mutex->reader) {
 		kfiber_waiter* waiter = mutex->reader;
 		mutex->reader = NULL;
-		while (waiter) {
+		for (kfiber_waiter* reader = waiter; reader; reader = reader->next) {
 			mutex->cnt++;
-			kfiber_waiter* next = waiter->next;
-			kfiber_wakeup_waiter(waiter, 0);
-			waiter = next;
 		}
+		/* a woken reader runs at once on the same selector and may unlock */
 		kmutex_unlock(&mutex->lock);
+		kfiber_wakeup_all_waiter(waiter, 0);
 		return 0;
 	}
 	return __kfiber_rwlock_try_wakeup_writer(mutex);
-- 
2.43.0


From e13c6d50d105b99661896932cc104467cf36cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 03/61] fix: kcond_wait must wait for the event, and a wait
 must not consume a manual-reset event

---
 include/ksync.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/ksync.h b/include/ksync.h
index c34a859..f4acf90 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -55,12 +55,9 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
-	if (cond->ev) {
-		cond->ev = false;
-		kmutex_unlock(&cond->mutex);
-		return;
+	while (!cond->ev) {
+		pthread_cond_wait(&cond->cond, &cond->mutex);
 	}
-	pthread_cond_wait(&cond->cond, &cond->mutex);
 	if (cond->auto_reset) {
 		cond->ev = false;
 	}
@@ -73,7 +70,9 @@ INLINE bool kcond_try_wait(kcond* cond, int msec) {
 #else
 	kmutex_lock(&cond->mutex);
 	if (cond->ev) {
-		cond->ev = false;
+		if (cond->auto_reset) {
+			cond->ev = false;
+		}
 		kmutex_unlock(&cond->mutex);
 		return true;
 	}
-- 
2.43.0


From ee8effc661167999d457858eb85b13e18bb5a126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 04/61] fix: kfiber_join2 must deliver the return value of an
 already finished fiber

---
 src/kfiber.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 84f1c20..fcfab54 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -317,6 +317,19 @@ int kfiber_start(kfiber * fiber, int len) {
 	kfiber_wakeup(fiber, NULL, len);
 	return 0;
 }
+typedef struct {
+	kfiber* fiber;
+	result_callback notice;
+	void* arg;
+} kfiber_join2_param;
+static kev_result result_fiber_join2(KOPAQUE data, void* arg, int got) {
+	kfiber_join2_param* param = (kfiber_join2_param*)arg;
+	/* got is only the retval when the fiber was still running */
+	kev_result result = param->notice(data, param->arg, param->fiber->retval);
+	kfiber_release(param->fiber);
+	xfree(param);
+	return result;
+}
 kev_result kfiber_join2(kfiber * fiber, KOPAQUE data, result_callback notice, void* arg) {
 	kassert(kfiber_is_main());
 	if (fiber->close_cond == NULL) {
@@ -324,9 +337,11 @@ kev_result kfiber_join2(kfiber * fiber, KOPAQUE data, result_callback notice, vo
 		kfiber_release(fiber);
 		return result;
 	}
-	kev_result result = fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
-	kfiber_release(fiber);
-	return result;
+	kfiber_join2_param* param = xmemory_new(kfiber_join2_param);
+	param->fiber = fiber;
+	param->notice = notice;
+	param->arg = arg;
+	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, result_fiber_join2, param);
 }
 
 int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
-- 
2.43.0


From bb919ba47fd0f5cd8c1be96c838f75585a413be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/61] fix: every exit callback and self reference of a fiber
 must be notified

---
 src/kfiber.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index fcfab54..b835a7c 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -348,7 +348,8 @@ int kfiber_exit_callback(KOPAQUE data, result_callback notice, void* arg) {
 	kfiber* fiber = kfiber_self2();
 	CHECK_FIBER(fiber);
 	if (fiber->close_cond == NULL) {
-		fiber->close_cond = kfiber_cond_init(true);
+		/* every waiter must see the exit, also one of a later thread safe reference */
+		fiber->close_cond = kfiber_cond_init_ts(false);
 	}
 	return fiber->close_cond->f->wait_callback(fiber->close_cond, data, notice, arg);
 }
@@ -357,9 +358,9 @@ kfiber* kfiber_ref_self(bool thread_safe) {
 	assert(fiber && !kfiber_is_main_fiber(fiber));
 	if (fiber->close_cond == NULL) {
 		if (thread_safe) {
-			fiber->close_cond = kfiber_cond_init_ts(true);
+			fiber->close_cond = kfiber_cond_init_ts(false);
 		} else {
-			fiber->close_cond = kfiber_cond_init(true);
+			fiber->close_cond = kfiber_cond_init(false);
 		}
 	}
 	katom_inc((void*)&fiber->base.ref);
-- 
2.43.0


From 6ec337b80f4641851bba0e597a76321216c60663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:41 +0000
Subject: [PATCH 06/61] fix: a tick callback may close any tick of its selector

---
 src/kselector.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/kselector.c b/src/kselector.c
index e48d8d4..b2b3d84 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -150,7 +150,8 @@ void kselector_update_time()
 }
 int kselector_check_timeout(kselector *selector,int event_number)
 {
-	kgl_list* tick_list,*tick_next_list;
+	kgl_list ticks;
+	kgl_list* tick_list;
 	kselector_tick* tick;
 	struct krb_node *block = NULL;
 	struct krb_node *last = NULL;
@@ -266,16 +267,23 @@ int kselector_check_timeout(kselector *selector,int event_number)
 			kselector_add_list(selector, (kselectable*)ready_ev, KGL_LIST_RW);
 		}
 	}
-	tick_list = klist_head(&selector->tick);
-
-	while (tick_list != &selector->tick) {
+	//a tick callback may close any tick: move each one back before it is called
+	klist_init(&ticks);
+	if (!klist_empty(&selector->tick)) {
+		ticks = selector->tick;
+		ticks.next->prev = &ticks;
+		ticks.prev->next = &ticks;
+		klist_init(&selector->tick);
+	}
+	while (!klist_empty(&ticks)) {
+		tick_list = klist_head(&ticks);
 		tick = kgl_list_data(tick_list, kselector_tick, queue);
-		tick_next_list = tick_list->next;
+		klist_remove(tick_list);
+		klist_append(&selector->tick, tick_list);
 		int next_event_time = tick->cb(tick->arg, event_number);
 		if (next_event_time > 0 && next_event_time < min_event_time) {
 			min_event_time = next_event_time;
 		}
-		tick_list = tick_next_list;
 	}
 	return min_event_time;
 }
-- 
2.43.0


From 5ab40c2bc3290167ce0f37b1da8bff33c6b645a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 07/61] fix: rbtree_int_cmp must order keys whose difference
 overflows an int

---
 src/krbtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/krbtree.c b/src/krbtree.c
index cb7c9ea..e173962 100644
--- a/src/krbtree.c
+++ b/src/krbtree.c
@@ -33,7 +33,7 @@ int rbtree_int_cmp(const void *key1, const void *key2)
 {
 	int *k1 = (int *)key1;
 	int *k2 = (int *)key2;
-	return *k1 - *k2;
+	return (*k1 > *k2) - (*k1 < *k2);
 }
 static inline void rb_set_parent(struct krb_node *rb, struct krb_node *p)
 {
-- 
2.43.0


From 513db6cdb1b2d5b70b53d0a135b5bb2e2203637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 08/61] fix: krw_insert must not bring back the consumed bytes
 of the old head

---
 src/kbuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index c839c5b..671a37b 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -36,7 +36,17 @@ void krw_insert(krw_buffer* rw_buffer, kbuf* buf) {
 		krw_append(rw_buffer, buf);
 		return;
 	}
-	buf->next = rw_buffer->head;
+	kbuf* head = rw_buffer->head;
+	int consumed = (int)(rw_buffer->read_hot - head->data);
+	if (consumed > 0) {
+		/* drop the consumed bytes of the old head, read_hot is going to leave it */
+		head->used -= consumed;
+		memmove(head->data, rw_buffer->read_hot, head->used);
+		if (head == rw_buffer->write_hot_buf && rw_buffer->write_hot) {
+			rw_buffer->write_hot -= consumed;
+		}
+	}
+	buf->next = head;
 	rw_buffer->head = buf;
 	rw_buffer->total_len += buf->used;
 	rw_buffer->read_hot = rw_buffer->head->data;
-- 
2.43.0


From f19a4bf7a00453e649e516b5ca49ee9c9cbdce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 09/61] fix: an empty buffer in a chain must not hide the bytes
 after it

---
 src/kbuf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kbuf.c b/src/kbuf.c
index 671a37b..6e6ba15 100644
--- a/src/kbuf.c
+++ b/src/kbuf.c
@@ -81,11 +81,21 @@ kbuf* krw_newbuff(int chunk_size) {
 	buf->next = NULL;
 	return buf;
 }
+static void krw_skip_empty_head(krw_buffer* rw_buffer) {
+	while (rw_buffer->head->next && rw_buffer->read_hot == rw_buffer->head->data + rw_buffer->head->used) {
+		kbuf* next = rw_buffer->head->next;
+		xfree(rw_buffer->head->data);
+		xfree(rw_buffer->head);
+		rw_buffer->head = next;
+		rw_buffer->read_hot = next->data;
+	}
+}
 int krw_get_read_buffers(krw_buffer* rw_buffer, LPWSABUF buffer, int buffer_count) {
 	if (rw_buffer->read_hot == NULL) {
 		return 0;
 	}
 	kassert(rw_buffer->head);
+	krw_skip_empty_head(rw_buffer);
 	kbuf* tmp = rw_buffer->head;
 	buffer[0].iov_base = rw_buffer->read_hot;
 	buffer[0].iov_len = (int)(rw_buffer->head->used - (rw_buffer->read_hot - rw_buffer->head->data));
@@ -130,7 +140,7 @@ bool krw_read_success(krw_buffer* rw_buffer, int got) {
 			rw_buffer->read_hot = rw_buffer->head->data;
 		}
 	}
-	return true;
+	return rw_buffer->total_len > 0;
 }
 char* krw_get_write_buffer(krw_buffer* rw_buffer, int* len) {
 	if (rw_buffer->write_hot_buf == NULL) {
-- 
2.43.0


From bbb1b422f60f49d09d6481d1cb6069531f3ec469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 10/61] fix: an aligned pool allocation must not run past a
 block whose end is not aligned

---
 src/kmalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index beb0b3e..83458fb 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -54,7 +54,7 @@ static INLINE void* kgl_palloc_small(kgl_pool_t* pool, size_t size, size_t align
 			m = (char*)kgl_align_ptr(m, KGL_ALIGNMENT);
 		}
 
-		if ((size_t)(p->d.end - m) >= size) {
+		if (m <= p->d.end && (size_t)(p->d.end - m) >= size) {
 			p->d.last = m + size;
 
 			return m;
-- 
2.43.0


From 883c4cfd76db1e9a4d4164b6c5482f15a067dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 11/61] fix: pushing to an array created with no room must
 allocate an element

---
 src/kmalloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kmalloc.c b/src/kmalloc.c
index 83458fb..7d029e2 100644
--- a/src/kmalloc.c
+++ b/src/kmalloc.c
@@ -286,14 +286,15 @@ void* kgl_array_push(kgl_array_t* a) {
 		} else {
 			/* allocate a new array */
 
-			new_elt = kgl_palloc(p, 2 * size);
+			size_t nalloc = a->nalloc > 0 ? 2 * a->nalloc : 1;
+			new_elt = kgl_palloc(p, nalloc * a->size);
 			if (new_elt == NULL) {
 				return NULL;
 			}
 
 			kgl_memcpy(new_elt, a->elts, size);
 			a->elts = new_elt;
-			a->nalloc *= 2;
+			a->nalloc = nalloc;
 		}
 	}
 
-- 
2.43.0


From 9b1489b088d961ef8a91ec542b3a5e7c7a14e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 12/61] fix: the hash of an IPv4 ip_addr must not depend on the
 unused bytes

---
 include/ksocket.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ksocket.h b/include/ksocket.h
index 434bdd2..9bcd061 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -115,6 +115,9 @@ struct ip_addr_s {
 	}
 	unsigned get_hash()
 	{
+		if (sin_family == PF_INET) {
+			return addr32[0];
+		}
 		unsigned h = 0;
 		for (int i = 0; i < 4; i++) {
 			h ^= addr32[i];
-- 
2.43.0


From 7b0d6743622b16ed98e3132361a3d0e3f607627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 13/61] fix: IPv4 address comparison must not overflow

---
 include/ksocket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 9bcd061..8ef3627 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -154,7 +154,7 @@ INLINE int ksocket_addr_compare(const sockaddr_i *a, const sockaddr_i *b)
 	}
 	if (a->v4.sin_family == PF_INET)
 #endif
-	return (int)a->v4.sin_addr.s_addr - (int)b->v4.sin_addr.s_addr;
+	return (a->v4.sin_addr.s_addr > b->v4.sin_addr.s_addr) - (a->v4.sin_addr.s_addr < b->v4.sin_addr.s_addr);
 #ifdef KSOCKET_IPV6
 	return memcmp(&a->v6.sin6_addr, &b->v6.sin6_addr, sizeof(a->v6.sin6_addr));
 #endif
@@ -194,7 +194,7 @@ INLINE int ksocket_ipaddr_compare(ip_addr *a, ip_addr *b)
 		return ret;
 	}
 	if (a->sin_family == PF_INET) {
-		return (int)a->addr32[0] - (int)b->addr32[0];
+		return (a->addr32[0] > b->addr32[0]) - (a->addr32[0] < b->addr32[0]);
 	}
 	return memcmp(a->addr8, b->addr8, sizeof(a->addr8));
 #else
-- 
2.43.0


From 37959e17e6b556aaff6991133b218811b66b2b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 14/61] fix: ksocket_is_block must report blocking sockets, not
 non-blocking ones

---
 include/ksocket.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ksocket.h b/include/ksocket.h
index 8ef3627..f27dc58 100644
--- a/include/ksocket.h
+++ b/include/ksocket.h
@@ -270,7 +270,7 @@ INLINE bool ksocket_is_block(SOCKET sockfd) {
 	return false;
 #else
 	int flags = fcntl(sockfd, F_GETFL, 0);
-	return (flags & O_NONBLOCK) > 0;
+	return (flags & O_NONBLOCK) == 0;
 #endif
 }
 void ksocket_startup();
-- 
2.43.0


From d53c0c210dbf156e7c60c07d4207e1661da154ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 15/61] fix: a unix path that does not fit must be refused, not
 truncated without a terminator

---
 src/kserver.c | 9 ++++++++-
 src/ksocket.c | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kserver.c b/src/kserver.c
index d1d2e43..19a5c9a 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -221,7 +221,14 @@ bool kserver_bind(kserver *server, const char *ip, uint16_t port, kgl_ssl_ctx *s
 #endif
 	if (*ip=='/') {
 #ifdef KSOCKET_UNIX	
-		ksocket_unix_addr(ip,&server->un_addr);
+		if (ksocket_unix_addr(ip, &server->un_addr) != 0) {
+#ifdef KSOCKET_SSL
+			if (ssl_ctx) {
+				kgl_release_ssl_ctx(ssl_ctx);
+			}
+#endif
+			return false;
+		}
 #endif
 	} else if (!ksocket_getaddr(ip, port, 0, AI_NUMERICHOST, &server->addr)) {
 #ifdef KSOCKET_SSL
diff --git a/src/ksocket.c b/src/ksocket.c
index 3231654..2903ccd 100644
--- a/src/ksocket.c
+++ b/src/ksocket.c
@@ -242,6 +242,9 @@ SOCKET ksocket_listen(const sockaddr_i* addr, int flag) {
 int ksocket_unix_addr(const char* path, struct sockaddr_un* addr) {
 	memset(addr, 0, sizeof(struct sockaddr_un));
 	addr->sun_family = AF_UNIX;
+	if (strlen(path) >= sizeof(addr->sun_path)) {
+		return -1;
+	}
 	strncpy(addr->sun_path, path, sizeof(addr->sun_path));
 	return 0;
 }
-- 
2.43.0


From a1f572e3e98fe12d81c89e637e3ca0b5f074ec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:25 +0000
Subject: [PATCH 16/61] fix: a worker queue whose thread cannot be started must
 not corrupt its counters or lose the job

---
 src/kasync_worker.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/kasync_worker.c b/src/kasync_worker.c
index 23b4767..ae53334 100644
--- a/src/kasync_worker.c
+++ b/src/kasync_worker.c
@@ -85,7 +85,8 @@ bool kasync_worker_thread_start(void *param, kasync_worker_callback cb)
 	xfree(p);
 	return false;
 }
-static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
+//false if the job cannot run: no worker is running and none could be started
+static bool kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bool high)
 {
 	worker->queue++;
 	if (worker->last == NULL) {
@@ -104,15 +105,21 @@ static void kasync_worker_add(kasync_worker *worker, kasync_worker_param *rq, bo
 		}
 	}
 	if (worker->worker >= worker->max_worker) {
-		return;
+		return true;
 	}
 	worker->worker++;
 	kasync_worker_refs(worker);
 	if (!kthread_pool_start(kasync_worker_worker_thread,worker)) {
-		worker--;
+		worker->worker--;
 		kasync_worker_release(worker);
+		if (worker->worker == 0 && worker->head == rq && worker->last == rq) {
+			worker->head = NULL;
+			worker->last = NULL;
+			worker->queue--;
+			return false;
+		}
 	}
-	return;
+	return true;
 }
 bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_callback cb, bool high)
 {
@@ -128,9 +135,12 @@ bool kasync_worker_try_start(kasync_worker *worker, void *data, kasync_worker_ca
 	rq->data = data;
 	rq->next = NULL;
 	rq->wait = NULL;
-	kasync_worker_add(worker,rq, high);
+	bool result = kasync_worker_add(worker,rq, high);
 	kmutex_unlock(&worker->lock);
-	return true;
+	if (!result) {
+		kasync_worker_param_destroy(rq);
+	}
+	return result;
 }
 bool kasync_worker_empty(kasync_worker *worker)
 {
@@ -152,9 +162,13 @@ void kasync_worker_start(kasync_worker *worker, void *data, kasync_worker_callba
 		wait = kcond_init(true);
 	}
 	rq->wait = wait;
-	kasync_worker_add(worker, rq, false);
+	bool result = kasync_worker_add(worker, rq, false);
 	kmutex_unlock(&worker->lock);
-	if (wait != NULL) {
+	if (!result) {
+		//no thread to run the job, the caller runs it
+		cb(data, 1);
+		kasync_worker_param_destroy(rq);
+	} else if (wait != NULL) {
 		kcond_wait(wait);
 		kcond_destroy(wait);
 	}
-- 
2.43.0


From 9f6f575f486c3aa257eef62f997b3df4818085d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:42 +0000
Subject: [PATCH 17/61] fix: kstring_from2 must copy all its bytes, including
 zero bytes

---
 include/kstring.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/kstring.h b/include/kstring.h
index 1245526..a447e99 100644
--- a/include/kstring.h
+++ b/include/kstring.h
@@ -1,6 +1,7 @@
 #ifndef KSTRING_H_99
 #define KSTRING_H_99
 #include <stdlib.h>
+#include <string.h>
 #include <assert.h>
 #include "kfeature.h"
 #include "kforwin32.h"
@@ -58,7 +59,13 @@ INLINE kgl_ref_str_t* kstring_from(const char* str) {
 	return NULL;
 }
 INLINE kgl_ref_str_t* kstring_from2(const char* str, size_t len) {
-	return convert_refs_string(kgl_strndup(str, len), len);
+	//str may hold zero bytes, they are part of the string.
+	char* data = (char*)xmalloc(len + 1);
+	if (len > 0) {
+		memcpy(data, str, len);
+	}
+	data[len] = '\0';
+	return convert_refs_string(data, len);
 }
 #if 0
 INLINE kgl_ref_str_t* kstring_clone(const kgl_ref_str_t* s) {
-- 
2.43.0


From 9c6677b82acbc199578792d837ccbad5658295f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 18/61] fix: a canonical name lookup must ask the resolver for
 the canonical name

---
 src/kaddr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 69ed9f3..9f0e120 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -108,6 +108,7 @@ bool get_addr(const char *hostname, kgl_addr_type addr_type, struct addrinfo **r
 	case kgl_addr_cname:
 		f.ai_family = PF_INET;
 		f.ai_flags = AI_CANONNAME;
+		break;
 	default:
 		f.ai_family = PF_UNSPEC;
 		f.ai_flags = 0;
-- 
2.43.0


From 36af9ce12c8027fc1ee2bdd0b6baefd8c9aedc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:15 +0000
Subject: [PATCH 19/61] fix: a name refreshed after its entry was flushed must
 not touch an entry still being resolved

---
 src/kaddr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 9f0e120..6704f24 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -151,6 +151,14 @@ static void update_addr_cache(kgl_addr_key *key, struct addrinfo *addr) {
 		node->data = cn;
 	} else {
 		cn = (kgl_addr_node *)node->data;
+		if (cn->prev == NULL) {
+			//the old node is flushed and the name is being resolved again.
+			kmutex_unlock(&addr_lock);
+			if (addr) {
+				freeaddrinfo(addr);
+			}
+			return;
+		}
 		klist_remove(cn);
 	}
 	if (cn->addr != NULL) {
-- 
2.43.0


From 8599a73a7c8dcdb36cc6a71cd97af980167d2181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 20/61] fix: a resolved address must be kept until it is
 delivered, even when the cache is flushed

---
 src/kaddr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kaddr.c b/src/kaddr.c
index 6704f24..73330a7 100644
--- a/src/kaddr.c
+++ b/src/kaddr.c
@@ -239,8 +239,15 @@ static void find_addr_result(kgl_addr_node *cn, struct addrinfo *addr, bool succ
 	if (addr) {
 		addr2 = kgl_addr_new(addr);
 	}
+	if (addr2) {
+		//the cache can be flushed before the result is delivered.
+		kgl_addr_refs(addr2);
+	}
 	queue = update_addr_node_cache(cn, addr2);
 	addr_result(queue, addr2);
+	if (addr2) {
+		kgl_addr_release(addr2);
+	}
 }
 
 kev_result async_addr_worker(void *data, int msec)
-- 
2.43.0


From deb514892660ce9e9fa59218d82d11143b72942f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 21/61] fix: a notice of a manual-reset event must release the
 waiting threads even when it is reset at once

---
 include/ksync.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ksync.h b/include/ksync.h
index f4acf90..aa002fc 100644
--- a/include/ksync.h
+++ b/include/ksync.h
@@ -22,6 +22,7 @@ typedef void kcond;
 typedef struct {
 	bool ev;
 	bool auto_reset;
+	unsigned notice_count;
 	kmutex  mutex;
 	pthread_cond_t cond;
 } kcond;
@@ -55,8 +56,13 @@ INLINE void kcond_wait(kcond *cond)
 	WaitForSingleObject(cond, INFINITE);
 #else
 	kmutex_lock(&cond->mutex);
+	unsigned notice_count = cond->notice_count;
 	while (!cond->ev) {
 		pthread_cond_wait(&cond->cond, &cond->mutex);
+		if (!cond->auto_reset && notice_count != cond->notice_count) {
+			//noticed while waiting, even when it is reset meanwhile.
+			break;
+		}
 	}
 	if (cond->auto_reset) {
 		cond->ev = false;
@@ -94,6 +100,7 @@ INLINE void kcond_notice(kcond *cond)
 #else
 	kmutex_lock(&cond->mutex);
 	cond->ev = true;
+	cond->notice_count++;
 	if (cond->auto_reset) {
 		pthread_cond_signal(&cond->cond);
 	} else {
-- 
2.43.0


From 75ebebab56919ad0d95c32612e37d186db7b8e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 22/61] fix: writev_full must not stop before the empty buffers
 at the end of the vector

---
 include/kfiber.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/kfiber.h b/include/kfiber.h
index 27ba431..0daae19 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -216,7 +216,8 @@ INLINE size_t kfiber_net_writev_full(kconnection * cn, kgl_iovec * buf, int* bc)
 			return total_length;
 		}
 		total_length += got;
-		while (got > 0) {
+		//skip what is sent, and the empty buffers that follow
+		while (*bc > 0) {
 			if ((int)buf->iov_len > got) {
 				buf->iov_len -= got;
 				buf->iov_base = (char*)buf->iov_base + got;
-- 
2.43.0


From 612343072d779da9ec98279752d03871bb305b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:36 +0000
Subject: [PATCH 23/61] fix: a requested read turn must be used up on a socket
 that is not registered yet

---
 src/kselectable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9c3a704..db63e65 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -460,7 +460,7 @@ kev_result selectable_read_event(kselectable* st)
 {
 #ifdef STF_ET
 	/* epoll notice fd read event use LT model other use ET model */
-	if (KBIT_TEST(st->base.st_flags, STF_ET))
+	if (KBIT_TEST(st->base.st_flags, STF_ET | STF_RREADY2))
 #endif
 		KBIT_CLR(st->base.st_flags, STF_READ);
 	if (unlikely(KBIT_TEST(st->base.st_flags, STF_UDP))) {
-- 
2.43.0


From 5f032da2160cba6cabff26f5c3179451fa8060be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 24/61] fix: a connect that times out must not be reported as
 connected

---
 src/kepoll_selector.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 995c1d6..88e13a1 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -375,9 +375,10 @@ static int epoll_selector_select(kselector *selector,int tmo) {
 #ifndef NDEBUG
 		//klog(KLOG_DEBUG,"event happened st=[%p] ev=[%d]\n",st,ev);
 #endif
-		//if (KBIT_TEST(ev, EPOLLHUP | EPOLLERR)) {
-		//	KBIT_SET(st->base.st_flags, STF_ERR);
-		//}
+		//a connect that is shut down (time out) has no EPOLLRDHUP
+		if (KBIT_TEST(ev, EPOLLERR)) {
+			KBIT_SET(st->base.st_flags, STF_ERR);
+		}
 #ifdef EPOLLRDHUP
 		if (KBIT_TEST(ev,EPOLLRDHUP|EPOLLIN)==(EPOLLRDHUP|EPOLLIN)) {
 			KBIT_SET(st->base.st_flags, STF_ERR);
-- 
2.43.0


From 256fca7529ee3e499977dab4f3f81c63fb3d753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 25/61] fix: the wait after a read time-out notification must
 last as long as the first one

---
 src/kselector.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselector.c b/src/kselector.c
index b2b3d84..45a4c2e 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -190,6 +190,7 @@ int kselector_check_timeout(kselector *selector,int event_number)
 				//set read time out
 				klist_append(&selector->list[i], l);
 				st->active_msec = kgl_current_msec;
+				st->base.tmo_left = st->base.tmo;
 				kassert(st->e[OP_READ].result);
 				st->e[OP_READ].result(st->data, st->e[OP_READ].arg, ST_ERR_TIME_OUT);
 				continue;
-- 
2.43.0


From 2d21e5b48d4c467083d31ced8f5b5b3b40e63855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:35 +0000
Subject: [PATCH 26/61] fix: reading again after a read time-out notification
 must use the new buffer

---
 include/kfiber.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/kfiber.h b/include/kfiber.h
index 0daae19..2501adc 100644
--- a/include/kfiber.h
+++ b/include/kfiber.h
@@ -257,6 +257,7 @@ INLINE int kfiber_net_readv(kconnection * cn, kgl_iovec * buf, int bc) {
 		assert(cn->st.e[OP_READ].result == kfiber_result_callback);
 		//assert(cn->st.e[OP_READ].buffer == kfiber_buffer_callback);
 		assert(cn->st.e[OP_READ].arg == fiber);
+		cn->st.e[OP_READ].buffer = &iovec_buf;
 		return __kfiber_wait(fiber, cn->st.data);
 	}
 	return kfiber_wait_result(fiber, selectable_read(&cn->st, kfiber_result_callback, &iovec_buf, fiber), cn->st.data);
-- 
2.43.0


From 422d2aecebb0f77f29795c9e4460728cfd70a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 27/61] fix: watching for a disconnect must report one that was
 seen before the watch

---
 src/kepoll_selector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 88e13a1..6de11ed 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -268,6 +268,10 @@ static bool epoll_selector_readhup(kselector *selector, kselectable *st, result_
 			KBIT_CLR(st->base.st_flags,STF_RDHUP);
 			return false;
 		}
+	} else if (KBIT_TEST(st->base.st_flags,STF_ERR)) {
+		//peer is already gone, no more event from epoll
+		KBIT_SET(st->base.st_flags,STF_WREADY);
+		kselector_add_list(selector,st,KGL_LIST_READY);
 	}
 	return true;
 #else
-- 
2.43.0


From b3a57242df88feaa89a9fd210285eff2906a82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 28/61] fix: a transient accept failure must not end the
 listener

---
 src/kserver.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/kserver.c b/src/kserver.c
index 19a5c9a..4887366 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -20,6 +20,7 @@ typedef struct {
 } kserver_update_ssl_ctx_param;
 #endif
 
+#define ACCEPT_RETRY_MSEC 100
 static int kgl_failed_tries = 0;
 
 #ifndef KGL_IOCP
@@ -41,6 +42,28 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 			return kev_ok;
 		}
 	}
+	if (!KBIT_TEST(ss->st.base.st_flags, STF_ERR)) {
+		//a failure that is not about the listen socket must not end it.
+		switch (errno) {
+		case EINTR:
+		case ECONNABORTED:
+		case EPROTO:
+			//this connection is gone, try the next one.
+			if (kgl_selector_module.accept(ss, ss->st.e[OP_WRITE].arg)) {
+				return kev_ok;
+			}
+			break;
+		case EMFILE:
+		case ENFILE:
+		case ENOBUFS:
+		case ENOMEM:
+			//no resource now, the connection stays in the listen queue. try it later.
+			kselector_add_timer(ss->st.base.selector, kselector_event_accept, arg, ACCEPT_RETRY_MSEC, data);
+			return kev_ok;
+		default:
+			break;
+		}
+	}
 	//printf("accept failed.\n");
 	return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);	
 }
-- 
2.43.0


From 6dc7523301e9906f707e0de742c7eb08d11d81ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 29/61] fix: a connection accepted on a unix socket must have
 its peer's whole address

---
 include/kserver.h |  7 +++++++
 src/kserver.c     | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/kserver.h b/include/kserver.h
index b704511..62cd9ac 100644
--- a/include/kserver.h
+++ b/include/kserver.h
@@ -68,7 +68,14 @@ struct kserver_selectable_s{
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	volatile int32_t hold_by_next_shutdown_refs;
 #endif
+#ifdef KSOCKET_UNIX
+	union {
+		sockaddr_i accept_addr;
+		struct sockaddr_un accept_un_addr;
+	};
+#else
 	sockaddr_i accept_addr;
+#endif
 	socklen_t addr_len;
 #ifdef _WIN32
 	char *tmp_addr_buf;
diff --git a/src/kserver.c b/src/kserver.c
index 4887366..0dafec9 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -28,9 +28,20 @@ kev_result kselector_event_accept(KOPAQUE data, void *arg,int got)
 {
 	kserver_selectable *ss = (kserver_selectable *)arg;
 	//printf("ksocket_accept called...\n");
+#ifdef KSOCKET_UNIX
+	//an unnamed unix peer gives no more than the family.
+	memset(&ss->accept_un_addr, 0, sizeof(ss->accept_un_addr));
+#endif
 	SOCKET sockfd = ksocket_accept(ss->st.fd,&ss->accept_addr, true);
 	
 	if (sockfd>=0) {
+#ifdef KSOCKET_UNIX
+		if (ss->accept_addr.v4.sin_family == AF_UNIX) {
+			//sockaddr_i has no room for a unix path.
+			socklen_t un_len = (socklen_t)sizeof(ss->accept_un_addr);
+			getpeername(sockfd, (struct sockaddr *)&ss->accept_un_addr, &un_len);
+		}
+#endif
 		//printf("ksocket_accept=[%d]\n",sockfd);
 		return ss->st.e[OP_WRITE].result(data, ss->st.e[OP_WRITE].arg,(int)sockfd);
 	}
-- 
2.43.0


From 52f668839aceb166c0e58d73a0c86176ec654230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 30/61] fix: replacing a server's TLS context must not use a
 listener that was closed meanwhile

---
 src/kserver.c | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 0dafec9..0440106 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -15,8 +15,8 @@
 
 #ifdef KSOCKET_SSL
 typedef struct {
+	kserver *server;
 	kserver_selectable *ss;
-	kgl_ssl_ctx *ssl_ctx;
 } kserver_update_ssl_ctx_param;
 #endif
 
@@ -466,7 +466,20 @@ static void kserver_selectable_update_ssl_ctx(kserver_selectable *ss, kgl_ssl_ct
 static kev_result kserver_ssl_ctx_next_update(KOPAQUE data, void *arg, int got)
 {
 	kserver_update_ssl_ctx_param *param = (kserver_update_ssl_ctx_param *)arg;
-	kserver_selectable_update_ssl_ctx(param->ss, param->ssl_ctx);
+	kserver *server = param->server;
+	kgl_list* pos;
+	kmutex_lock(&server->ss_lock);
+	klist_foreach(pos, &server->ss) {
+		//the ss may be destroyed meanwhile
+		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);
+		if (ss == param->ss && ss->st.base.selector == kgl_get_tls_selector()) {
+			kgl_add_ref_ssl_ctx(server->ssl_ctx);
+			kserver_selectable_update_ssl_ctx(ss, server->ssl_ctx);
+			break;
+		}
+	}
+	kmutex_unlock(&server->ss_lock);
+	kserver_release(server);
 	xfree(param);
 	return kev_ok;
 }
@@ -476,23 +489,24 @@ void kserver_set_ssl_ctx(kserver *server, kgl_ssl_ctx *ssl_ctx)
 		//cann't set ssl_ctx to NULL
 		return;
 	}
+	kmutex_lock(&server->ss_lock);
 	if (server->ssl_ctx) {
 		kgl_release_ssl_ctx(server->ssl_ctx);
 	}
 	server->ssl_ctx = ssl_ctx;
-	kmutex_lock(&server->ss_lock);
 	kgl_list* pos;
 	klist_foreach(pos, &server->ss) {
 		kserver_selectable* ss = kgl_list_data(pos, kserver_selectable, queue);	
-		if (ssl_ctx) {
-			kgl_add_ref_ssl_ctx(ssl_ctx);
-		}
 		if (!KBIT_TEST(server->flags,KGL_SERVER_START)) {
+			if (ssl_ctx) {
+				kgl_add_ref_ssl_ctx(ssl_ctx);
+			}
 			kserver_selectable_update_ssl_ctx(ss, ssl_ctx);
-		} else {
+		} else if (ssl_ctx) {
 			kserver_update_ssl_ctx_param *param = xmemory_new(kserver_update_ssl_ctx_param);
+			kserver_refs(server);
+			param->server = server;
 			param->ss = ss;
-			param->ssl_ctx = ssl_ctx;
 			selectable_next(&ss->st, kserver_ssl_ctx_next_update, param, 0);
 		}
 	}
-- 
2.43.0


From d514b5beadb0841e9c1f74c41dd2424a1cbce5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 31/61] fix: closing a server must not shut down a descriptor
 its listener has closed already

---
 src/kserver.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kserver.c b/src/kserver.c
index 0440106..68d6387 100644
--- a/src/kserver.c
+++ b/src/kserver.c
@@ -392,17 +392,18 @@ void kserver_release(kserver *server)
 
 void kserver_selectable_destroy(kserver_selectable *ss)
 {
-	if (ksocket_opened(ss->st.fd)) {
-		ksocket_close(ss->st.fd);
-		ksocket_init(ss->st.fd);
-	}
 	assert(ss->server);
+	//kserver_close must not see a closed descriptor: remove it from the server before close it.
 	kmutex_lock(&ss->server->ss_lock);
 	if (ss->queue.next) {
 		assert(!klist_empty(&ss->server->ss));
 		klist_remove(&ss->queue);
 	}
 	kmutex_unlock(&ss->server->ss_lock);
+	if (ksocket_opened(ss->st.fd)) {
+		ksocket_close(ss->st.fd);
+		ksocket_init(ss->st.fd);
+	}
 #ifdef ACCEPT_SOCKET_SHUTDOWN_NO_EVENT
 	if(katom_get((void *)&ss->hold_by_next_shutdown_refs)>0) {
 		//hold by next_shutdown
-- 
2.43.0


From fa4b613361629188262f10d7080e4c82557f7a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 32/61] fix: a UDP socket that asks for destination addresses
 must get them over IPv6 too

---
 src/kselectable.c | 4 ++--
 src/kudp.c        | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index db63e65..9e1d8b2 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -170,10 +170,10 @@ int selectable_recvmsg(kselectable* st)
 	msg.msg_namelen = ksocket_addr_len((sockaddr_i *)msg.msg_name);
 	msg.msg_iov = (struct iovec *)st->e[OP_READ].buffer->iov_base;
 	msg.msg_iovlen = st->e[OP_READ].buffer->iov_len;
-	msg.msg_control = c->udp->pktinfo;
 	if (c->udp) {
 		memset(c->udp, 0, sizeof(kudp_extend));
-		msg.msg_controllen = sizeof(c->udp->pktinfo);
+		msg.msg_control = c->udp;
+		msg.msg_controllen = sizeof(kudp_extend);
 	}
 	return recvmsg(st->fd, &msg, 0);
 }
diff --git a/src/kudp.c b/src/kudp.c
index 9502dcf..266a463 100644
--- a/src/kudp.c
+++ b/src/kudp.c
@@ -78,6 +78,11 @@ kconnection* kudp_new2(int flags, kselector* st)
 		return NULL;
 	}
 	if (KBIT_TEST(flags, KSOCKET_IP_PKTINFO)) {
+#ifdef IPV6_RECVPKTINFO
+		if (domain == PF_INET6) {
+			setsockopt(uc->st.fd, IPPROTO_IPV6, IPV6_RECVPKTINFO, (const char*)&n, sizeof(int));
+		} else
+#endif
 #ifdef IP_SENDSRCADDR
 		setsockopt(uc->st.fd, IPPROTO_IP, IP_SENDSRCADDR, (const char*)&n, sizeof(int));
 #else
-- 
2.43.0


From 10e79f887531bb8b63bcd3053709b1ec5bfb5714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 33/61] fix: setting the clock back by a second must be noticed
 when it ends in the same second

---
 src/kselector.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/kselector.c b/src/kselector.c
index 45a4c2e..e885f7d 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -135,11 +135,12 @@ void kselector_update_time()
 {	
 	struct timeval   tv;
 	gettimeofday(&tv, NULL);
+	//compare milliseconds: setting back by a second may end in the second the last update saw
+	int64_t diff_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000) - kgl_current_msec;
+	if (unlikely(diff_msec < 0)) {
+		selector_manager_adjust_time(diff_msec);
+	}
 	if (unlikely(kgl_current_sec != tv.tv_sec)) {
-		if (unlikely(tv.tv_sec < kgl_current_sec)) {
-			int64_t diff_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000) - kgl_current_msec;
-			selector_manager_adjust_time(diff_msec);
-		}		
 		kgl_current_sec = tv.tv_sec;
 		if (kgl_second_change_hook) {
 			kgl_second_change_hook();
-- 
2.43.0


From 018e4e1ba70c8f158180f934303c3d33a3d0c787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 34/61] fix: the new time must be in place before a clock
 adjustment is passed on to the loops

---
 src/kselector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kselector.c b/src/kselector.c
index e885f7d..4a6c897 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -137,6 +137,8 @@ void kselector_update_time()
 	gettimeofday(&tv, NULL);
 	//compare milliseconds: setting back by a second may end in the second the last update saw
 	int64_t diff_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000) - kgl_current_msec;
+	//before the adjustment is passed on: a loop that is adjusted must not compare with the old time
+	kgl_current_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000);
 	if (unlikely(diff_msec < 0)) {
 		selector_manager_adjust_time(diff_msec);
 	}
@@ -146,7 +148,6 @@ void kselector_update_time()
 			kgl_second_change_hook();
 		}
 	}
-	kgl_current_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000);
 	return;
 }
 int kselector_check_timeout(kselector *selector,int event_number)
-- 
2.43.0


From 778994ad6dac8f4ab622494d45090e183eb95d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:43 +0000
Subject: [PATCH 35/61] fix: the rest of a partial TLS write may be sent from
 another buffer

---
 src/kgl_ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index f94e225..9d0bcbf 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -393,6 +393,8 @@ SSL_CTX* kgl_ssl_ctx_new(void* ssl_ctx_data) {
 #endif
 	SSL_CTX_set_read_ahead(ctx, 0);
 	SSL_CTX_set_mode(ctx, SSL_MODE_ENABLE_PARTIAL_WRITE);
+	//after a partial write the rest may be sent from another buffer
+	SSL_CTX_set_mode(ctx, SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
 #if (OPENSSL_VERSION_NUMBER < 0x10100001L && !defined LIBRESSL_VERSION_NUMBER)
 	SSL_CTX_set_tmp_rsa_callback(ctx, kgl_ssl_rsa512_key_callback);
 #endif
-- 
2.43.0


From f0f0c75669cb161970752bd8fa51ce6c49256aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:47 +0000
Subject: [PATCH 36/61] fix: shutting a TLS connection down while another fiber
 is writing must not touch the pending write

---
 src/kfiber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index b835a7c..16dddc7 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -533,7 +533,8 @@ int kfiber_ssl_shutdown(kconnection * c) {
 			kfiber* fiber = kfiber_self(&c->st.base);
 			CHECK_FIBER(fiber);
 			c->st.data = NULL;
-			if (!KBIT_TEST(c->st.base.st_flags, STF_ERR)) {
+			//while another fiber is writing there is no way to send a close notify.
+			if (!KBIT_TEST(c->st.base.st_flags, STF_ERR | STF_WRITE)) {
 				fiber->arg = &c->st;
 				kfiber_wait_result(fiber, kselectable_ssl_shutdown((kselectable*)fiber->arg, result_fiber_ssl_shutdown, fiber), NULL);
 			}
-- 
2.43.0


From 00f0ce1410488685b22170bb9c18ff2c5890d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 37/61] fix: a TLS error of another connection on the same
 thread must not break a shutdown

---
 src/kgl_ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 9d0bcbf..70f67e2 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -820,6 +820,8 @@ kssl_status kgl_ssl_handshake(SSL* ssl) {
 	return ret_ok;
 }
 kssl_status kgl_ssl_shutdown(SSL* ssl) {
+	//an error left by another connection of this thread would be taken for this one's.
+	ERR_clear_error();
 	int n = SSL_shutdown(ssl);
 	if (n == 1) {
 		return ret_ok;
-- 
2.43.0


From a3541eb714a5868f7213650bf00c4cb2ae0dd17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 38/61] fix: a TLS close notify must leave the memory transport
 when the connection is shut down

---
 src/kconnection.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kconnection.c b/src/kconnection.c
index 915f9c7..729805d 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -123,9 +123,15 @@ kev_result kconnection_connect(kconnection *c,result_callback cb, void *arg)
 kev_result kselectable_ssl_shutdown(kselectable* st, result_callback cb, void* arg)
 {
 	kassert(ksocket_opened(st->fd));
+#ifdef ENABLE_KSSL_BIO
+	if (KBIT_TEST(SSL_get_shutdown(st->ssl->ssl), SSL_SENT_SHUTDOWN) && BIO_pending(st->ssl->bio[OP_WRITE].bio) <= 0) {
+		//close notify is out
+		return cb(st->data, arg, 1);
+	}
+#endif
 	kssl_status status = kgl_ssl_shutdown(st->ssl->ssl);
 #ifdef ENABLE_KSSL_BIO
-	if (status != ret_error && BIO_pending(st->ssl->bio[OP_WRITE].bio) > 0) {
+	if (BIO_pending(st->ssl->bio[OP_WRITE].bio) > 0) {
 		return selectable_write(st, cb, NULL, arg);
 	}
 #endif
-- 
2.43.0


From 593cd8b62d6d8c3b97920cf72ca46596faa475c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:00 +0000
Subject: [PATCH 39/61] fix: a TLS read over the memory transport must not
 forget that the socket is readable

---
 src/kselectable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index 9e1d8b2..e982ae6 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -437,7 +437,10 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
+#ifndef ENABLE_KSSL_BIO
+		//with ssl bio the socket may be readable, although there is no complete record.
 		KBIT_CLR(st->base.st_flags, STF_RREADY);
+#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From 31917397189fb14bd87d4563785c454aff7432cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 40/61] fix: waiting for more TLS early data is not the end of
 the stream

---
 src/kselectable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index e982ae6..6e6c9b4 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -84,7 +84,8 @@ static inline int kgl_ssl_readv(kssl_session* ssl, kgl_iovec* buffer, int bc)
 					continue;
 				}
 				if (n != SSL_READ_EARLY_DATA_SUCCESS) {
-					return got;
+					//0 is the end of the stream
+					return (got > 0 ? got : -1);
 				}
 				got += (int)read_bytes;
 				len -= (int)read_bytes;
-- 
2.43.0


From d400ee1c74aad7d6eecc37d59f48b12d736431f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:59 +0000
Subject: [PATCH 41/61] fix: with the memory transport the handshake messages
 must be sent before early data is handed out

---
 src/kconnection.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 729805d..78675d2 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -156,6 +156,9 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	kassert(ssl);
 	kssl_status status;
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
+	if (ssl->in_early) {
+		return cb(st->data, arg, 1);
+	}
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
@@ -172,6 +175,12 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 			ssl->in_early = 1;
 			ssl->early_preread = 1;
 			//printf("read early data buf=[%c] arg=[%p]\n",buf,sh->arg);
+#ifdef ENABLE_KSSL_BIO
+			if (BIO_pending(ssl->bio[OP_WRITE].bio) > 0) {
+				//the peer needs our handshake messages to go on
+				return selectable_write(st, cb, NULL, arg);
+			}
+#endif
 			return cb(st->data, arg, 1); 
 		}
 		status = kgl_ssl_handshake_status(ssl->ssl, n);
-- 
2.43.0


From a8e29693ead6600fc01bb36c0acd09fef3f0c823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:06 +0000
Subject: [PATCH 42/61] fix: a TLS error of another connection on the same
 thread must not break a handshake with early data

---
 src/kconnection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kconnection.c b/src/kconnection.c
index 78675d2..2a7b08a 100644
--- a/src/kconnection.c
+++ b/src/kconnection.c
@@ -162,6 +162,8 @@ kev_result kselectable_ssl_handshake(kselectable *st,result_callback cb, void *a
 	if (ssl->try_early_data) {
 		u_char     buf;
 		size_t     readbytes = 0;
+		//an error left by another connection of this thread would be taken for this one's.
+		ERR_clear_error();
 		int n = SSL_read_early_data(ssl->ssl, &buf, 1, &readbytes);
 		//printf("sh=[%p %p] SSL_read_early_data=[%d]\n", sh,ssl->ssl,n);
 		if (n == SSL_READ_EARLY_DATA_FINISH) {
-- 
2.43.0


From c12cd2bda6eeedb6cb1481150a2f33c8b8cbcd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:19 +0000
Subject: [PATCH 43/61] fix: TLS writes between the end of early data and the
 end of the handshake

---
 src/kselectable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 6e6c9b4..f5d8f41 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -34,7 +34,8 @@ static inline int kgl_ssl_writev(kssl_session* ssl, WSABUF* buffer, int bc)
 			len = KGL_MIN(left, len);
 #endif
 #ifdef SSL_READ_EARLY_DATA_SUCCESS
-			if (ssl->in_early) {
+			//all early data may be read before the handshake is finished
+			if (ssl->in_early || (!SSL_is_init_finished(ssl->ssl) && SSL_get_early_data_status(ssl->ssl) == SSL_EARLY_DATA_ACCEPTED)) {
 				//printf("ssl_is_init_finished=[%d]\n", SSL_is_init_finished(ssl->ssl));
 				size_t write_bytes;
 				int n = SSL_write_early_data(ssl->ssl, hot, len, &write_bytes);
-- 
2.43.0


From 88b73a8694644ef5be5763b8967ad3efcb8a0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:08 +0000
Subject: [PATCH 44/61] fix: the main fiber of a loop must exist before other
 thread callbacks run

---
 src/kselector_manager.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 34e34fb..d31af25 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -41,16 +41,21 @@ struct kgl_selector_manager_callback_s
 static kgl_selector_manager_callback *on_ready_list = NULL;
 static kgl_selector_manager_callback *thread_init = NULL;
 extern void(*kgl_second_change_hook)();
+//in the order of registration (the list has the last one first): the main fiber is made first.
+static void kselector_call_thread_init(kgl_selector_manager_callback* cb)
+{
+	if (cb == NULL) {
+		return;
+	}
+	kselector_call_thread_init(cb->next);
+	cb->call_back(NULL, cb->arg, 0);
+}
 void kselector_init(kselector* selector)
 {
 	srand((unsigned)(time(NULL) * (int64_t)pthread_self()));
 	pthread_setspecific(kgl_selector_key, selector);
 	selector->thread_id = pthread_self();
-	kgl_selector_manager_callback* cb = thread_init;
-	while (cb) {
-		cb->call_back(NULL, cb->arg, 0);
-		cb = cb->next;
-	}
+	kselector_call_thread_init(thread_init);
 }
 void kselector_exit(kselector* selector)
 {
-- 
2.43.0


From 0137d42dee02ce713c93280b212f444c3eca2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:12 +0000
Subject: [PATCH 45/61] fix: growing before the loops exist must be refused

---
 src/kselector_manager.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index d31af25..285f596 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -246,7 +246,7 @@ static int kgl_pow2(int size, int max_bits) {
 	return result;
 }
 bool selector_manager_grow(int  new_size) {
-	if (!kgl_selector_module.name) {
+	if (!is_selector_manager_init()) {
 		fprintf(stderr, "call selector_manager_init first.\n");
 		return false;
 	}
-- 
2.43.0


From bc8c9500aa36e28678c0a2b38ddf0f5c391d86a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 46/61] fix: loops added by growing must have the configured
 time-outs

---
 src/kselector_manager.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 285f596..443053a 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <string.h>
 #include "kselector_manager.h"
 #include "kselector.h"
 #include "klib.h"
@@ -264,6 +265,7 @@ bool selector_manager_grow(int  new_size) {
 	for (int i = kgl_selector_count; i < new_size; i++) {
 		kgl_selectors[i] = kselector_new(NULL);
 		kgl_selectors[i]->sid = i;
+		memcpy(kgl_selectors[i]->timeout, kgl_selectors[0]->timeout, sizeof(kgl_selectors[i]->timeout));
 		kselector_start(kgl_selectors[i]);
 	}
 	kgl_selector_count = new_size;
-- 
2.43.0


From a920d2f68733ea0a1cb577d89e8c654e9060c6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:27 +0000
Subject: [PATCH 47/61] fix: a second kasync_main on a thread must not use the
 freed main fiber

---
 src/kfiber.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kfiber.c b/src/kfiber.c
index 16dddc7..4124b18 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -178,6 +178,7 @@ kev_result kfiber_thread_init(KOPAQUE data, void* arg, int got) {
 		//exit
 		kfiber* fiber = kfiber_main();
 		if (fiber) {
+			pthread_setspecific(kgl_main_fiber_key, NULL);
 			xfree(fiber);
 		}
 		return kev_ok;
-- 
2.43.0


From 0547fbd15c0253fd0259e830cbe05c92d4952964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 48/61] fix: kasync_main must not abort when a tick ends the
 main fiber

---
 src/kselector_manager.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index 443053a..fc73353 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -398,8 +398,8 @@ int kasync_main(kfiber_start_func main, void* arg, int argc)
 	int tmo = SELECTOR_TMO_MSEC;
 	for (;;) {
 		tmo = kselector_check_timeout(selector, kgl_selector_module.select(selector, tmo));
-		if (selector->closed) {
-			assert(klist_empty(&selector->list[KGL_LIST_READY]));
+		//a tick callback may have resumed the main fiber: its end is handled by the next round
+		if (selector->closed && klist_empty(&selector->list[KGL_LIST_READY])) {
 			break;
 		}
 	}
-- 
2.43.0


From 263871e2f47dfd585235eda839e874567db14148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:41 +0000
Subject: [PATCH 49/61] fix: a destroyed loop must give back its AIO context
 and descriptor

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 6de11ed..2b12544 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -171,6 +171,8 @@ static void epoll_selector_destroy(kselector *selector)
 	kepoll_selector *es = (kepoll_selector *)selector->ctx;
 	close(es->kdpfd);
 	close(es->notice_st.st.fd);
+	io_destroy(es->aio_st.aio_ctx);
+	close(es->aio_st.st.fd);
 	xfree(es);
 }
 
-- 
2.43.0


From 775f46355c182186976875fdc9ccf970c55ac49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 50/61] fix: a direct read at the end of a file, or one that
 fails, must not abort

---
 include/kasync_file.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/kasync_file.h b/include/kasync_file.h
index 3146bbb..898f97e 100644
--- a/include/kasync_file.h
+++ b/include/kasync_file.h
@@ -75,9 +75,12 @@ INLINE int kasync_file_adjust_result(kasync_file *fp,int got)
 	if (!fp->st.direct_io) {
 		return got;
 	}	
-	assert(got>fp->st.direct_io_offset);
-	if (got < fp->st.direct_io_offset) {
-		return -1;
+	if (got < 0) {
+		return got;
+	}
+	if (got <= fp->st.direct_io_offset) {
+		//end of file
+		return 0;
 	}
 	got -= fp->st.direct_io_offset;
 	return KGL_MIN(got,fp->st.direct_io_orig_length);
-- 
2.43.0


From d4731770d2f8fb0cdef6b9971dbe390403c265d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:01 +0000
Subject: [PATCH 51/61] fix: seeking before the start of a file must be refused

---
 src/kfiber.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/kfiber.c b/src/kfiber.c
index 4124b18..9e8db4e 100644
--- a/src/kfiber.c
+++ b/src/kfiber.c
@@ -620,14 +620,18 @@ int kfiber_file_write(kfiber_file * file, const char* buf, int length) {
 int kfiber_file_seek(kfiber_file * file, seekPosion pos, int64_t offset) {
 	switch (pos) {
 	case seekBegin:
-		file->st.offset = offset;
-		return 0;
+		break;
 	case seekCur:
-		file->st.offset += offset;
-		return 0;
+		offset += file->st.offset;
+		break;
 	default:
 		return -1;
 	}
+	if (offset < 0) {
+		return -1;
+	}
+	file->st.offset = offset;
+	return 0;
 }
 int64_t kfiber_file_tell(kfiber_file * file) {
 	return file->st.offset;
-- 
2.43.0


From f59b1decc1db11e2b541cde2eaf5835c1cba2630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:43 +0000
Subject: [PATCH 52/61] fix: a file operation must not fail because many others
 are in flight

---
 src/kepoll_selector.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 2b12544..1f06923 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -419,6 +419,27 @@ void epoll_selector_aio_open(kselector *selector,kasync_file *aio_file, FILE_HAN
 	aio_file->st.fd = (SOCKET)fd;
 	aio_file->st.base.selector = selector;
 }
+#ifndef KF_ASYNC_WORKER
+static bool epoll_selector_aio_submit(kepoll_selector *es, kasync_file *file)
+{
+	struct iocb *iocb = &file->iocb;
+	if (io_submit(es->aio_st.aio_ctx, 1, &iocb)==1) {
+		return true;
+	}
+	if (errno != EAGAIN) {
+		return false;
+	}
+	//too many operations are in flight, do this one at once.
+	ssize_t got;
+	if (iocb->aio_lio_opcode == IOCB_CMD_PWRITE) {
+		got = pwrite(iocb->aio_fildes, (void *)(uintptr_t)iocb->aio_buf, iocb->aio_nbytes, iocb->aio_offset);
+	} else {
+		got = pread(iocb->aio_fildes, (void *)(uintptr_t)iocb->aio_buf, iocb->aio_nbytes, iocb->aio_offset);
+	}
+	kgl_selector_module.next(file->st.base.selector, file->st.data, file->st.e[OP_READ].result, file->st.e[OP_READ].arg, kasync_file_adjust_result(file, (int)got));
+	return true;
+}
+#endif
 bool epoll_selector_aio_write(kasync_file *file, result_callback result,const char *buf, int length, void *arg)
 {
 	kepoll_selector *es = (kepoll_selector *)file->st.base.selector->ctx;
@@ -450,10 +471,7 @@ bool epoll_selector_aio_write(kasync_file *file, result_callback result,const ch
 	iocb->aio_flags = IOCB_FLAG_RESFD;
 	iocb->aio_resfd = es->aio_st.st.fd;
 	iocb->aio_data = (__u64)(uintptr_t)file;
-	if (io_submit(es->aio_st.aio_ctx, 1, &iocb)==1) {
-		return true;
-	}
-	return false;
+	return epoll_selector_aio_submit(es, file);
 #endif
 }
 bool epoll_selector_aio_read(kasync_file *file, result_callback result, char *buf, int length, void *arg)
@@ -492,11 +510,7 @@ bool epoll_selector_aio_read(kasync_file *file, result_callback result, char *bu
 	iocb->aio_resfd = es->aio_st.st.fd;
 	iocb->aio_data = (__u64)(uintptr_t)file;
 	//printf("read set iocb=[%p]\n",iocb);
-	if (io_submit(es->aio_st.aio_ctx, 1, &iocb)==1) {
-		return true;
-	}
-	perror("io_submit read");
-	return false;
+	return epoll_selector_aio_submit(es, file);
 #endif
 }
 static kselector_module epoll_selector_module = {
-- 
2.43.0


From a15d757ca32306f0ab669132f18bad3e78718875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 53/61] fix: a TLS context must not keep its certificate after
 it is freed

---
 src/kgl_ssl.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 70f67e2..4b1a453 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -631,14 +631,7 @@ int kgl_ssl_certificate(SSL_CTX* ctx, const kgl_ref_str_t* cert, const kgl_ref_s
 		sk_X509_pop_free(chain, X509_free);
 		return -1;
 	}
-	/*
-	 * Note that x509 is not freed here, but will be instead freed in
-	 * ngx_ssl_cleanup_ctx().  This is because we need to preserve all
-	 * certificates to be able to iterate all of them through exdata
-	 * (ngx_ssl_certificate_index, ngx_ssl_next_certificate_index),
-	 * while OpenSSL can free a certificate if it is replaced with another
-	 * certificate of the same type.
-	 */
+	X509_free(x509);
 
 #ifdef SSL_CTX_set0_chain
 	if (SSL_CTX_set0_chain(ctx, chain) == 0) {
-- 
2.43.0


From be4993f39ad33407959ba93c92cd77357a1c18c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:33 +0000
Subject: [PATCH 54/61] fix: the default protocol must be advertised over NPN
 too

---
 src/kgl_ssl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 4b1a453..61e7aa2 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -96,6 +96,8 @@ int kgl_ssl_npn_selected2(SSL* ssl, unsigned char** out, unsigned char* outlen,
 int kgl_ssl_npn_advertise(SSL* ssl, const unsigned char** out, unsigned int* outlen, void* arg) {
 	SSL_CTX* ctx = SSL_get_SSL_CTX(ssl);
 	void* ssl_ctx_data = SSL_CTX_get_ex_data(ctx, kangle_ssl_ctx_index);
+	*out = (const unsigned char*)KGL_HTTP_NPN_ADVERTISE;
+	*outlen = sizeof(KGL_HTTP_NPN_ADVERTISE) - 1;
 	ssl_npn(ssl, ssl_ctx_data, out, outlen);
 	return SSL_TLSEXT_ERR_OK;
 }
-- 
2.43.0


From 1341c7ada0d2462cf3e5ce1a8bfa472593950b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 55/61] fix: a server context whose certificate is in the key
 buffer must not crash

---
 src/kgl_ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kgl_ssl.c b/src/kgl_ssl.c
index 61e7aa2..5d8701f 100644
--- a/src/kgl_ssl.c
+++ b/src/kgl_ssl.c
@@ -750,6 +750,9 @@ SSL_CTX* kgl_ssl_ctx_new_server2(const kgl_ref_str_t* cert_buffer, const kgl_ref
 		fprintf(stderr, "cann't init_ctx\n");
 		return NULL;
 	}
+	if (!cert_buffer || *cert_buffer->data == '\0') {
+		cert_buffer = key_buffer;
+	}
 	if (kgl_ssl_certificate(ctx, cert_buffer, key_buffer, NULL) != 0) {
 		SSL_CTX_free(ctx);
 		return NULL;
-- 
2.43.0


From 0aa04f2325fcb54cafd0d0483dd90e709bed7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:23 +0000
Subject: [PATCH 56/61] fix: a clock adjustment must reach the loops of
 kasync_main

---
 src/kselector_manager.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index fc73353..b604946 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -39,6 +39,14 @@ struct kgl_selector_manager_callback_s
 	void *arg;
 	kgl_selector_manager_callback *next;
 };
+//the loops of kasync_main, which are not in kgl_selectors
+typedef struct kasync_main_loop_s
+{
+	kgl_list queue;
+	kselector *selector;
+} kasync_main_loop;
+static kgl_list main_loops;
+static kmutex main_loops_lock;
 static kgl_selector_manager_callback *on_ready_list = NULL;
 static kgl_selector_manager_callback *thread_init = NULL;
 extern void(*kgl_second_change_hook)();
@@ -191,6 +199,13 @@ void selector_manager_adjust_time(int64_t diff_msec)
 	for (int i = 0; i < kgl_selector_count; i++) {
 		kselector_adjust_time(kgl_selectors[i], diff_msec);
 	}
+	kgl_list *pos;
+	kmutex_lock(&main_loops_lock);
+	klist_foreach(pos, &main_loops) {
+		kasync_main_loop *loop = kgl_list_data(pos, kasync_main_loop, queue);
+		kselector_adjust_time(loop->selector, diff_msec);
+	}
+	kmutex_unlock(&main_loops_lock);
 }
 static kev_result kthread_flush_timer(KOPAQUE data, void *arg, int got)
 {
@@ -372,6 +387,8 @@ void kasync_init()
 	signal(SIGPIPE,SIG_IGN);
 #endif	
 	ksocket_startup();
+	klist_init(&main_loops);
+	kmutex_init(&main_loops_lock, NULL);
 	kselector_update_time();
 	pthread_key_create(&kgl_selector_key, NULL);
 	selector_module_create();
@@ -393,6 +410,11 @@ int kasync_main(kfiber_start_func main, void* arg, int argc)
 	args[0] = (void*)main;
 	args[1] = arg;
 	kselector_init(selector);
+	kasync_main_loop loop;
+	loop.selector = selector;
+	kmutex_lock(&main_loops_lock);
+	klist_append(&main_loops, &loop.queue);
+	kmutex_unlock(&main_loops_lock);
 	kfiber_create2(selector, kasync_fiber_main, (void*)args, argc, 0, NULL);
 	selector->utm = 1;
 	int tmo = SELECTOR_TMO_MSEC;
@@ -404,6 +426,9 @@ int kasync_main(kfiber_start_func main, void* arg, int argc)
 		}
 	}
 	int ret_val = selector->ret_val;
+	kmutex_lock(&main_loops_lock);
+	klist_remove(&loop.queue);
+	kmutex_unlock(&main_loops_lock);
 	kselector_exit(selector);
 	kselector_destroy(selector);
 	return ret_val;
-- 
2.43.0


From 5c320588fbe96de183ac6614ebceed690847e8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 57/61] fix: a clock step must be adjusted for once when
 several loops update the time

---
 include/kselector.h     |  1 +
 src/kselector.c         | 15 +++++++++++++--
 src/kselector_manager.c |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/kselector.h b/include/kselector.h
index 94d61d9..7bae0d9 100644
--- a/include/kselector.h
+++ b/include/kselector.h
@@ -132,6 +132,7 @@ KTHREAD_FUNCTION kselector_thread(void* param);
 INLINE bool kselector_is_same_thread(kselector* selector) {
 	return pthread_self() == selector->thread_id;
 }
+void kselector_init_time();
 void kselector_update_time();
 int kselector_check_timeout(kselector* selector, int event_number);
 int kselector_add_timer(kselector* selector, result_callback result, void* arg, int msec, KOPAQUE data);
diff --git a/src/kselector.c b/src/kselector.c
index 4a6c897..10ecf73 100644
--- a/src/kselector.c
+++ b/src/kselector.c
@@ -12,12 +12,15 @@
 #include "klog.h"
 #include "kmalloc.h"
 #include "kfiber.h"
+#include "ksync.h"
 pthread_key_t kgl_selector_key;
 kselector_module kgl_selector_module = { NULL };
 volatile int64_t kgl_current_msec = 0;
 volatile time_t kgl_current_sec = 0;
 time_t kgl_program_start_sec = 0;
 void (*kgl_second_change_hook)() = NULL;
+//the first loop and every loop of kasync_main update the time
+static kmutex kgl_time_lock;
 KTHREAD_FUNCTION kselector_thread(void *param);
 struct kselector_tick_s
 {
@@ -131,19 +134,27 @@ void kselector_adjust_time(kselector *selector, int64_t diff_time)
 		}
 	}
 }
+void kselector_init_time()
+{
+	kmutex_init(&kgl_time_lock, NULL);
+	kselector_update_time();
+}
 void kselector_update_time()
 {	
 	struct timeval   tv;
+	kmutex_lock(&kgl_time_lock);
 	gettimeofday(&tv, NULL);
 	//compare milliseconds: setting back by a second may end in the second the last update saw
 	int64_t diff_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000) - kgl_current_msec;
 	//before the adjustment is passed on: a loop that is adjusted must not compare with the old time
 	kgl_current_msec = (int64_t)tv.tv_sec * 1000 + (tv.tv_usec / 1000);
+	bool second_changed = (kgl_current_sec != tv.tv_sec);
+	kgl_current_sec = tv.tv_sec;
+	kmutex_unlock(&kgl_time_lock);
 	if (unlikely(diff_msec < 0)) {
 		selector_manager_adjust_time(diff_msec);
 	}
-	if (unlikely(kgl_current_sec != tv.tv_sec)) {
-		kgl_current_sec = tv.tv_sec;
+	if (unlikely(second_changed)) {
 		if (kgl_second_change_hook) {
 			kgl_second_change_hook();
 		}
diff --git a/src/kselector_manager.c b/src/kselector_manager.c
index b604946..4cef905 100644
--- a/src/kselector_manager.c
+++ b/src/kselector_manager.c
@@ -389,7 +389,7 @@ void kasync_init()
 	ksocket_startup();
 	klist_init(&main_loops);
 	kmutex_init(&main_loops_lock, NULL);
-	kselector_update_time();
+	kselector_init_time();
 	pthread_key_create(&kgl_selector_key, NULL);
 	selector_module_create();
 	kthread_init();
-- 
2.43.0


From ecefba52e8532a73b1d7cae8935f0c53e7ec47af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:18 +0000
Subject: [PATCH 58/61] fix: a connection that could not be registered with its
 loop must be registered by the next operation

---
 src/kepoll_selector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kepoll_selector.c b/src/kepoll_selector.c
index 1f06923..ab5dada 100644
--- a/src/kepoll_selector.c
+++ b/src/kepoll_selector.c
@@ -125,6 +125,8 @@ static INLINE bool epoll_add_event(int kdpfd,kselectable *st,uint16_t ev)
 	int ret = epoll_ctl(kdpfd, op, sockfd, &event);
 	if (ret !=0) {
 		klog(KLOG_ERR, "epoll ctl error fd=%d,errno=%d %s\n", sockfd,errno,strerror(errno));
+		//no event will come: the next operation has to add it again
+		st->base.st_flags = prev_ev;
 		return false;
 	}
 	return true;
-- 
2.43.0


From fa56d8b4f05bed7d8fd500fbf0a23d1753f1a951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:32 +0000
Subject: [PATCH 59/61] fix: an exit callback of a fiber created with a
 plain-thread handle must not crash

---
 include/kfiber_sync.h |  2 ++
 src/kfiber_sync.c     | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/include/kfiber_sync.h b/include/kfiber_sync.h
index e14e6b1..2046f47 100644
--- a/include/kfiber_sync.h
+++ b/include/kfiber_sync.h
@@ -35,6 +35,8 @@ struct _kfiber_cond_sync
 	kfiber_cond base;
 	kcond* sync_cond;
 	int got;
+	bool auto_reset;
+	kmutex lock;
 };
 
 INLINE int __kfiber_mutex_lock(kfiber* fiber, kfiber_mutex* mutex, int max) {
diff --git a/src/kfiber_sync.c b/src/kfiber_sync.c
index 88ba40a..097f016 100644
--- a/src/kfiber_sync.c
+++ b/src/kfiber_sync.c
@@ -237,18 +237,47 @@ int kfiber_cond_try_wait_ts(kfiber_cond* fc, int* got) {
 int kfiber_cond_notice_sync(kfiber_cond* fc, int got)
 {
 	kfiber_cond_sync* sync = (kfiber_cond_sync*)fc;
+	kmutex_lock(&sync->lock);
+	kfiber_waiter* waiter = fc->waiter;
+	if (waiter && sync->auto_reset) {
+		fc->waiter = waiter->next;
+		kmutex_unlock(&sync->lock);
+		kfiber_wakeup_waiter(waiter, got);
+		return 0;
+	}
+	fc->waiter = NULL;
 	sync->got = got;
 	kcond_notice(sync->sync_cond);
+	kmutex_unlock(&sync->lock);
+	kfiber_wakeup_all_waiter(waiter, got);
 	return 0;
 }
+//a callback can wait too, example exit callback of a fiber created by kfiber_create_sync
+kev_result kfiber_cond_wait_callback_sync(kfiber_cond* fc, KOPAQUE data, result_callback notice, void* arg)
+{
+	kfiber_cond_sync* sync = (kfiber_cond_sync*)fc;
+	kmutex_lock(&sync->lock);
+	if (kcond_try_wait(sync->sync_cond, 0)) {
+		int got = sync->got;
+		kmutex_unlock(&sync->lock);
+		kgl_selector_module.next(kgl_get_tls_selector(), data, notice, arg, got);
+		return kev_ok;
+	}
+	kfiber_add_ev_waiter(&fc->waiter, kgl_get_tls_selector(), data, notice, arg);
+	kmutex_unlock(&sync->lock);
+	return kev_ok;
+}
 int kfiber_cond_wait_sync(kfiber_cond* fc, int *got)
 {
 	assert(kgl_get_tls_selector() == NULL);
 	kfiber_cond_sync* sync = (kfiber_cond_sync*)fc;
 	kcond_wait(sync->sync_cond);
+	//fc may be destroyed after return, so the notice must have left it
+	kmutex_lock(&sync->lock);
 	if (got) {
 		*got = sync->got;
 	}
+	kmutex_unlock(&sync->lock);
 	return 0;
 }
 int kfiber_cond_try_wait_sync(kfiber_cond* fc, int* got) {
@@ -257,9 +286,11 @@ int kfiber_cond_try_wait_sync(kfiber_cond* fc, int* got) {
 	if (!kcond_try_wait(sync->sync_cond, 0)) {
 		return -1;
 	}
+	kmutex_lock(&sync->lock);
 	if (got) {
 		*got = sync->got;
 	}
+	kmutex_unlock(&sync->lock);
 	return 0;
 }
 int kfiber_cond_wait(kfiber_cond* fc, int *got)
@@ -306,6 +337,7 @@ void kfiber_cond_destroy_sync(kfiber_cond* fc)
 {
 	assert(fc->waiter == NULL);
 	kcond_destroy(((kfiber_cond_sync*)fc)->sync_cond);
+	kmutex_destroy(&((kfiber_cond_sync*)fc)->lock);
 	xfree(fc);
 }
 static kfiber_cond_function kfiber_cond_single_thread_auto_reset = {
@@ -340,7 +372,7 @@ static kfiber_cond_function kfiber_cond_thread_sync = {
 	kfiber_cond_notice_sync,
 	kfiber_cond_wait_sync,
 	kfiber_cond_try_wait_sync,
-	NULL,
+	kfiber_cond_wait_callback_sync,
 	kfiber_cond_destroy_sync
 };
 kfiber_cond* kfiber_cond_init(bool auto_reset)
@@ -370,6 +402,8 @@ kfiber_cond* kfiber_cond_init_sync(bool auto_reset)
 {
 	kfiber_cond_sync* fc = (kfiber_cond_sync*)xmemory_newz(sizeof(kfiber_cond_sync));
 	fc->sync_cond = kcond_init(auto_reset);
+	fc->auto_reset = auto_reset;
+	kmutex_init(&fc->lock, NULL);
 	fc->base.f = &kfiber_cond_thread_sync;
 	return (kfiber_cond*)fc;
 }
-- 
2.43.0


From f73b44323e15ba1dd2ba0706bb95e8c277b690d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:35 +0000
Subject: [PATCH 60/61] fix: a failed write turn must not leave the connection
 marked ready

---
 src/kselectable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kselectable.c b/src/kselectable.c
index f5d8f41..07812bd 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -489,6 +489,7 @@ kev_result selectable_write_event(kselectable* st)
 #endif
 	KBIT_CLR(st->base.st_flags, STF_WRITE | STF_RDHUP);
 	if (KBIT_TEST(st->base.st_flags, STF_ERR) > 0) {
+		KBIT_CLR(st->base.st_flags, STF_WREADY2);
 		return st->e[OP_WRITE].result(st->data, st->e[OP_WRITE].arg, -1);
 	}
 #ifdef ENABLE_KSSL_BIO
-- 
2.43.0


From cd88a7e9a4d5162af372a0f8e4000e4942adc03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:37 +0000
Subject: [PATCH 61/61] fix: a read or write repeated after a TLS failure must
 complete

---
 src/kselectable.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/kselectable.c b/src/kselectable.c
index 07812bd..c6b342f 100644
--- a/src/kselectable.c
+++ b/src/kselectable.c
@@ -385,9 +385,9 @@ static inline kev_result selectable_event_write(kselectable* st, result_callback
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
-		KBIT_CLR(st->base.st_flags, STF_WREADY);
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_WRITE) {
+			KBIT_CLR(st->base.st_flags, STF_WREADY);
 #ifdef ENABLE_KSSL_BIO
 			return selectable_ssl_write(st, result, buffer, arg);
 #else
@@ -439,15 +439,13 @@ kev_result selectable_event_read(kselectable* st, result_callback result, buffer
 #ifdef KSOCKET_SSL
 	if (selectable_is_ssl_handshake(st)) {
 		kassert(st->ssl);
-#ifndef ENABLE_KSSL_BIO
-		//with ssl bio the socket may be readable, although there is no complete record.
-		KBIT_CLR(st->base.st_flags, STF_RREADY);
-#endif
 		int err = SSL_get_error(st->ssl->ssl, got);
 		if (errno == EAGAIN || err == SSL_ERROR_WANT_READ) {
 #ifdef ENABLE_KSSL_BIO
+			//with ssl bio the socket may be readable, although there is no complete record.
 			return selectable_ssl_read(st, result, buffer, arg);
 #else
+			KBIT_CLR(st->base.st_flags, STF_RREADY);
 			return kgl_selector_module.read(st->base.selector, st, result, buffer, arg);
 #endif
 		}
-- 
2.43.0

