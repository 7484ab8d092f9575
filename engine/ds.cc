#include "ds.h"
#include "pbt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <string>
#include <vector>

namespace ds {
enum State { RUNNABLE, MUTEX, COND, EPOLL, SLEEP, JOIN, PRED, SIGW, DONE };
static const char *state_name[] = {"runnable", "mutex", "cond", "epoll", "sleep", "join", "pred", "sigwait", "done"};
struct Thread {
	int id;
	State st = RUNNABLE;
	const void *obj = nullptr;
	int epfd = -1;
	int64_t deadline = -1; // virtual monotonic us
	bool timed_out = false;
	const std::function<bool()> *pred = nullptr;
	int go = 0; // futex
	pthread_t pt{};
	bool pt_set = false;
	int64_t prio = 0;
	bool sig_blocked = false;
	int sig_pending = 0;
	void *(*fn)(void *) = nullptr;
	void *arg = nullptr;
};
static bool g_active, g_vtime;
static Config cfg;
static pbt::Rng *rng;
static std::vector<Thread *> th;
static __thread Thread *self;
static int64_t mono;              // us
static int64_t wall_off = 1700000000ll * 1000000;
static uint64_t n_steps, n_switch;
static int64_t countdown = INT64_MAX, countdown_set;
static std::vector<uint64_t> change_points;
static size_t next_change;
static int64_t low_prio = -1;
static int fail_create_at;
static int n_create_failed;
static int n_created;

static int futex(int *a, int op, int v) { return (int)syscall(SYS_futex, a, op, v, NULL, NULL, 0); }
static void wait_go(Thread *t) {
	while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0) futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
	__atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void give(Thread *t) {
	__atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
	futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}
template <class F> static F real(const char *name, const char *ver = nullptr) {
	void *p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
	if (!p) p = dlsym(RTLD_NEXT, name);
	return (F)p;
}
#define REAL(name) (r_##name ? r_##name : (r_##name = real<decltype(r_##name)>(#name)))
static int (*r_pthread_mutex_lock)(pthread_mutex_t *);
static int (*r_pthread_mutex_trylock)(pthread_mutex_t *);
static int (*r_pthread_mutex_unlock)(pthread_mutex_t *);
static int (*r_pthread_cond_wait)(pthread_cond_t *, pthread_mutex_t *);
static int (*r_pthread_cond_timedwait)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
static int (*r_pthread_cond_signal)(pthread_cond_t *);
static int (*r_pthread_cond_broadcast)(pthread_cond_t *);
static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_pthread_join)(pthread_t, void **);
static int (*r_pthread_kill)(pthread_t, int);
static int (*r_sigwait)(const sigset_t *, int *);
static int (*r_pthread_sigmask)(int, const sigset_t *, sigset_t *);
static int (*r_epoll_wait)(int, struct epoll_event *, int, int);
static int (*r_gettimeofday)(struct timeval *, void *);
static time_t (*r_time)(time_t *);
static int (*r_usleep)(useconds_t);
static unsigned (*r_sleep)(unsigned);
static int (*r_nanosleep)(const struct timespec *, struct timespec *);

// Which 8-byte words have been touched by more than one thread. Exact (no
// collisions), so a replay decides the same whatever the addresses are.
struct Word { uintptr_t key; int owner; };
static Word *words;
static size_t n_words, cap_words;
static bool g_shared;
static int64_t idle_left;
static uint64_t n_idle;
enum { MANY = -1, IDLE_MAX = 60000 };
static Word *word_slot(Word *w, size_t cap, uintptr_t k) {
	size_t i = (size_t)((k * 0x9E3779B97F4A7C15ull) >> 20) & (cap - 1);
	while (w[i].key && w[i].key != k) i = (i + 1) & (cap - 1);
	return &w[i];
}
static Word *new_words(size_t cap) {
	void *p = mmap(NULL, cap * sizeof(Word), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	return p == MAP_FAILED ? nullptr : (Word *)p;
}
static bool is_shared(uintptr_t a) {
	Word *w = word_slot(words, cap_words, a >> 3);
	if (!w->key) {
		w->key = a >> 3;
		w->owner = self->id;
		if (++n_words * 2 > cap_words) {
			Word *n = new_words(cap_words * 2);
			if (!n) pbt::discard("memory");
			for (size_t i = 0; i < cap_words; i++)
				if (words[i].key) *word_slot(n, cap_words * 2, words[i].key) = words[i];
			munmap(words, cap_words * sizeof(Word));
			words = n;
			cap_words *= 2;
		}
		return false;
	}
	if (w->owner == MANY) return true;
	if (w->owner == self->id) return false;
	w->owner = MANY;
	return true;
}
static void reset_countdown() {
	idle_left = IDLE_MAX;
	int64_t c = cfg.max_slice;
	if (cfg.mode == 1) {
		// geometric-ish
		c = 1 + (int64_t)rng->below(cfg.rate * 2);
		if (c > cfg.max_slice) c = cfg.max_slice;
	} else if (cfg.mode == 2 && next_change < change_points.size()) {
		uint64_t d = change_points[next_change] > n_steps ? change_points[next_change] - n_steps : 1;
		if ((int64_t)d < c) c = (int64_t)d;
	}
	countdown = countdown_set = c;
}
static void account() {
	n_steps += (uint64_t)(countdown_set - countdown);
	countdown_set = countdown;
	if (n_steps > cfg.max_steps) pbt::fail("livelock: no progress after %llu steps\n%s", (unsigned long long)n_steps, dump().c_str());
}
std::string dump() {
	std::string s;
	for (auto t : th) {
		char b[128];
		snprintf(b, sizeof b, "  thread %d: %s obj=%p deadline=%lld\n", t->id, state_name[t->st], t->obj, (long long)t->deadline);
		s += b;
	}
	return s;
}
static bool ep_ready(int fd) {
	struct pollfd p = {fd, POLLIN, 0};
	return ::poll(&p, 1, 0) > 0;
}
static int in_pred;
static Thread *pick() {
	for (;;) {
		static std::vector<Thread *> c;
		c.clear();
		bool any_ep = false;
		for (auto t : th) {
			switch (t->st) {
			case RUNNABLE: c.push_back(t); break;
			case PRED:
				in_pred++; // a predicate may call library code: no switching inside
				if ((*t->pred)()) c.push_back(t);
				in_pred--;
				break;
			case EPOLL:
				any_ep = true;
				if (ep_ready(t->epfd)) c.push_back(t);
				break;
			default: break;
			}
		}
		if (!c.empty()) {
			if (cfg.mode == 2) {
				Thread *b = c[0];
				for (auto t : c)
					if (t->prio > b->prio) b = t;
				return b;
			}
			return c.size() == 1 ? c[0] : c[rng->below((uint32_t)c.size())];
		}
		if (any_ep && cfg.grace_us > 0) {
			std::vector<struct pollfd> pf;
			for (auto t : th)
				if (t->st == EPOLL) pf.push_back({t->epfd, POLLIN, 0});
			struct timespec ts = {cfg.grace_us / 1000000, (cfg.grace_us % 1000000) * 1000};
			if (::ppoll(pf.data(), pf.size(), &ts, NULL) > 0) continue;
		}
		int64_t dl = -1;
		for (auto t : th)
			if (t->st != DONE && t->st != RUNNABLE && t->deadline >= 0 && (dl < 0 || t->deadline < dl)) dl = t->deadline;
		if (dl < 0) pbt::fail("deadlock: every thread is blocked\n%s", dump().c_str());
		if (dl > mono) mono = dl;
		if (cfg.late_us > 0) mono += rng->below((uint32_t)cfg.late_us);
		for (auto t : th)
			if (t->st != DONE && t->st != RUNNABLE && t->deadline >= 0 && t->deadline <= mono) {
				t->st = RUNNABLE;
				t->timed_out = true;
			}
	}
}
static void switch_to(Thread *n) {
	Thread *me = self;
	if (n->st != DONE) n->st = RUNNABLE;
	if (n == me) {
		reset_countdown();
		return;
	}
	n_switch++;
	reset_countdown();
	give(n);
	if (me->st != DONE) wait_go(me);
}
static void block(State st, const void *obj, int64_t deadline) {
	account();
	Thread *me = self;
	me->st = st;
	me->obj = obj;
	me->deadline = deadline;
	me->timed_out = false;
	switch_to(pick());
	me->deadline = -1;
	me->obj = nullptr;
}
void yield() {
	if (!g_active || !self || in_pred) return;
	account();
	self->st = RUNNABLE;
	switch_to(pick());
}
static void wake_obj(State st, const void *obj) {
	for (auto t : th)
		if (t->st == st && t->obj == obj) t->st = RUNNABLE;
}
static void expire() {
	if (in_pred) {
		account();
		reset_countdown();
		return;
	}
	if (!g_active || !self) {
		countdown = countdown_set = INT64_MAX;
		return;
	}
	account();
	if (cfg.mode == 2) {
		while (next_change < change_points.size() && change_points[next_change] <= n_steps) next_change++;
		self->prio = low_prio--;
	}
	self->st = RUNNABLE;
	int e = errno;
	switch_to(pick());
	errno = e;
}
static inline void point() {
	// a synchronisation call: in random mode an additional chance to switch
	if (cfg.mode == 1 && rng->below(4) == 0) {
		yield();
	} else if (cfg.mode == 2) {
		countdown--;
	}
}

void sys_point() {
	if (!g_active || !self || in_pred) return;
	int e = errno;
	point();
	errno = e;
}
bool active() { return g_active && self; }
int64_t now_us() { return mono + wall_off; }
int64_t mono_us() { return mono; }
void shift_clock(int64_t us) { wall_off += us; }
void advance_us(int64_t us) { mono += us; }
void virtual_time_only() { g_vtime = true; }
uint64_t steps() { return n_steps + (uint64_t)(countdown_set - countdown); }
uint64_t switches() { return n_switch; }
int self_id() { return self ? self->id : -1; }
int live_threads() {
	int n = 0;
	for (auto t : th) n += t->st != DONE;
	return n;
}
void fail_thread_create(int nth) { fail_create_at = nth; }
int thread_creates() { return n_created; }
int create_failures() { return n_create_failed; }

Config draw_config(bool threads) {
	Config c;
	uint32_t m = pbt::weighted({3, 4, 3});
	c.mode = threads ? (int)m : 0;
	static const uint32_t rates[] = {3000, 300, 60, 12};
	c.rate = rates[pbt::draw(4)];
	c.depth = 1 + pbt::draw(5);
	static const uint32_t hz[] = {100000, 20000, 4000};
	c.horizon = hz[pbt::draw(3)];
	c.seed = pbt::draw(0x7fffffff);
	static const int me[] = {0, 1, 2, 5};
	c.max_events = me[pbt::draw(4)];
	c.shuffle_events = pbt::chance(1, 2);
	static const int late[] = {0, 900, 3000, 20000};
	c.late_us = late[pbt::draw(4)];
	if (c.mode && pbt::chance(1, 2)) { // preempt only where threads meet: fewer steps, so more often
		static const uint32_t srates[] = {1000, 100, 20, 5}, shz[] = {10000, 2000, 400};
		c.shared = true;
		c.rate = srates[pbt::draw(4)];
		c.horizon = shz[pbt::draw(3)];
	}
	return c;
}
void dense(Config &c) {
	static const uint32_t rates[] = {60, 25, 10, 4}, hz[] = {600, 150, 40};
	if (!pbt::chance(3, 4)) return;
	c.rate = rates[pbt::draw(4)];
	c.horizon = hz[pbt::draw(3)];
	if (c.mode == 0) c.mode = 1 + (int)pbt::draw(2);
	c.shared = pbt::chance(2, 3);
	if (c.shared) {
		c.rate = 1 + c.rate / 3;
		c.horizon = c.horizon / 2;
	}
}
void origin() {
	account();
	for (auto &p : change_points) p += n_steps;
	reset_countdown();
}
void start(const Config &c) {
	cfg = c;
	if (c.shared && (words = new_words(cap_words = 1 << 16))) g_shared = true;
	if (rng) delete rng;
	rng = new pbt::Rng(c.seed);
	if (cfg.mode == 2) {
		for (uint32_t i = 0; i < cfg.depth; i++) change_points.push_back(1 + rng->below(cfg.horizon));
		std::sort(change_points.begin(), change_points.end());
	}
	Thread *t = new Thread;
	t->id = 0;
	t->prio = 0; // the driver has the lowest initial priority
	t->pt = pthread_self();
	t->pt_set = true;
	th.push_back(t);
	self = t;
	g_vtime = true;
	g_active = true;
	reset_countdown();
}
bool run_until(const std::function<bool()> &pred, int64_t virt_ms) {
	if (pred()) return true;
	Thread *me = self;
	int64_t end = mono + virt_ms * 1000;
	me->pred = &pred;
	block(PRED, nullptr, end);
	bool r = pred();
	me->pred = nullptr;
	return r;
}
void sleep_ms(int64_t ms) { block(SLEEP, nullptr, mono + ms * 1000); }

static void *trampoline(void *p) {
	Thread *t = (Thread *)p;
	self = t;
	wait_go(t);
	void *r = t->fn(t->arg);
	account();
	t->st = DONE;
	for (auto o : th)
		if (o->st == JOIN && o->obj == t) o->st = RUNNABLE;
	Thread *n = pick();
	switch_to(n);
	return r;
}
static Thread *find(pthread_t p) {
	Thread *r = nullptr;
	for (auto t : th)
		if (t->pt_set && pthread_equal(t->pt, p) && (t->st != DONE || !r)) r = t;
	return r;
}
struct SpawnArg { std::function<void()> fn; };
static void *spawn_main(void *p) {
	SpawnArg *a = (SpawnArg *)p;
	a->fn();
	delete a;
	return nullptr;
}
void spawn(std::function<void()> fn) {
	pthread_t id;
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED);
	int save = fail_create_at;
	fail_create_at = 0;
	if (pthread_create(&id, &at, spawn_main, new SpawnArg{std::move(fn)})) pbt::discard("pthread_create");
	n_created--;
	fail_create_at = save;
}
} // namespace ds
using namespace ds;
#define ON (g_active && self)

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
	if (!ON) return REAL(pthread_mutex_lock)(m);
	point();
	while (REAL(pthread_mutex_trylock)(m) == EBUSY) block(MUTEX, m, -1);
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
	int r = REAL(pthread_mutex_unlock)(m);
	if (!ON) return r;
	wake_obj(MUTEX, m);
	point();
	return r;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, int64_t dl) {
	Thread *me = self;
	REAL(pthread_mutex_unlock)(m);
	wake_obj(MUTEX, m);
	bool to = false;
	if (cfg.spurious && rng->below(4) == 0) {
		yield();
	} else {
		block(COND, c, dl);
		to = me->timed_out;
	}
	while (REAL(pthread_mutex_trylock)(m) == EBUSY) block(MUTEX, m, -1);
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (!ON) {
		if (!r_pthread_cond_wait) r_pthread_cond_wait = real<decltype(r_pthread_cond_wait)>("pthread_cond_wait", "GLIBC_2.3.2");
		return r_pthread_cond_wait(c, m);
	}
	return cond_wait(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	if (!ON) {
		if (!r_pthread_cond_timedwait) r_pthread_cond_timedwait = real<decltype(r_pthread_cond_timedwait)>("pthread_cond_timedwait", "GLIBC_2.3.2");
		return r_pthread_cond_timedwait(c, m, ts);
	}
	int64_t abs = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000 - wall_off;
	return cond_wait(c, m, abs < 0 ? 0 : abs);
}
int pthread_cond_signal(pthread_cond_t *c) {
	if (!ON) {
		if (!r_pthread_cond_signal) r_pthread_cond_signal = real<decltype(r_pthread_cond_signal)>("pthread_cond_signal", "GLIBC_2.3.2");
		return r_pthread_cond_signal(c);
	}
	std::vector<Thread *> w;
	for (auto t : th)
		if (t->st == COND && t->obj == c) w.push_back(t);
	if (!w.empty()) w[rng->below((uint32_t)w.size())]->st = RUNNABLE;
	point();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
	if (!ON) {
		if (!r_pthread_cond_broadcast) r_pthread_cond_broadcast = real<decltype(r_pthread_cond_broadcast)>("pthread_cond_broadcast", "GLIBC_2.3.2");
		return r_pthread_cond_broadcast(c);
	}
	wake_obj(COND, c);
	point();
	return 0;
}
int pthread_create(pthread_t *id, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
	if (!ON) return REAL(pthread_create)(id, at, fn, arg);
	if (fail_create_at > 0 && --fail_create_at == 0) {
		n_create_failed++;
		return EAGAIN;
	}
	Thread *t = new Thread;
	t->id = (int)th.size();
	t->fn = fn;
	t->arg = arg;
	t->prio = 1 + (int64_t)rng->below(1000);
	t->sig_blocked = self->sig_blocked;
	pthread_t pt;
	int r = REAL(pthread_create)(&pt, at, trampoline, t);
	if (r) {
		delete t;
		return r;
	}
	t->pt = pt;
	t->pt_set = true;
	*id = pt;
	th.push_back(t);
	n_created++;
	point();
	return 0;
}
int pthread_join(pthread_t p, void **ret) {
	if (!ON) return REAL(pthread_join)(p, ret);
	Thread *t = find(p);
	if (t) while (t->st != DONE) block(JOIN, t, -1);
	return REAL(pthread_join)(p, ret);
}
int pthread_kill(pthread_t p, int sig) {
	if (!ON || sig != SIGUSR2) return REAL(pthread_kill)(p, sig);
	Thread *t = find(p);
	if (!t || t->st == DONE) pbt::fail("signal %d sent to a thread that is not running (pthread_t %lx)", sig, (unsigned long)p);
	if (t->st == SIGW) t->st = RUNNABLE, t->sig_pending = 1;
	else if (t->sig_blocked) t->sig_pending = 1; // stays pending (standard signals do not queue)
	// unblocked: the process handler runs and the notification is gone
	point();
	return 0;
}
int sigwait(const sigset_t *set, int *sig) {
	if (!ON || !sigismember(set, SIGUSR2)) return REAL(sigwait)(set, sig);
	while (!self->sig_pending) block(SIGW, nullptr, -1);
	self->sig_pending = 0;
	*sig = SIGUSR2;
	return 0;
}
int pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
	if (ON && set) {
		bool has = sigismember(set, SIGUSR2);
		if (how == SIG_SETMASK) self->sig_blocked = has;
		else if (has) self->sig_blocked = how == SIG_BLOCK;
		if (!self->sig_blocked) self->sig_pending = 0;
		point();
	}
	return REAL(pthread_sigmask)(how, set, old);
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int tmo) {
	if (!ON) return REAL(epoll_wait)(ep, ev, n, g_vtime ? 0 : tmo);
	int lim = cfg.max_events > 0 && cfg.max_events < n ? cfg.max_events : n;
	int64_t dl = tmo < 0 ? -1 : mono + (int64_t)tmo * 1000;
	point();
	for (;;) {
		int r = REAL(epoll_wait)(ep, ev, lim, 0);
		if (r != 0) {
			if (r > 1 && cfg.shuffle_events)
				for (int i = r - 1; i > 0; i--) {
					int j = (int)rng->below((uint32_t)i + 1);
					struct epoll_event t = ev[i];
					ev[i] = ev[j];
					ev[j] = t;
				}
			return r;
		}
		if (tmo == 0) return 0;
		Thread *me = self;
		me->epfd = ep;
		block(EPOLL, nullptr, dl);
		if (me->timed_out) return REAL(epoll_wait)(ep, ev, lim, 0);
	}
}
int gettimeofday(struct timeval *tv, void *tz) {
	if (!g_vtime) return REAL(gettimeofday)(tv, tz);
	int64_t n = now_us();
	tv->tv_sec = n / 1000000;
	tv->tv_usec = n % 1000000;
	return 0;
}
time_t time(time_t *p) {
	if (!g_vtime) return REAL(time)(p);
	time_t n = (time_t)(now_us() / 1000000);
	if (p) *p = n;
	return n;
}
int usleep(useconds_t us) {
	if (ON) {
		block(SLEEP, nullptr, mono + us);
		return 0;
	}
	return REAL(usleep)(us);
}
unsigned sleep(unsigned s) {
	if (ON) {
		block(SLEEP, nullptr, mono + (int64_t)s * 1000000);
		return 0;
	}
	return REAL(sleep)(s);
}
int nanosleep(const struct timespec *a, struct timespec *b) {
	if (ON) {
		block(SLEEP, nullptr, mono + (int64_t)a->tv_sec * 1000000 + a->tv_nsec / 1000);
		return 0;
	}
	return REAL(nanosleep)(a, b);
}

// ---- preemption at memory accesses (outlined ASAN checks) ------------------
static inline void step(uintptr_t a) {
	if (__builtin_expect(g_shared, 0) && self && !is_shared(a)) {
		if (--idle_left <= 0) {
			idle_left = IDLE_MAX;
			if ((n_idle += IDLE_MAX) > cfg.max_steps) pbt::fail("livelock: no progress after %llu steps\n%s", (unsigned long long)n_idle, dump().c_str());
			expire();
		}
		return;
	}
	if (__builtin_expect(--countdown <= 0, 0)) expire();
}
#define SHADOW(a) (*(volatile signed char *)(((a) >> 3) + 0x7fff8000ull))
#define ACC(kind, sz)                                                                       \
	static void (*r_asan_##kind##sz)(uintptr_t);                                           \
	void __asan_##kind##sz(uintptr_t a) {                                                  \
		step(a);                                                                           \
		signed char s = SHADOW(a);                                                         \
		if (__builtin_expect(s != 0, 0) && ((sz) >= 8 || (signed char)((a & 7) + (sz) - 1) >= s)) { \
			if (!r_asan_##kind##sz) r_asan_##kind##sz = real<void (*)(uintptr_t)>("__asan_" #kind #sz); \
			r_asan_##kind##sz(a);                                                          \
		}                                                                                  \
		if ((sz) == 16 && SHADOW(a + 8) != 0) {                                            \
			if (!r_asan_##kind##sz) r_asan_##kind##sz = real<void (*)(uintptr_t)>("__asan_" #kind #sz); \
			r_asan_##kind##sz(a);                                                          \
		}                                                                                  \
	}
ACC(load, 1) ACC(load, 2) ACC(load, 4) ACC(load, 8) ACC(load, 16)
ACC(store, 1) ACC(store, 2) ACC(store, 4) ACC(store, 8) ACC(store, 16)
static void (*r_loadN)(uintptr_t, size_t);
static void (*r_storeN)(uintptr_t, size_t);
void __asan_loadN(uintptr_t a, size_t n) {
	step(a);
	if (!r_loadN) r_loadN = real<void (*)(uintptr_t, size_t)>("__asan_loadN");
	r_loadN(a, n);
}
void __asan_storeN(uintptr_t a, size_t n) {
	step(a);
	if (!r_storeN) r_storeN = real<void (*)(uintptr_t, size_t)>("__asan_storeN");
	r_storeN(a, n);
}
// same points, and atomics, in builds without the ASAN runtime (-fsanitize=thread)
#define TACC(n) \
	void __tsan_##n(void *a) { step((uintptr_t)a); }
#define TACCS(sz)                                                                                    \
	TACC(read##sz) TACC(write##sz) TACC(unaligned_read##sz) TACC(unaligned_write##sz) TACC(volatile_read##sz) \
	TACC(volatile_write##sz) TACC(unaligned_volatile_read##sz) TACC(unaligned_volatile_write##sz)
TACCS(1) TACCS(2) TACCS(4) TACCS(8) TACCS(16)
void __tsan_read_range(void *a, size_t) { step((uintptr_t)a); }
void __tsan_write_range(void *a, size_t) { step((uintptr_t)a); }
void __tsan_vptr_update(void **a, void *) { step((uintptr_t)a); }
void __tsan_vptr_read(void **a) { step((uintptr_t)a); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) { step((uintptr_t)&cfg); }
void __tsan_atomic_signal_fence(int) {}
#define TATOM(bits, T)                                                                               \
	T __tsan_atomic##bits##_load(const volatile T *a, int) { step((uintptr_t)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int) { step((uintptr_t)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { step((uintptr_t)a); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { step((uintptr_t)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { step((uintptr_t)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { step((uintptr_t)a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
TATOM(8, uint8_t) TATOM(16, uint16_t) TATOM(32, uint32_t) TATOM(64, uint64_t)
void __asan_handle_no_return() __attribute__((weak));
void __asan_handle_no_return() {}
}
