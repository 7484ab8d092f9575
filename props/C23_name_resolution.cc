// kv: variant=fast:0.6,std:0.4
// Name resolution cache: every lookup answered once, on its loop, with an answer
// the resolver gave for that name and kind, and not an outdated one.
#include "refs.h"
#include "kh.h"
#include <netdb.h>
#include <strings.h>
#include <arpa/inet.h>
using namespace pbt;

struct Resp { // one resolver call
	int id, key;
	bool ok;
	int64_t t_start, t_end = -1; // virtual us
	int seq_end = 0;             // order of completion
	bool freed = false;
	kgl_addr *a = nullptr;
	int held = 0; // references the harness holds
};
struct Lookup {
	int id, key;
	bool fiber_api;
	int64_t t_start = -1, t_end = -1;
	bool sync = false, done = false;
	int resp = -1, cf0 = 0; // -1 none; failed thread creations before
};
enum { LOOK, LOOKF, CACHE, SLEEP, FLUSH, NUMERIC, COUNT, LOOP };
struct Op { int k, key, a; bool b; };
static const char *names[] = {"alpha.test", "beta.test", "gamma.test"};
static std::vector<std::unique_ptr<Resp>> resps;
static std::vector<std::unique_ptr<Lookup>> looks;
static int seq, nkeys, outstanding, programs_left, in_flight, numeric_calls, held_long, shared, refreshed, stale_used;
static bool flood, flush_any, overload, no_thread;
static std::vector<std::pair<int64_t, int64_t>> flushes; // manual flushes: when, reach of the given time (us)
struct Plan { bool ok; int delay; };
static std::map<int, std::vector<Plan>> plans; // per key: what its calls do, cyclic
static std::map<int, int> calls;
static bool sticky[6]; // repeats its last plan instead of starting over
static std::map<int, std::vector<int64_t>> lookup_times;
static uint32_t case_bits;

static int key_of(const char *host, bool cname) {
	if (!strncasecmp(host, "flood", 5)) return 1000 + atoi(host + 5);
	for (int i = 0; i < 3; i++)
		if (!strcasecmp(host, names[i])) return i * 2 + cname;
	fail("the resolver was asked for an unknown name '%s'", host);
}
static int resolver(const char *host, const char *service, const struct addrinfo *hint, struct addrinfo **res) {
	if (hint && (hint->ai_flags & AI_NUMERICHOST)) {
		struct in_addr a;
		numeric_calls++;
		if (inet_pton(AF_INET, host, &a) != 1) return EAI_NONAME;
		struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof *ai + sizeof(struct sockaddr_in));
		ai->ai_family = AF_INET;
		ai->ai_addrlen = sizeof(struct sockaddr_in);
		ai->ai_addr = (struct sockaddr *)(ai + 1);
		((struct sockaddr_in *)ai->ai_addr)->sin_family = AF_INET;
		((struct sockaddr_in *)ai->ai_addr)->sin_addr = a;
		ai->ai_protocol = -1;
		*res = ai;
		return 0;
	}
	CHECK(service == NULL && hint, "resolver called with a service or without hints");
	bool cname = hint->ai_flags & AI_CANONNAME;
	CHECK(hint->ai_family == (cname ? PF_INET : PF_UNSPEC) && hint->ai_socktype == 0 && (hint->ai_flags & ~AI_CANONNAME) == 0, "resolver hints family=%d flags=%x", hint->ai_family, hint->ai_flags);
	Resp *r = new Resp;
	r->id = (int)resps.size();
	resps.emplace_back(r);
	r->key = key_of(host, cname);
	auto &p = plans[r->key];
	Plan pl = p.empty() ? Plan{true, 10} : p[r->key < 6 && sticky[r->key] ? std::min<size_t>(calls[r->key], p.size() - 1) : calls[r->key] % p.size()];
	calls[r->key]++;
	r->ok = pl.ok;
	r->t_start = ds::mono_us();
	if (++in_flight >= 4) overload = true; // all workers busy: others queue, and may time out there
	if (pl.delay) ds::sleep_ms(pl.delay);
	else ds::yield();
	in_flight--;
	r->t_end = ds::mono_us();
	r->seq_end = ++seq;
	if (!r->ok) {
		*res = NULL;
		return EAI_AGAIN;
	}
	struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof *ai + sizeof(struct sockaddr_in));
	ai->ai_family = AF_INET;
	ai->ai_addrlen = sizeof(struct sockaddr_in);
	ai->ai_addr = (struct sockaddr *)(ai + 1);
	((struct sockaddr_in *)ai->ai_addr)->sin_family = AF_INET;
	((struct sockaddr_in *)ai->ai_addr)->sin_addr.s_addr = htonl(0x0a000000 + r->id);
	ai->ai_protocol = r->id;
	*res = ai;
	return 0;
}
static void free_ai(struct addrinfo *ai) {
	if (ai->ai_protocol >= 0) {
		Resp *r = resps[ai->ai_protocol].get();
		CHECK(!r->freed, "answer %d was freed twice", r->id);
		CHECK(r->held == 0, "answer %d was freed while %d references to it are held", r->id, r->held);
		r->freed = true;
	}
	memset(ai, 0xee, sizeof *ai);
	free(ai);
}
static Resp *resp_of(kgl_addr *a, int key) {
	CHECK(a->addr, "an address result without addresses");
	int id = a->addr->ai_protocol;
	CHECK(id >= 0 && id < (int)resps.size(), "an address result that is no resolver answer (freed memory?)");
	Resp *r = resps[id].get();
	r->a = a;
	CHECK(!r->freed, "answer %d was delivered after it was freed", id);
	CHECK(r->key == key, "a lookup of %s (%s) got the answer for key %d", names[key / 2 % 3], key & 1 ? "cname" : "ip", r->key);
	sockaddr_i sa;
	memset(&sa, 0, sizeof sa);
	kgl_addr_build(a->addr, 4321, &sa);
	CHECK(sa.v4.sin_family == AF_INET && sa.v4.sin_addr.s_addr == htonl(0x0a000000 + id) && sa.v4.sin_port == htons(4321), "the address built from the answer differs");
	return r;
}
// may the entry of a key have been dropped in (from, to]?
static bool maybe_flushed(int key, int64_t from, int64_t answered, int64_t to) {
	for (auto &f : flushes)
		if (f.first >= from && f.first <= to) return true;
	// idle for (nearly) an hour
	int64_t prev = from;
	for (auto t : lookup_times[key]) {
		if (t > to) break;
		if (t <= answered) continue; // joined a call that was running: does not count as use
		if (t - prev > 3590ll * 1000000) return true;
		if (t > prev) prev = t;
	}
	return to - prev > 3590ll * 1000000;
}
static void judge(Lookup *l, kgl_addr *a) {
	CHECK(!l->done, "lookup %d was answered twice", l->id);
	l->done = true;
	l->t_end = ds::mono_us();
	outstanding--;
	if (a) {
		Resp *r = resp_of(a, l->key);
		l->resp = r->id;
		CHECK(r->seq_end, "the answer of lookup %d has not been returned by the resolver yet", l->id);
		// no success of a later call that replaced it before the lookup began (of overlapping calls either may stay)
		for (auto &q : resps)
			if (q->key == l->key && q->ok && q->t_start > r->t_end && q->t_end >= 0 && q->t_end < l->t_start)
				fail("lookup %d at %.3fs got answer %d (of %.3fs) although answer %d replaced it at %.3fs", l->id, l->t_start / 1e6, r->id, r->t_end / 1e6, q->id, q->t_end / 1e6);
		// not after ten failures in a row
		int fails = 0;
		bool later = false;
		for (auto &q : resps)
			if (q->key == l->key && q->t_start > r->t_end && q->t_end >= 0 && q->t_end < l->t_start) q->ok ? later = true : fails++;
		CHECK(later || fails < 10, "lookup %d got answer %d although the resolver failed %d times for its name since", l->id, r->id, fails);
		// not kept beyond an hour without use
		if (r->t_end < l->t_start - 3605ll * 1000000) {
			bool used = false;
			for (auto t : lookup_times[l->key]) used |= t > l->t_start - 3605ll * 1000000 && t < l->t_start;
			for (auto &q : resps) used |= q->key == l->key && q->t_end > l->t_start - 3605ll * 1000000 && q->t_end <= l->t_start;
			CHECK(used, "lookup %d got an answer that had not been used for over an hour", l->id);
		}
		if (l->t_start - r->t_end > 31ll * 1000000) stale_used++;
	} else if (!flood) {
		// failure: the resolver failed for this key and no usable success is remembered
		bool failed = false;
		for (auto &q : resps) failed |= q->key == l->key && !q->ok && q->seq_end;
		if (ds::create_failures() > l->cf0) return; // there was no thread to ask the resolver
		if (overload && l->t_end - l->t_start >= 10ll * 1000000) return; // gave up waiting for a worker
		CHECK(failed, "lookup %d failed although the resolver never failed for its name", l->id);
		for (auto &q : resps) {
			if (q->key != l->key || !q->ok || !q->seq_end || q->t_end >= l->t_start) continue;
			int fails = 0;
			for (auto &f : resps) fails += f->key == l->key && !f->ok && f->seq_end > q->seq_end;
			if (fails < 10 && !maybe_flushed(l->key, q->t_start, q->t_end, l->t_end))
				fail("lookup %d failed although answer %d is remembered and only %d later calls failed", l->id, q->id, fails);
		}
	}
}
static void hold(kgl_addr *a, Resp *r, int ms, int selidx) {
	// keep a reference for a while, use it, release it
	kgl_addr_refs(a);
	r->held++;
	held_long++;
	outstanding++;
	kh::fiber(selidx, [=] {
		kfiber_msleep(ms);
		CHECK(!r->freed && a->addr->ai_protocol == r->id, "answer %d was freed while referenced", r->id);
		r->held--;
		kgl_addr_release(a);
		outstanding--;
		return 0;
	});
}
struct CbArg { Lookup *l; int sel, hold_ms; };
static kev_result on_addr(void *arg, kgl_addr *a) {
	CbArg *c = (CbArg *)arg;
	CHECK(kgl_get_tls_selector() == get_selector_by_index(c->sel), "lookup %d was answered on another loop", c->l->id);
	outstanding++;
	judge(c->l, a);
	if (a && c->hold_ms >= 0) hold(a, resps[c->l->resp].get(), c->hold_ms, c->sel);
	outstanding--;
	delete c;
	return kev_ok;
}
static std::string spell(int key, int a) {
	std::string s = names[key / 2];
	if (a & 1) s[0] = (char)toupper(s[0]);
	if (a & 2) s[3] = (char)toupper(s[3]);
	return s;
}
// answered within the freshness time and not flushed: must come from the cache
static void before_lookup(Lookup *l) {
	l->t_start = ds::mono_us();
	lookup_times[l->key].push_back(l->t_start);
}
static bool must_be_cached(Lookup *l) {
	Resp *r = nullptr;
	for (auto &q : resps)
		if (q->key == l->key && q->seq_end && q->t_end < l->t_start && (!r || q->seq_end > r->seq_end)) r = q.get();
	return r && l->t_start - r->t_end < 29ll * 1000000 && !maybe_flushed(l->key, r->t_start, r->t_end, l->t_start);
}
static Lookup *new_lookup(int key, bool f) {
	Lookup *l = new Lookup;
	l->id = (int)looks.size();
	l->key = key;
	l->fiber_api = f;
	l->cf0 = ds::create_failures();
	for (auto &o : looks) // or joins one that just could not be started
		if (o->key == key && !o->done) l->cf0 = std::min(l->cf0, o->cf0);
	looks.emplace_back(l);
	outstanding++;
	return l;
}
static void holders() {
	static int freed;
	static struct addrinfo ai;
	io::freeaddrinfo_hook = [](struct addrinfo *a) {
		CHECK(a == &ai, "something else was freed");
		freed++;
	};
	kgl_addr *p = kgl_addr_new(&ai);
	refs::race({"address", [p] { kgl_addr_refs(p); }, [p] { kgl_addr_release(p); },
		[p] { CHECK(freed == 0 && p->addr == &ai, "an address was freed while held"); },
		[] { return freed == 1; }, p});
}
static void run() {
	if (chance(1, 12)) return holders();
	int nsel = 1 << weighted({3, 2, 1});
	ds::Config c = ds::draw_config(true);
	c.max_slice = 2000;
	bool long_times = chance(1, 12);
	flood = chance(1, 16);
	no_thread = chance(1, 6);
	int nf = range(1, 5);
	nkeys = range(1, 6);
	logf("selectors=%d mode=%d fibers=%d keys=%d%s%s", nsel, c.mode, nf, nkeys, flood ? " flood" : "", long_times ? " long" : "");
	for (int k = 0; k < nkeys; k++) {
		int n = range(1, 4);
		std::string s;
		sticky[k] = chance(1, 3);
		if (sticky[k]) s = " (last repeats)";
		int fp = pick(std::vector<int>{0, 1, 3});
		for (int i = 0; i < n; i++) {
			Plan p;
			p.ok = !chance(fp, 4);
			p.delay = pick(std::vector<int>{0, 1, 20, 150, 2000, 35000});
			plans[k].push_back(p);
			s += std::string(p.ok ? " ok" : " fail") + kh::ll(p.delay);
		}
		logf(" resolver %s/%s:%s", names[k / 2], k & 1 ? "cname" : "ip", s.c_str());
	}
	std::vector<std::vector<Op>> prog(nf);
	std::vector<int> where(nf);
	for (int i = 0; i < nf; i++) {
		where[i] = range(0, nsel - 1);
		int n = range(1, 9);
		std::string s;
		for (int k = 0; k < n; k++) {
			Op o;
			o.k = (int)weighted({12, 8, 4, 10, 2, 2, 2, 1});
			o.key = range(0, nkeys - 1);
			if (o.k == LOOKF) o.key &= ~1;
			o.a = 0;
			o.b = no_thread && chance(1, 3);
			switch (o.k) {
			case LOOK: o.a = (int)draw(4) + 4 * range(0, 3); break; // spelling, holding
			case SLEEP: o.a = long_times && chance(1, 3) ? pick(std::vector<int>{3599000, 3610000, 1800000}) : pick(std::vector<int>{0, 1, 50, 1000, 12000, 29500, 31500, 40000}); break;
			case FLUSH: o.a = pick(std::vector<int>{0, 36000000}); break; // seconds added to the current time
			case LOOKF: o.a = (int)draw(4); break;
			case LOOP: o.a = range(3, 24); break;
			}
			static const char *nm[] = {"look", "flook", "cache", "sleep", "flush", "numeric", "count", "loop"};
			s += std::string(o.b ? " nothread-" : " ") + nm[o.k] + kh::ll(o.key) + ":" + kh::ll(o.a);
			prog[i].push_back(o);
		}
		logf(" fiber %d on %d:%s", i, where[i], s.c_str());
	}
	io::getaddrinfo_hook = resolver;
	io::freeaddrinfo_hook = free_ai;
	kh::boot(nsel, c);
	programs_left = nf;
	for (int i = 0; i < nf; i++) {
		auto *p = &prog[i];
		int sel = where[i];
		kh::fiber(sel, [=] {
			for (auto &o : *p) switch (o.k) {
				case LOOP:
				case LOOK: for (int rep = o.k == LOOP ? o.a : 1; rep > 0; rep--) {
					if (o.k == LOOP) kfiber_msleep(31500);
					Lookup *l = new_lookup(o.key, false);
					before_lookup(l);
					bool cached = must_be_cached(l);
					std::string host = spell(o.key, o.k == LOOP ? 0 : o.a & 3);
					static const int hold_ms[] = {-1, 0, 200, 40000};
					if (no_thread && o.b) ds::fail_thread_create(1);
					kgl_find_addr(host.c_str(), o.key & 1 ? kgl_addr_cname : kgl_addr_ip, on_addr, new CbArg{l, sel, hold_ms[o.k == LOOP ? 0 : o.a >> 2]}, kgl_get_tls_selector());
					l->sync = l->done;
					if (no_thread) ds::fail_thread_create(0);
					if (!l->sync) shared++;
					CHECK(!cached || l->sync || !must_be_cached(l), "lookup %d of %s was not answered from the cache although its answer is younger than 30 s", l->id, host.c_str());
				}
				break;
				case LOOKF: {
					Lookup *l = new_lookup(o.key, true);
					before_lookup(l);
					kgl_addr *a = nullptr;
					if (no_thread && o.b) ds::fail_thread_create(1);
					int r = kfiber_net_getaddr(spell(o.key, o.a & 3).c_str(), &a);
					CHECK(kgl_get_tls_selector() == get_selector_by_index(sel), "the fiber resumed on another loop");
					CHECK((r == 0) == (a != nullptr), "lookup returned %d with %s address", r, a ? "an" : "no");
					judge(l, a);
					if (a) {
						Resp *q = resps[l->resp].get();
						q->held++;
						if (o.a & 1) kfiber_msleep(300);
						CHECK(!q->freed, "answer %d was freed while referenced", q->id);
						q->held--;
						kgl_addr_release(a);
					}
					break;
				}
				case CACHE: {
					kgl_addr *a;
					Lookup tmp;
					tmp.key = o.key;
					int64_t t0 = ds::mono_us();
					lookup_times[o.key].push_back(t0);
					tmp.t_start = t0;
					// fresh and the latest answer a success: must be there
					Resp *last = nullptr;
					for (auto &q : resps)
						if (q->key == o.key && q->seq_end && q->t_end < t0 && (!last || q->seq_end > last->seq_end)) last = q.get();
					bool want = last && last->ok && !maybe_flushed(o.key, last->t_start, last->t_end, t0);
					int seq0 = seq;
					for (auto &q : resps) // an answer of this very moment: either is right
						if (q->key == o.key && q->seq_end && q->t_end >= t0) want = false;
					a = kgl_find_cache_addr(spell(o.key, 0).c_str(), o.key & 1 ? kgl_addr_cname : kgl_addr_ip);
					if (a) {
						Resp *q = resp_of(a, o.key);
						q->held++;
						CHECK(!last || q->seq_end >= last->seq_end || !last->ok || last->t_start <= q->t_end, "cached answer %d is older than answer %d", q->id, last->id);
						kfiber_msleep(10);
						q->held--;
						kgl_addr_release(a);
					} else CHECK(!want || seq != seq0 || maybe_flushed(o.key, last->t_start, last->t_end, ds::mono_us()), "a cached answer younger than 30 s was not found");
					break;
				}
				case SLEEP: kfiber_msleep(o.a); break;
				case FLUSH:
					if (o.a) flush_any = true;
					if (o.a) flushes.push_back({ds::mono_us(), o.a}); // before and after: others may look in between
					kgl_flush_addr_cache(time(NULL) + o.a);
					if (o.a) flushes.push_back({ds::mono_us(), o.a});
					break;
				case NUMERIC: {
					kgl_addr *a = nullptr;
					int r = kfiber_net_getaddr("192.0.2.7", &a);
					CHECK(r == 0 && a && a->addr && ((struct sockaddr_in *)a->addr->ai_addr)->sin_addr.s_addr == inet_addr("192.0.2.7"), "numeric address");
					kgl_addr_release(a);
					break;
				}
				case COUNT: {
					int n = kgl_get_addr_cache_count();
					CHECK(n >= 0, "the cache holds %d entries", n);
					break;
				}
				}
			programs_left--;
			return 0;
		});
	}
	if (flood) kh::fiber(0, [=] {
		for (int i = 0; i < 90; i++) {
			Lookup *l = new_lookup(1000 + i, false);
			l->t_start = ds::mono_us();
			kgl_find_addr(("flood" + kh::ll(i)).c_str(), kgl_addr_ip, on_addr, new CbArg{l, 0, -1}, kgl_get_tls_selector());
		}
		return 0;
	});
	bool ok = ds::run_until([&] { return programs_left == 0 && outstanding == 0 && in_flight == 0; }, 100000000);
	std::string open;
	for (auto &l : looks)
		if (!l->done) open += " " + kh::ll(l->id);
	CHECK(ok, "unanswered lookups:%s (programs left %d, resolver calls running %d)\n%s", open.c_str(), programs_left, in_flight, ds::dump().c_str());
	for (auto &q : resps) if (q->key < 1000 && calls[q->key] > 1) refreshed++;
	// let refreshes that were only queued run
	int64_t settle = ds::mono_us() + 300000;
	ds::run_until([&] { return ds::mono_us() > settle && in_flight == 0; }, 400000);
	ds::run_until([] { return false; }, 300);
	// a stale answer must have made the next lookup ask the resolver again
	if (!flood && !no_thread)
		for (auto &l : looks) {
			if (!l->sync || l->key >= 1000) continue;
			bool asked = false;
			for (auto &q : resps) asked |= q->key == l->key && (q->t_start >= l->t_start - 32ll * 1000000 || q->t_end >= l->t_start - 32ll * 1000000);
			CHECK(asked, "lookup %d at %.3fs was answered from the cache; the resolver was not asked in the 32 s before nor afterwards", l->id, l->t_start / 1e6);
		}
	for (auto &q : resps) logf("call %d for key %d: %.6f - %.6f", q->id, q->key, q->t_start / 1e6, q->t_end / 1e6);
	for (auto &l : looks) logf("lookup %d of key %d: %.6f - %.6f answer %d%s", l->id, l->key, l->t_start / 1e6, l->t_end / 1e6, l->resp, l->sync ? " sync" : "");
	// without concurrent misses the resolver is not asked more often than the cache allows
	if (!flush_any && !long_times && !flood && !overload && !ds::create_failures())
		for (auto &a : resps)
			for (auto &b : resps)
				if (a->key == b->key && a->id < b->id) CHECK(b->t_start - a->t_start > 28ll * 1000000 || a->t_end < 0, "the resolver was asked for the same name twice within 28 s (calls %d and %d)", a->id, b->id);
	// drop everything: each answer is freed once
	kgl_flush_addr_cache(time(NULL) + 100000000);
	CHECK(kgl_get_addr_cache_count() == 0, "%d entries counted after flushing everything", kgl_get_addr_cache_count());
	for (auto &q : resps) CHECK(!q->ok || q->freed, "answer %d was never freed (%d references left, held %d)", q->id, q->a ? (int)q->a->refs : -1, q->held);
	int nul = 0;
	for (auto &l : looks) nul += l->resp < 0;
	if (ds::create_failures()) count("case with a resolver thread that could not be started");
	if (shared) count("case with a lookup that had to wait");
	if (refreshed) count("case with repeated resolver calls for a name");
	if (stale_used) count("case served from a stale answer");
	if (nul) count("case with a failed lookup");
	if (held_long) count("case holding references");
	if (flush_any) count("case with a flush");
	if (flood) count("case with a full resolver queue");
	if (nsel > 1) count("case across selectors");
	if (c.mode) count("case with preemption");
	if (looks.size() > 1) nontrivial();
}

Property pbt::property = {
	"C23",
	"A case draws 1-4 selectors, 1-6 keys (name, kind) with a generated resolver (success, failure, delays up to 35 s), 1-5 fibers with programs of callback lookups, fiber lookups, cache-only lookups, flushes and sleeps, optional flooding of the resolver queue, and a schedule. Non-trivial = more than one lookup.",
	run, 1, 40000, 2000000, 50, 600, 600,
	{"preemption points are the library's memory accesses and synchronisation calls (sequentially consistent memory)", "virtual clock", "getaddrinfo is replaced by the generated resolver"}};
