// kv: variant=std
// Memory pools, clean-ups and growable arrays against a shadow model.
#include "kh.h"
using namespace pbt;

struct Blk { char *p; size_t n; uint64_t pat; int kind; };
static std::vector<Blk> B;
static std::map<uintptr_t, size_t> iv; // live blocks by start
static Rng *rng_;
static uint64_t pat_at(uint64_t pat, size_t i) { return (pat >> ((i & 7) * 8)) ^ (i >> 3) * 31; }
static void paint(Blk &b) {
	for (size_t i = 0; i < b.n; i++) b.p[i] = (char)pat_at(b.pat, i);
}
static void verify(const Blk &b, const char *when) {
	for (size_t i = 0; i < b.n; i++) CHECK(b.p[i] == (char)pat_at(b.pat, i), "a block of %zu bytes changed at offset %zu (%s)", b.n, i, when);
}
static void claim(void *p, size_t n) {
	uintptr_t a = (uintptr_t)p;
	if (!n) return;
	auto it = iv.upper_bound(a + n - 1);
	if (it != iv.begin()) {
		--it;
		CHECK(it->first + it->second <= a, "a new block of %zu bytes overlaps a live block of %zu", n, it->second);
	}
	iv[a] = n;
}
static void unclaim(void *p) { iv.erase((uintptr_t)p); }

struct Cl { int id; int kind; Blk blk; };
static std::vector<int> ran;
static bool destroying;
static void on_clean(void *data, int kind) {
	Cl *c = (Cl *)data;
	CHECK(destroying, "a clean-up ran early");
	CHECK(c->kind == kind, "a clean-up got another clean-up's data");
	verify(c->blk, "during clean-up"); // pool memory is still there
	ran.push_back(c->id);
}
static void clean_a(void *d) { on_clean(d, 0); }
static void clean_b(void *d) { on_clean(d, 1); }
static void clean_c(void *d) { if (d) on_clean(d, 2); }
static kgl_cleanup_f cl_fn[] = {clean_a, clean_b, clean_c};

struct Arr { kgl_array_t *a, local; size_t es; std::string m; bool heap; char *at; };

static void run() {
	kgl_pagesize = chance(1, 2) ? 4096 : 0; // not set by the library itself
	Rng r(draw(0x7fffffff));
	rng_ = &r;
	B.clear(), iv.clear(), ran.clear();
	destroying = false;
	size_t psize;
	switch (weighted({3, 2, 1})) {
	case 0: psize = KGL_MIN_POOL_SIZE + size_dist(0, 3000); break;
	case 1: psize = 256 << draw(8); break;
	default: psize = KGL_DEFAULT_POOL_SIZE; break;
	}
	kgl_pool_t *pool = kgl_create_pool(psize);
	CHECK(pool, "create_pool");
	int ops = size_dist(1, 250);
	logf("pool of %zu, %d operations", psize, ops);
	std::vector<Cl *> cls;
	std::vector<std::unique_ptr<Cl>> own;
	std::vector<std::unique_ptr<Arr>> arrs;
	Cl *only_c = NULL;
	int resets = 0, frees = 0, grown = 0;
	auto size = [&]() -> size_t {
		switch (weighted({5, 2, 1})) {
		case 0: return size_dist(1, 200);
		case 1: {
			long b = (long)(chance(1, 2) ? psize - sizeof(kgl_pool_t) : 4095) + range(-9, 9);
			return b < 1 ? 1 : b;
		}
		default: return size_dist(1, 20000);
		}
	};
	auto add = [&](void *p, size_t n, int kind, size_t align) {
		CHECK(p, "allocation of %zu failed", n);
		CHECK(((uintptr_t)p & (align - 1)) == 0, "a block of %zu bytes at %p is not aligned to %zu", n, p, align);
		claim(p, n);
		Blk b = {(char *)p, n, r.next(), kind};
		paint(b);
		B.push_back(b);
	};
	auto finish = [&](bool reset) {
		for (auto &b : B) verify(b, "at the end");
		for (auto &a : arrs) CHECK(memcmp(a->a->elts, a->m.data(), a->m.size()) == 0, "an array's elements changed");
		destroying = true;
		ran.clear();
		if (reset) kgl_reset_pool(pool);
		else kgl_destroy_pool(pool);
		destroying = false;
		std::vector<int> want;
		for (auto it = cls.rbegin(); it != cls.rend(); ++it) want.push_back((*it)->id);
		CHECK(ran.size() == want.size(), "%zu clean-ups ran, %zu were registered", ran.size(), want.size());
		auto s = ran;
		std::sort(s.begin(), s.end());
		std::sort(want.begin(), want.end());
		CHECK(s == want, "the clean-ups that ran are not the registered ones");
		B.clear(), iv.clear(), cls.clear(), arrs.clear();
		only_c = NULL;
	};
	for (int o = 0; o < ops; o++) {
		switch (weighted({5, 4, 2, 2, 2, 5, 1, 1})) {
		case 0: {
			size_t n = size();
			logf(" palloc %zu", n);
			add(kgl_palloc(pool, n), n, n > pool->max, sizeof(unsigned long));
			break;
		}
		case 1: {
			size_t n = size();
			logf(" pnalloc %zu", n);
			add(kgl_pnalloc(pool, n), n, n > pool->max, 1);
			break;
		}
		case 2: {
			size_t n = size(), al = (size_t)8 << draw(10);
			logf(" pmemalign %zu to %zu", n, al);
			add(kgl_pmemalign(pool, n, al), n, 1, al);
			break;
		}
		case 3: { // free: only blocks taken outside the pool are given back
			if (B.empty()) break;
			size_t i = draw((uint32_t)B.size());
			Blk b = B[i];
			verify(b, "before free");
			logf(" pfree a block of %zu", b.n);
			bool ok = kgl_pfree(pool, b.p);
			if (b.kind == 1) CHECK(ok, "freeing a large block of %zu was refused", b.n);
			if (b.kind == 0 && b.n <= 64) CHECK(!ok, "freeing a small block of %zu was reported as done", b.n);
			if (ok) {
				B.erase(B.begin() + i);
				unclaim(b.p);
				frees++;
			}
			break;
		}
		case 4: {
			int k = (int)draw(3);
			if (k == 2 && chance(1, 2) && only_c) {
				CHECK(kgl_cleanup_get_data(kgl_cleanup_insert(pool, clean_c)) == only_c, "cleanup_insert did not return the present entry");
				break;
			}
			own.emplace_back(new Cl);
			Cl *c = own.back().get();
			c->id = (int)own.size();
			c->kind = k;
			size_t n = size_dist(1, 100);
			add(kgl_palloc(pool, n), n, 0, 1);
			c->blk = B.back();
			B.back().kind = 2; // stays: a clean-up looks at it
			B.pop_back();
			kgl_cleanup_t *h;
			if (k == 2 && !only_c) {
				h = kgl_cleanup_insert(pool, clean_c);
				CHECK(h && !kgl_cleanup_get_data(h), "a new clean-up has data");
				kgl_cleanup_set_data(h, c);
				only_c = c;
			} else if (k == 2) break;
			else h = kgl_cleanup_add(pool, cl_fn[k], c);
			CHECK(h && kgl_cleanup_get_data(h) == c, "clean-up data");
			claim(h, 3 * sizeof(void *));
			cls.push_back(c);
			break;
		}
		case 5: {
			if (arrs.empty() || chance(1, 6)) {
				arrs.emplace_back(new Arr);
				Arr *a = arrs.back().get();
				a->es = size_dist(1, 64);
				size_t n = size_dist(0, 40);
				logf(" array of %zu elements of %zu", n, a->es);
				if (chance(1, 2)) a->a = kgl_array_create(pool, n, a->es), a->heap = true, claim(a->a, sizeof(kgl_array_t));
				else a->a = kgl_array_init(&a->local, pool, n, a->es) ? &a->local : NULL, a->heap = false;
				CHECK(a->a && a->a->nelts == 0 && a->a->elts, "array creation");
				a->at = (char *)a->a->elts;
				claim(a->at, n * a->es);
				break;
			}
			Arr *a = arrs[draw((uint32_t)arrs.size())].get();
			int pushes = range(1, 12);
			for (int i = 0; i < pushes; i++) {
				size_t n = chance(1, 4) ? range(1, 30) : 1;
				char *e = (char *)(n == 1 && chance(2, 3) ? kgl_array_push(a->a) : kgl_array_push_n(a->a, n));
				CHECK(e, "push failed");
				char *elts = (char *)a->a->elts;
				size_t old = a->m.size(), tot = old + n * a->es;
				CHECK(a->a->nelts * a->es == tot, "the array has %zu elements, expected %zu", a->a->nelts, tot / a->es);
				CHECK(e == elts + old, "push returned the wrong element");
				CHECK(a->a->nalloc * a->es >= tot, "the array holds more than it allocated");
				unclaim(a->at); // (a moved array leaves its old place unused)
				a->at = elts;
				claim(elts, a->a->nalloc * a->es);
				if (a->a->nalloc * a->es > old) grown++;
				CHECK(memcmp(elts, a->m.data(), old) == 0, "growing the array changed its elements");
				for (size_t k = 0; k < n * a->es; k++) a->m += (char)r.next();
				memcpy(e, a->m.data() + old, n * a->es);
				logf(" push %zu", n);
			}
			break;
		}
		case 6: {
			if (arrs.empty() || !chance(1, 2)) break;
			size_t i = draw((uint32_t)arrs.size());
			Arr *a = arrs[i].get();
			CHECK(memcmp(a->a->elts, a->m.data(), a->m.size()) == 0, "an array's elements changed");
			unclaim(a->at);
			if (a->heap) unclaim(a->a);
			logf(" destroy array");
			kgl_array_t *t = a->a;
			if (a->heap) {
				kgl_array_destroy(t);
				arrs.erase(arrs.begin() + i);
			} else arrs.erase(arrs.begin() + i); // embedded arrays just end with the pool
			break;
		}
		default:
			if (chance(1, 4)) {
				logf(" reset");
				finish(true);
				resets++;
			} else {
				int n = size_dist(1, 300);
				bool al = chance(1, 2);
				kbuf *b = al ? new_pool_kbuf_align(pool, n) : new_pool_kbuf(pool, n);
				CHECK(b && b->used == n && b->flags == 0, "pool buffer header");
				claim(b, sizeof *b);
				add(b->data, n, 3, al ? kgl_aio_align_size : 1);
				CHECK(b->used == n && b->data == B.back().p, "the buffer's data overlaps its header");
			}
			break;
		}
		if (o % 16 == 0)
			for (auto &b : B) verify(b, "later");
	}
	finish(false);
	char *z = (char *)xmemory_newz(psize);
	for (size_t i = 0; i < psize; i++) CHECK(z[i] == 0, "xmemory_newz is not zero");
	free(z);
	if (resets) count("pools reset and reused");
	if (frees) count("blocks given back", frees);
	if (grown) count("array growth", grown);
	if (ops > 10) nontrivial();
}
Property pbt::property = {
	"C18",
	"A case draws a pool size and 1-250 operations (aligned/unaligned/over-aligned allocation around the small/large limit, free, clean-ups, arrays, buffers, reset); non-trivial = more than ten operations.",
	run, 50, 2000000, 40000000, 25, 400, 2000,
	{"single-threaded use"}};
