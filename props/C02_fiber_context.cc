// kv: variant=fast:0.6,std:0.4 norel=1
// Fiber contexts: stack contents, callee-saved registers, floating-point
// settings and the result of the suspending call survive every suspension.
#include "kh.h"
#include "shim.h"
#include <fenv.h>
using namespace pbt;

// calls fn(arg) with every callee-saved register holding a known value;
// returns a bit mask of the registers that were not preserved
extern "C" uint64_t kv_regs_call(void (*fn)(void *), void *arg, uint64_t pat);
asm(R"(
.text
.globl kv_regs_call
.type kv_regs_call,@function
kv_regs_call:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	pushq %rdx
	movq %rdx, %rbx
	leaq 1(%rbx), %rbp
	leaq 2(%rbx), %r12
	leaq 3(%rbx), %r13
	leaq 4(%rbx), %r14
	leaq 5(%rbx), %r15
	movq %rdi, %rax
	movq %rsi, %rdi
	call *%rax
	movq %rax, kv_last_rax(%rip)
	popq %rdx
	xorl %eax, %eax
	cmpq %rdx, %rbx
	je 1f
	orq $1, %rax
1:	addq $1, %rdx
	cmpq %rdx, %rbp
	je 1f
	orq $2, %rax
1:	addq $1, %rdx
	cmpq %rdx, %r12
	je 1f
	orq $4, %rax
1:	addq $1, %rdx
	cmpq %rdx, %r13
	je 1f
	orq $8, %rax
1:	addq $1, %rdx
	cmpq %rdx, %r14
	je 1f
	orq $16, %rax
1:	addq $1, %rdx
	cmpq %rdx, %r15
	je 1f
	orq $32, %rax
1:	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size kv_regs_call, .-kv_regs_call
.section .note.GNU-stack,"",@progbits
.text
)");

enum { SLEEP, CHILD, COND, MUTEX, CHAN, THREAD, CREATE, NKIND };
struct Op { int kind, a; };
struct Fib {
	int sel, stk, depth, mode, lenarg;
	std::vector<Op> ops;
};
extern "C" { uint64_t kv_last_rax; }
static const int round_modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
// the bare context switch, with nothing in between that saves registers
static uint64_t bare_bad;
static int bare_rounds, bare_left;
static uint64_t bare_pat;
static int bare_rm;
static void bare_entry(transfer_t t) {
	alignas(16) volatile char probe[16];
	if ((uintptr_t)probe & 15) bare_bad |= 1u << 20;
	void *back = t.fctx;
	while (bare_left-- > 0) {
		fesetround(round_modes[(bare_rm + 1) & 3]);
		bare_bad |= kv_regs_call((void (*)(void *))jump_fcontext, back, bare_pat * 77 + 5) << 8;
		back = (void *)kv_last_rax;
		if (fegetround() != round_modes[(bare_rm + 1) & 3]) bare_bad |= 1u << 21;
	}
	for (;;) jump_fcontext(back, NULL);
}
static void bare_switch(uint64_t pat, int rounds, int size) {
	std::vector<char> stk(size);
	bare_left = rounds, bare_pat = pat, bare_rm = (int)(pat & 3);
	fcontext_t c = make_fcontext(stk.data() + size - pat % 64, size - 64, bare_entry);
	fesetround(round_modes[bare_rm]);
	for (int i = 0; i < rounds; i++) {
		bare_bad |= kv_regs_call((void (*)(void *))jump_fcontext, c, pat + i);
		c = (fcontext_t)kv_last_rax;
		if (fegetround() != round_modes[bare_rm]) bare_bad |= 1u << 22;
	}
	fesetround(FE_TONEAREST);
	CHECK(bare_bad == 0, "a bare context switch does not preserve its caller's state (mask %llx)", (unsigned long long)bare_bad);
}
static std::vector<Fib> F;
static int fibers_left, deepest, susp;
static std::vector<kfiber_mutex *> mux; // one per selector
static std::vector<kfiber_chan *> chans;

struct Act { Op o; int sel, id; };
static int child_body(void *arg, int len) {
	volatile char b[700];
	for (int i = 0; i < 700; i++) b[i] = (char)(len + i);
	fesetround(round_modes[len & 3]);
	if (len & 4) kfiber_msleep(len & 127);
	for (int i = 0; i < 700; i++) CHECK(b[i] == (char)(len + i), "a child's stack changed");
	CHECK(fegetround() == round_modes[len & 3], "a child's rounding mode changed");
	return len * 3 + (int)(intptr_t)arg;
}
static int thr_body(void *arg, int len) { return len ^ (int)(intptr_t)arg; }
static int next_val = 1000;
// runs below kv_regs_call; must behave normally although registers hold patterns
static void suspend(void *p) {
	Act *a = (Act *)p;
	int v = a->o.a, got = -1, id = next_val++;
	susp++;
	switch (a->o.kind) {
	case SLEEP: kfiber_msleep(v); break;
	case CREATE: { // a nested fiber runs at once on top of this one
		kfiber *h = NULL;
		CHECK(kfiber_create(child_body, (void *)(intptr_t)id, v, 4096 * (v & 3), &h) == 0, "create failed");
		CHECK(kfiber_join(h, &got) == 0 && got == v * 3 + id, "join of a nested fiber gave %d, expected %d", got, v * 3 + id);
		break;
	}
	case CHILD: { // a fiber on another loop
		kfiber *h = NULL;
		CHECK(kfiber_create2(get_selector_by_index(a->sel + 1), child_body, (void *)(intptr_t)id, v, 0, &h) == 0, "create failed");
		CHECK(kfiber_join(h, &got) == 0 && got == v * 3 + id, "join gave %d, expected %d", got, v * 3 + id);
		break;
	}
	case COND: {
		kfiber_cond *c = kfiber_cond_init_ts(true);
		kh::fiber(a->sel + v, [c, v, id] {
			if (v & 1) kfiber_msleep(v);
			sh_cond_notice(c, id);
			return 0;
		});
		kfiber_msleep(v & 2 ? 1 : 0);
		bool was = c->ev > 0 || (int)get_selector_by_index(a->sel + v)->sid != a->sel;
		sh_cond_wait(c, &got);
		if (!was) CHECK(got == id, "condition wait gave %d, expected %d", got, id);
		kfiber_msleep(1);
		sh_cond_release(c);
		break;
	}
	case MUTEX: {
		kfiber_mutex *m = mux[a->sel];
		CHECK(sh_mutex_lock(m) == 0, "lock failed");
		if (v & 1) kfiber_msleep(v);
		sh_mutex_unlock(m);
		break;
	}
	case CHAN: {
		kfiber_chan *ch = kfiber_chan_create();
		kh::fiber(a->sel, [ch, id] {
			CHECK(kfiber_chan_send(ch, (KOPAQUE)(intptr_t)id) == 0, "send failed");
			return 0;
		});
		KOPAQUE d = NULL;
		CHECK(kfiber_chan_recv(ch, &d, NULL) == 0 && (int)(intptr_t)d == id, "received %d, expected %d", (int)(intptr_t)d, id);
		kfiber_msleep(1);
		kfiber_chan_release(ch);
		break;
	}
	case THREAD:
		CHECK(kfiber_thread_call(thr_body, (void *)(intptr_t)id, v, &got) == 0, "thread call failed");
		CHECK(got == (v ^ id), "thread call gave %d, expected %d", got, v ^ id);
		break;
	}
}
struct Walk { Fib *f; int id; char *base; size_t next; int want; Rng rng{0}; };
static __attribute__((noinline)) double fp_probe(volatile double a, volatile double b) { return a / b; }
static double expect_div[4];

static __attribute__((noinline)) int level(Walk *w, int lv) {
	alignas(16) volatile uint64_t buf[48];
	CHECK(((uintptr_t)buf & 15) == 0, "misaligned stack: a 16-byte aligned local is at %p", (void *)buf);
	uint64_t seed = w->rng.next(), keep = seed * 7;
	volatile double d = (double)(seed & 0xffff) + 0.5;
	for (int i = 0; i < 48; i++) buf[i] = seed + (uint64_t)i * 0x9E3779B97F4A7C15ull;
	int used = (int)(w->base - (char *)buf), r = 1;
	if (used > deepest) deepest = used;
	auto act = [&] {
		if (w->next >= w->f->ops.size()) return;
		Act a{w->f->ops[w->next++], w->f->sel, w->id};
		int rm = (w->f->mode + (int)w->next) & 3;
		fesetround(round_modes[rm]);
		kfiber *me = kfiber_self2();
		uint64_t bad = kv_regs_call(suspend, &a, seed);
		CHECK(bad == 0, "callee-saved registers changed across a suspension (mask %llx)", (unsigned long long)bad);
		CHECK(fegetround() == round_modes[rm], "rounding mode changed across a suspension");
		CHECK(fp_probe(1.0, 3.0) == expect_div[rm], "arithmetic ignores the fiber's rounding mode");
		CHECK(kfiber_self2() == me, "another fiber resumed here");
	};
	bool here = w->rng.below(3) == 0;
	if (here && lv % 3 == 0) act();
	if (used < w->want) r += level(w, lv + 1);
	else
		for (size_t k = w->f->ops.size() / 2; w->next < w->f->ops.size() && k-- + 1 > 0;) act();
	if (!here && lv % 2) act();
	for (int i = 0; i < 48; i++) CHECK(buf[i] == seed + (uint64_t)i * 0x9E3779B97F4A7C15ull, "stack contents changed at depth %d of %d", used, w->want);
	CHECK(keep == seed * 7 && d == (double)(seed & 0xffff) + 0.5, "a local changed at depth %d", used);
	return r;
}

static void run() {
	int nsel = 1 << weighted({3, 2});
	ds::Config c = ds::draw_config(true);
	c.mode = chance(1, 3) ? c.mode : 0;
	int n = range(1, 5);
	logf("selectors=%d mode=%d", nsel, c.mode);
	F.resize(n);
	static const char *nm[] = {"sleep", "child", "cond", "mutex", "chan", "thread", "create"};
	for (int i = 0; i < n; i++) {
		Fib &f = F[i];
		f.sel = range(0, nsel - 1);
		f.stk = chance(1, 2) ? 0 : (int)weighted({1, 1}) ? 4096 * size_dist(2, 256) : range(8192, 40000);
		int real = f.stk / 4096 * 4096;
		if (real == 0) real = 65536;
		int max_use = real - 3072;
		f.depth = chance(1, 3) ? max_use : size_dist(0, max_use);
		f.mode = range(0, 3);
		f.lenarg = range(0, 9);
		int k = size_dist(1, 8);
		std::string s;
		for (int j = 0; j < k; j++) {
			Op o;
			o.kind = (int)weighted({3, 2, 3, 2, 2, 2, 3});
			o.a = range(0, 120);
			f.ops.push_back(o);
			s += std::string(" ") + nm[o.kind] + kh::ll(o.a);
		}
		logf(" fiber %d: sel=%d stk=%d depth=%d:%s", i, f.sel, f.stk, f.depth, s.c_str());
	}
	uint64_t seed = draw_seed();
	for (int i = 0; i < 4; i++) {
		fesetround(round_modes[i]);
		expect_div[i] = fp_probe(1.0, 3.0);
	}
	fesetround(FE_TONEAREST);
	bare_switch(seed, 1 + (int)(seed >> 60), 16384);
	kh::boot(nsel, c);
	for (int i = 0; i < nsel; i++) mux.push_back(sh_mutex_init2(1));
	fibers_left = n;
	for (int i = 0; i < n; i++) {
		Fib *f = &F[i];
		kh::fiber(f->sel, [f, i, seed] {
			Walk w;
			char here;
			w.f = f, w.id = i, w.next = 0, w.want = f->depth, w.rng = Rng(seed + i), w.base = &here;
			int rounds = 0;
			while (w.next < f->ops.size() && rounds++ < 20) level(&w, rounds);
			fibers_left--;
			return 0;
		}, f->stk);
	}
	bool main_ok = true;
	for (int round = 0; fibers_left && round < 60; round++) {
		bool done = ds::run_until([] { return fibers_left == 0; }, 5000);
		bool ran = false;
		for (int s = 0; s < nsel; s++) {
			ran = false;
			kh::post(s, [&] {
				main_ok = main_ok && fegetround() == FE_TONEAREST && kfiber_is_main();
				ran = true;
			});
			ds::run_until([&] { return ran; }, 60000);
			CHECK(ran, "an event loop stopped serving");
		}
		CHECK(main_ok, "a fiber's floating-point settings leaked into an event loop");
		if (done) break;
	}
	CHECK(fibers_left == 0, "%d fibers never finished", fibers_left);
	ds::run_until([] { return kfiber_get_count() == 0; }, 5000);
	CHECK(kfiber_get_count() == 0, "%d fibers left", kfiber_get_count());
	if (deepest > 32768) count("case using more than 32 KB of a stack");
	if (n > 1) count("case with several fibers");
	count("suspensions with live state checked", susp);
	if (susp > 1) nontrivial();
}

Property pbt::property = {
	"C02",
	"A case draws 1-5 fibers (stack size, recursion depth up to the stack size, suspending operations at random depths with patterned frames, registers and rounding modes); non-trivial = at least two suspensions with live state.",
	run, 1, 300000, 4000000, 35, 600, 600,
	{"a fiber may use its requested stack size rounded down to pages, minus 3 KB for library calls", "x86-64 System V calling convention"}};
