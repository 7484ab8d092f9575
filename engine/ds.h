// Deterministic scheduler: one real thread runs at a time; every mutex/cond/
// thread/signal/epoll/sleep call and (via ASAN's outlined access checks) every
// memory access of the code under test is a possible preemption point. The
// clock is virtual and advances only when no thread can run.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>

namespace ds {
struct Config {
	int mode = 0;            // 0 run-to-block, 1 random preemption, 2 priorities with change points
	uint32_t rate = 1000;    // mode 1: mean steps between preemptions
	uint32_t depth = 0;      // mode 2: number of priority change points
	uint32_t horizon = 10000;// mode 2: change points fall in the first `horizon` steps
	uint64_t seed = 0;
	bool shared = false;     // steps are only accesses to memory that two threads have touched
	bool spurious = false;   // spurious condition-variable wake-ups (POSIX allows them)
	int max_events = 0;      // >0: epoll_wait returns at most this many events
	bool shuffle_events = false;
	int late_us = 0;         // a timed wait may end up to this much after its deadline
	int grace_us = 0;        // real time to wait for the kernel before the clock advances
	int64_t max_slice = 20000;// every thread is preempted after at most this many steps
	uint64_t max_steps = 150000000;
};
Config draw_config(bool threads);     // from the choice tape
void dense(Config &c);                // for programs of few steps: preempt more often (drawn)
void origin();                        // the change points count from here (set-up is over)
void start(const Config &c);          // calling thread becomes the driver
bool active();
int64_t now_us();                     // virtual clock (also when only time is virtual)
void shift_clock(int64_t us);         // system clock adjustment: what gettimeofday/time report jumps
int64_t mono_us();                    // virtual time elapsed, unaffected by shift_clock
// Block the driver until pred() or for virt_ms of virtual time. True if pred.
bool run_until(const std::function<bool()> &pred, int64_t virt_ms);
void yield();                         // explicit preemption point
void sys_point();                     // a system call of the code under test: a possible preemption point
void sleep_ms(int64_t ms);            // block the calling harness thread
void spawn(std::function<void()> fn); // harness thread under the scheduler
uint64_t steps();
uint64_t switches();
int self_id();
int live_threads();                   // created and not finished (incl. driver)
void fail_thread_create(int nth);     // the nth next pthread_create fails with EAGAIN (1 = next)
int thread_creates();                 // successful pthread_create calls
int create_failures();               // injected failures that happened
// time only virtual, no scheduler (single-threaded harness loops)
void virtual_time_only();
void advance_us(int64_t us);
std::string dump();
}
