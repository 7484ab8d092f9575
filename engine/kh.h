// Common harness helpers: boot the library under the deterministic scheduler.
#pragma once
#include "kfiber.h"
#include "kfiber_sync.h"
#include "kselector_manager.h"
#include "kasync_worker.h"
#include "kasync_file.h"
#include "kthread.h"
#include "kserver.h"
#include "kudp.h"
#include "kaddr.h"
#include "klib.h"
#include "krbtree.h"
#include "kbuf.h"
#include "klog.h"
#undef min
#undef max
#include "pbt.h"
#include "ds.h"
#include "io.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <algorithm>

namespace kh {
inline kev_result run_fn_cb(KOPAQUE, void *arg, int) {
	std::function<void()> *f = (std::function<void()> *)arg;
	(*f)();
	delete f;
	return kev_ok;
}
inline int run_fiber_fn(void *arg, int) {
	std::function<int()> *f = (std::function<int()> *)arg;
	int r = (*f)();
	delete f;
	return r;
}
inline void quiet_log(int, const char *, va_list) {}

// Start nsel selector threads (power of two); the caller is the scheduler's driver.
inline void boot(int nsel, const ds::Config &c, bool thread_timer = false, bool aio = false) {
	io::fake_aio = !aio;
	ds::start(c);
	kasync_init();
	klog_init(quiet_log);
	selector_manager_init(nsel, thread_timer);
	selector_manager_start(NULL, true);
	ds::origin();
}
// run fn on selector i's thread, on its main fiber
inline void post(int i, std::function<void()> fn) {
	kgl_selector_module.next(get_selector_by_index(i), NULL, run_fn_cb, new std::function<void()>(std::move(fn)), 0);
}
// run fn on a new fiber of selector i (detached)
inline void fiber(int i, std::function<int()> fn, int stk = 0) {
	if (kfiber_create2(get_selector_by_index(i), run_fiber_fn, new std::function<int()>(std::move(fn)), 0, stk, NULL) != 0) pbt::fail("kfiber_create2 failed");
}
inline std::string ll(long long v) { return std::to_string(v); }
} // namespace kh
