// Holders on several threads add and drop references of one counted object:
// it lives while anyone holds it and is released exactly once by the last one.
#pragma once
#include "pbt.h"
#include "ds.h"
#include <functional>
#include <vector>
#ifdef __SANITIZE_ADDRESS__
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#else
extern "C" void __libc_free(void *);
#endif
namespace refs {
inline const volatile void *watched; // how often this block is freed is counted
inline int n_freed;
#ifdef __SANITIZE_ADDRESS__
inline void watch(void *p) {
	watched = p;
	__sanitizer_install_malloc_and_free_hooks([](const volatile void *, size_t) {}, [](const volatile void *q) { n_freed += q == watched; });
}
#else
inline void watch(void *p) { watched = p; }
#endif
struct Obj {
	const char *name;
	std::function<void()> add, rel;
	std::function<void()> alive; // checks of someone who holds it
	std::function<bool()> gone;  // what else has to be released (once)
	void *mem;                   // its memory
};
// the caller holds one reference and gives it up
inline void race(const Obj &o) {
	ds::Config c = ds::draw_config(true);
	ds::dense(c);
	int nt = pbt::range(1, 4);
	std::vector<std::vector<int>> prog(nt);
	for (int i = 0; i < nt; i++) {
		int n = pbt::range(0, 4);
		std::string s;
		for (int k = 0; k < n; k++) {
			prog[i].push_back((int)pbt::draw(3));
			s += " " + std::to_string(prog[i].back());
		}
		pbt::logf("%s holder %d:%s (mode %d)", o.name, i, s.c_str(), c.mode);
	}
	bool last = pbt::chance(1, 3);
	static int finished;
	finished = 0;
	watch(o.mem);
	ds::start(c);
	for (int i = 0; i < nt; i++) o.add();
	for (int i = 0; i < nt; i++)
		ds::spawn([&, i] {
			int held = 1;
			for (int k : prog[i]) {
				if (k == 0) {
					o.add();
					held++;
				} else if (k == 1 && held > 1) {
					o.rel();
					held--;
				} else
					ds::yield();
				CHECK(n_freed == 0, "%s: freed while held", o.name);
				o.alive();
			}
			while (held--) o.rel();
			finished++;
		});
	if (!last) o.rel();
	CHECK(ds::run_until([&] { return finished == nt; }, 1000), "%s: holders did not finish", o.name);
	if (last) {
		CHECK(n_freed == 0, "%s: freed while held", o.name);
		o.alive();
		o.rel();
	}
	CHECK(n_freed == 1, "%s: its memory is freed %d times", o.name, n_freed);
	CHECK(o.gone(), "%s: not released by its last holder", o.name);
	pbt::count("shared holders");
	pbt::nontrivial();
}
} // namespace refs
#ifndef __SANITIZE_ADDRESS__
extern "C" void free(void *p) noexcept {
	if (p && p == refs::watched)
		refs::n_freed++; // kept: a second release must find it as the first left it
	else
		__libc_free(p);
}
#endif
