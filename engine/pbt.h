// Choice-tape property-based testing engine (Hypothesis style).
// A case is the sequence of bounded choices a property draws; 0 is always the
// simplest choice. Cases run in forked children; failures are replayed in
// fresh processes, shrunk on the tape, and saved as replay files.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <functional>

namespace pbt {

struct Property {
	const char *id;
	const char *rule;       // how cases are made / what is non-trivial
	void (*run)();          // one case
	int batch;              // cases per forked child (1 = fork per case)
	long quick_cases, thorough_cases; // upper bound on number of cases
	double quick_secs, thorough_secs; // exploration budget (wall)
	long min_cases;         // explored even if the time budget is exceeded
	const char *assumptions[8];
};
extern Property property; // defined by each property file

// ---- choices -------------------------------------------------------------
uint32_t draw(uint32_t n);                 // [0,n), 0 simplest
int range(int lo, int hi);                 // [lo,hi], lo simplest
bool chance(uint32_t num, uint32_t den);   // false simplest
uint32_t weighted(std::initializer_list<uint32_t> w); // index
int size_dist(int lo, int hi);             // skewed to small values, log-like
uint64_t draw64();                         // edge biased
uint64_t draw_seed();                      // for an Rng: any value, 0 simplest
template <class T> const T &pick(const std::vector<T> &v) { return v[draw((uint32_t)v.size())]; }

// deterministic bulk filler seeded from one draw (for payload bytes)
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 16) % n) : 0; }
};

// ---- reporting -----------------------------------------------------------
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void count(const char *label, long n = 1);
void nontrivial();
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void discard(const char *why); // environment problem, counted, not a verdict
void at_case_exit();                        // used by the engine
const char *scratch_dir();                  // per-child scratch directory (removed by the engine)
bool thorough();

} // namespace pbt

#define CHECK(c, ...)                              \
	do {                                           \
		if (!(c)) pbt::fail(__VA_ARGS__);          \
	} while (0)
