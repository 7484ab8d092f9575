#include "pbt.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <unordered_set>

namespace pbt {
enum { MAXTAPE = 1 << 16, MAXDESC = 16384, MAXCNT = 160, MAXHASH = 1 << 20, NSAMPLE = 3 };
enum { X_DISCARD = 98, X_FAIL = 99, X_ASAN = 77 };

struct Counter { char name[56]; long n; };
struct Shm { // one per worker (and one for replays)
	volatile uint64_t case_idx;
	volatile uint32_t ntape;
	uint32_t tape[MAXTAPE];
	volatile uint32_t ndesc;
	char desc[MAXDESC];
	char failmsg[4096];
	volatile uint32_t nontriv;
	volatile uint64_t evaluations, discards, nontriv_cases, unreproduced;
	Counter cnt[MAXCNT];
	volatile uint32_t ncnt;
	volatile uint64_t nhash;
	uint64_t hash[MAXHASH];
	char sample[NSAMPLE][2048];
	volatile uint32_t nsample;
	char unrep[512];
	// verified failure
	volatile uint32_t failed;
	char fkind[32];
	char fmsg[4096];
	volatile uint64_t fidx;
	volatile uint32_t fntape;
	uint32_t ftape[MAXTAPE];
	// known findings hit
	volatile uint64_t known_hits[32];
};
struct Global { volatile int stop; };

static Shm *S;
static Global *G;
static bool replaying;
static uint32_t replay_n;
static std::vector<uint32_t> replay_tape;
static Rng *rng;
static std::string scratch_base, scratch_child;
static int child_log_fd = -1;
static bool opt_thorough;
static uint64_t opt_seed = 1;
static int wall_limit = 40; // seconds a single case may take (real time) before it counts as hung

struct Known { std::string key, text; };
static std::vector<Known> known;

bool thorough() { return opt_thorough; }

static void put(uint32_t v) {
	if (S->ntape < MAXTAPE) {
		S->tape[S->ntape] = v;
		S->ntape = S->ntape + 1;
	} else discard("tape too long");
}
uint32_t draw(uint32_t n) {
	if (n == 0) n = 1;
	uint32_t v;
	if (replaying) {
		v = S->ntape < replay_n ? replay_tape[S->ntape] % n : 0;
	} else {
		v = n == 1 ? 0 : (uint32_t)((rng->next() >> 11) % n);
	}
	put(v);
	return v;
}
int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)draw((uint32_t)(hi - lo) + 1); }
bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; }
uint32_t weighted(std::initializer_list<uint32_t> w) {
	uint32_t sum = 0;
	for (auto x : w) sum += x;
	uint32_t v = draw(sum), i = 0;
	for (auto x : w) {
		if (v < x) return i;
		v -= x;
		i++;
	}
	return 0;
}
int size_dist(int lo, int hi) {
	if (hi <= lo) return lo;
	uint32_t span = (uint32_t)(hi - lo);
	int bits = 0;
	while ((span >> bits) && bits < 31) bits++;
	int b = (int)draw(bits + 1); // number of significant bits
	uint32_t m = b == 0 ? 0 : draw(1u << (b > 30 ? 30 : b));
	if (m > span) m = span;
	return lo + (int)m;
}
uint64_t draw64() {
	static const uint64_t edge[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000ull, 0xffffffffull,
		0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull};
	uint32_t k = draw(20);
	if (k < 16) return edge[k];
	uint64_t a = draw(0x7fffffff), b = draw(0x7fffffff);
	return (a << 33) ^ (b << 2) ^ draw(4);
}
uint64_t draw_seed() {
	uint64_t a = draw(0x7fffffff), b = draw(0x7fffffff);
	return (a << 31) ^ b;
}
void logf(const char *fmt, ...) {
	uint32_t n = S->ndesc;
	if (n + 2 >= MAXDESC) return;
	va_list ap;
	va_start(ap, fmt);
	int r = vsnprintf(S->desc + n, MAXDESC - n - 2, fmt, ap);
	va_end(ap);
	if (r < 0) return;
	n += std::min<uint32_t>((uint32_t)r, MAXDESC - n - 3);
	S->desc[n++] = '\n';
	S->desc[n] = 0;
	S->ndesc = n;
}
void count(const char *label, long n) {
	uint32_t m = S->ncnt;
	for (uint32_t i = 0; i < m; i++)
		if (!strncmp(S->cnt[i].name, label, sizeof(S->cnt[i].name) - 1)) {
			S->cnt[i].n += n;
			return;
		}
	if (m < MAXCNT) {
		snprintf(S->cnt[m].name, sizeof(S->cnt[m].name), "%s", label);
		S->cnt[m].n = n;
		S->ncnt = m + 1;
	}
}
void nontrivial() { S->nontriv = 1; }
void fail(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(S->failmsg, sizeof(S->failmsg), fmt, ap);
	va_end(ap);
	_exit(X_FAIL);
}
void discard(const char *why) {
	std::string l = std::string("discard: ") + why;
	count(l.c_str());
	_exit(X_DISCARD);
}

static int rm_cb(const char *p, const struct stat *, int, struct FTW *) { remove(p); return 0; }
static void rm_tree(const std::string &p) {
	if (p.size() > 8 && p.compare(0, 8, "/tmp/kv.") == 0) nftw(p.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
const char *scratch_dir() {
	mkdir(scratch_child.c_str(), 0700);
	return scratch_child.c_str();
}

static uint64_t mix(uint64_t a, uint64_t b) {
	Rng r(a ^ (b * 0xD1342543DE82EF95ull));
	r.next();
	return r.next();
}
static void begin_case(uint64_t idx) {
	S->case_idx = idx;
	S->ntape = 0;
	S->ndesc = 0;
	S->desc[0] = 0;
	S->failmsg[0] = 0;
	S->nontriv = 0;
}
static void end_case() {
	S->evaluations = S->evaluations + 1;
	if (S->nontriv) {
		S->nontriv_cases = S->nontriv_cases + 1;
		uint64_t h = 1469598103934665603ull;
		for (uint32_t i = 0; i < S->ntape; i++) h = (h ^ S->tape[i]) * 1099511628211ull, h ^= h >> 29;
		if (S->nhash < MAXHASH) {
			S->hash[S->nhash] = h;
			S->nhash = S->nhash + 1;
		}
		if (S->nsample < NSAMPLE) {
			snprintf(S->sample[S->nsample], sizeof(S->sample[0]), "case %llu: %s", (unsigned long long)S->case_idx, S->desc);
			S->nsample = S->nsample + 1;
		}
	}
}
static void arm() { alarm((unsigned)wall_limit); }

// child body: run n cases idx, idx+stride...
[[noreturn]] static void child_main(uint64_t idx, uint64_t stride, long n) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	signal(SIGALRM, SIG_DFL);
	dup2(child_log_fd, 1);
	dup2(child_log_fd, 2);
	setvbuf(stdout, NULL, _IONBF, 0);
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	for (long i = 0; i < n; i++) {
		arm();
		begin_case(idx + (uint64_t)i * stride);
		Rng r(mix(opt_seed, idx + (uint64_t)i * stride));
		rng = &r;
		property.run();
		end_case();
		if (G->stop) break;
	}
	_exit(0);
}
struct Outcome { bool ok = true, discarded = false; std::string kind, msg; };

static std::string log_tail() {
	std::string out;
	off_t sz = lseek(child_log_fd, 0, SEEK_END);
	if (sz <= 0) return out;
	// head (first report) and tail
	char buf[65536];
	ssize_t r = pread(child_log_fd, buf, sizeof(buf), 0);
	if (r > 0) out.assign(buf, (size_t)r);
	if (sz > (off_t)sizeof(buf)) {
		r = pread(child_log_fd, buf, sizeof(buf), sz - (off_t)sizeof(buf));
		if (r > 0) out.append("\n...\n").append(buf, (size_t)r);
	}
	return out;
}
static std::string line_with(const std::string &s, const char *needle) {
	size_t p = s.find(needle);
	if (p == std::string::npos) return "";
	size_t b = s.rfind('\n', p), e = s.find('\n', p);
	b = b == std::string::npos ? 0 : b + 1;
	return s.substr(b, (e == std::string::npos ? s.size() : e) - b);
}
static std::string asan_frames(const std::string &s) {
	std::string out;
	size_t p = s.find("ERROR: AddressSanitizer");
	for (int i = 0; i < 8 && p != std::string::npos; i++) {
		p = s.find("\n    #", p + 1);
		if (p == std::string::npos) break;
		size_t e = s.find('\n', p + 1);
		out += s.substr(p + 1, e - p - 1) + "\n";
	}
	return out;
}
static Outcome classify(int st) {
	Outcome o;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
	if (WIFEXITED(st) && WEXITSTATUS(st) == X_DISCARD) {
		o.discarded = true;
		return o;
	}
	o.ok = false;
	std::string log = log_tail();
	if (WIFEXITED(st) && WEXITSTATUS(st) == X_FAIL) {
		o.kind = "oracle";
		o.msg = S->failmsg;
	} else if (WIFEXITED(st) && WEXITSTATUS(st) == X_ASAN) {
		o.kind = "sanitizer";
		o.msg = line_with(log, "ERROR: AddressSanitizer") + "\n" + asan_frames(log);
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
		o.kind = "hang";
		o.msg = "case did not finish within the wall-clock limit";
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
		o.discarded = true; // ended from outside (memory guard or stop)
		o.ok = true;
	} else if (WIFSIGNALED(st)) {
		o.kind = "crash";
		o.msg = "signal " + std::to_string(WTERMSIG(st)) + " " + line_with(log, "Assertion");
	} else {
		o.kind = "exit";
		o.msg = "unexpected exit code " + std::to_string(WEXITSTATUS(st));
	}
	return o;
}
static int wait_child(pid_t pid) {
	int st = 0;
	for (;;) {
		pid_t r = waitpid(pid, &st, 0);
		if (r == pid) return st;
		if (r < 0 && errno != EINTR) return 0;
	}
}
// run a tape alone in a fresh process
static Outcome run_tape(const std::vector<uint32_t> &t, std::vector<uint32_t> *used = nullptr, std::string *desc = nullptr) {
	if (ftruncate(child_log_fd, 0)) {}
	lseek(child_log_fd, 0, SEEK_SET);
	pid_t pid = fork();
	if (pid == 0) {
		replaying = true;
		replay_tape = t;
		replay_n = (uint32_t)t.size();
		child_main(0, 1, 1);
	}
	Outcome o = classify(wait_child(pid));
	rm_tree(scratch_child);
	if (used) {
		used->assign(S->tape, S->tape + S->ntape);
		while (!used->empty() && used->back() == 0) used->pop_back();
	}
	if (desc) *desc = std::string(S->desc);
	return o;
}
static double now_s() {
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
static int known_index(const std::string &msg) {
	for (size_t i = 0; i < known.size(); i++)
		if (msg.compare(0, known[i].key.size() + 2, "[" + known[i].key + "]") == 0) return (int)i;
	return -1;
}

static std::string child_path(int w) { return scratch_base + "/w" + std::to_string(w); }

static int new_log() {
	int fd = (int)syscall(SYS_memfd_create, "kvlog", 0);
	if (fd < 0) {
		std::string p = scratch_base + "/log" + std::to_string(getpid());
		fd = open(p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	}
	fcntl(fd, F_SETFL, O_APPEND);
	return fd;
}

static void worker(int w, int W, long max_cases, long min_cases, double secs, double t0) {
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	child_log_fd = new_log();
	scratch_child = child_path(w);
	long per_min = (min_cases + W - 1) / W, per_max = (max_cases + W - 1) / W;
	long done = 0;
	uint64_t idx = (uint64_t)w;
	double hard = secs * 3 + 60;
	if (hard > 600 && !opt_thorough) hard = 600;
	while (done < per_max && !G->stop) {
		double el = now_s() - t0;
		if (el > secs && done >= per_min) break;
		if (el > hard) break;
		long n = std::min<long>(property.batch, per_max - done);
		if (ftruncate(child_log_fd, 0)) {}
		S->case_idx = idx;
		pid_t pid = fork();
		if (pid == 0) child_main(idx, (uint64_t)W, n);
		Outcome o = classify(wait_child(pid));
		rm_tree(scratch_child);
		if (o.ok && !o.discarded) {
			done += n;
			idx += (uint64_t)n * W;
			continue;
		}
		uint64_t bad = S->case_idx;
		long ran = (long)((bad - idx) / W) + 1;
		done += ran;
		idx = bad + W;
		if (o.discarded) {
			S->discards = S->discards + 1;
			continue;
		}
		S->evaluations = S->evaluations + 1;
		std::vector<uint32_t> tape(S->tape, S->tape + S->ntape);
		int k = known_index(o.msg);
		if (k >= 0) {
			S->known_hits[k] = S->known_hits[k] + 1;
			continue;
		}
		int again = 0, tries = o.kind == "hang" ? 1 : 3;
		Outcome last = o;
		for (int i = 0; i < tries; i++) {
			Outcome r = run_tape(tape);
			if (!r.ok && known_index(r.msg) < 0) again++, last = r;
			else break;
		}
		if (again < tries) {
			S->unreproduced = S->unreproduced + 1;
			snprintf(S->unrep, sizeof(S->unrep), "case %llu [%s] %s", (unsigned long long)bad, o.kind.c_str(), o.msg.c_str());
			continue;
		}
		if (!S->failed) {
			snprintf(S->fkind, sizeof(S->fkind), "%s", last.kind.c_str());
			snprintf(S->fmsg, sizeof(S->fmsg), "%s", last.msg.c_str());
			S->fidx = bad;
			memcpy(S->ftape, tape.data(), tape.size() * 4);
			S->fntape = (uint32_t)tape.size();
			S->failed = 1;
		}
		G->stop = 1;
		break;
	}
	_exit(0);
}

static std::vector<uint32_t> shrink(std::vector<uint32_t> best, const std::string &kind, double budget, long *evals) {
	double t0 = now_s();
	auto still = [&](const std::vector<uint32_t> &c, std::vector<uint32_t> *used) {
		(*evals)++;
		Outcome o = run_tape(c, used);
		return !o.ok && o.kind == kind && known_index(o.msg) < 0;
	};
	auto over = [&] { return now_s() - t0 > budget; };
	bool changed = true;
	while (changed && !over()) {
		changed = false;
		for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1 && !over(); chunk /= 2) {
			for (size_t i = best.size(); i > 0 && !over();) {
				size_t b = i > chunk ? i - chunk : 0;
				std::vector<uint32_t> c(best.begin(), best.begin() + (long)b);
				c.insert(c.end(), best.begin() + (long)i, best.end());
				std::vector<uint32_t> used;
				if (c.size() < best.size() && still(c, &used)) {
					if (used.size() <= c.size()) c = used;
					best = c;
					changed = true;
					i = std::min(b, best.size());
				} else i = b;
			}
		}
		for (size_t i = 0; i < best.size() && !over(); i++) {
			if (best[i] == 0) continue;
			std::vector<uint32_t> c = best, used;
			c[i] = 0;
			if (still(c, &used)) {
				best = c;
				changed = true;
				continue;
			}
			uint32_t lo = 0, hi = best[i];
			while (hi - lo > 1 && !over()) {
				uint32_t mid = lo + (hi - lo) / 2;
				c = best;
				c[i] = mid;
				if (still(c, &used)) {
					hi = mid;
					best = c;
					changed = true;
				} else lo = mid;
			}
		}
	}
	return best;
}

static std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') o += '\\', o += (char)c;
		else if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c < 0x20 || c >= 0x7f) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else o += (char)c;
	}
	return o + "\"";
}
static Shm *new_shm() {
	void *p = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (Shm *)p;
}
static void load_known(const char *file) {
	FILE *f = fopen(file, "r");
	if (!f) return;
	char line[2048];
	std::string pat = std::string("known: property=") + property.id + " key=";
	while (fgets(line, sizeof line, f)) {
		if (strncmp(line, pat.c_str(), pat.size())) continue;
		std::string rest = line + pat.size();
		while (!rest.empty() && (rest.back() == '\n' || rest.back() == ' ')) rest.pop_back();
		size_t sp = rest.find(' ');
		Known k;
		k.key = rest.substr(0, sp);
		k.text = sp == std::string::npos ? "" : rest.substr(sp + 1);
		known.push_back(k);
	}
	fclose(f);
}
static bool load_replay(const char *path, std::vector<uint32_t> &t) {
	FILE *f = fopen(path, "r");
	if (!f) return false;
	char line[1 << 16];
	bool found = false;
	while (fgets(line, sizeof line, f))
		if (!strncmp(line, "tape:", 5)) {
			found = true;
			char *p = line + 5, *e;
			for (;;) {
				unsigned long v = strtoul(p, &e, 10);
				if (e == p) break;
				t.push_back((uint32_t)v);
				p = e;
			}
		}
	fclose(f);
	return found;
}

static int real_main(int argc, char **argv) {
	const char *evidence = nullptr, *replay = nullptr, *knownf = nullptr, *replay_out = "/tmp";
	int W = 8;
	double secs = -1, share = 1;
	const char *bname = "std";
	long cases = -1;
	long one = -1;
	const char *e = getenv("VERIF_SEED");
	if (e && *e) opt_seed = strtoull(e, nullptr, 10);
	e = getenv("VERIF_TIER");
	if (e && !strcmp(e, "thorough")) opt_thorough = true;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--evidence") evidence = nx();
		else if (a == "--replay") replay = nx();
		else if (a == "--known") knownf = nx();
		else if (a == "--replay-dir") replay_out = nx();
		else if (a == "--workers") W = atoi(nx());
		else if (a == "--secs") secs = atof(nx());
		else if (a == "--share") share = atof(nx());
		else if (a == "--build") bname = nx();
		else if (a == "--cases") cases = atol(nx());
		else if (a == "--case") one = atol(nx());
		else if (a == "--seed") opt_seed = strtoull(nx(), nullptr, 10);
		else if (a == "--thorough") opt_thorough = true;
		else if (a == "--wall") wall_limit = atoi(nx());
	}
	setvbuf(stdout, NULL, _IOLBF, 0);
	if (knownf) load_known(knownf);
	char tmpl[] = "/tmp/kv.XXXXXX";
	if (!mkdtemp(tmpl)) {
		perror("mkdtemp");
		return 2;
	}
	chmod(tmpl, 0755);
	scratch_base = tmpl;
	G = (Global *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	double t0 = now_s();

	if (replay || one >= 0) {
		S = new_shm();
		child_log_fd = new_log();
		scratch_child = child_path(99);
		std::vector<uint32_t> t;
		Outcome o;
		std::string desc;
		if (replay) {
			if (!load_replay(replay, t)) {
				fprintf(stderr, "cannot read replay %s\n", replay);
				return 2;
			}
			o = run_tape(t, nullptr, &desc);
		} else {
			pid_t pid = fork();
			if (pid == 0) child_main((uint64_t)one, 1, 1);
			o = classify(wait_child(pid));
			rm_tree(scratch_child);
			desc = S->desc;
		}
		printf("%s\n--- log\n%s\n--- %s\n", desc.c_str(), log_tail().c_str(), o.ok ? (o.discarded ? "DISCARDED" : "PASS") : (o.kind + ": " + o.msg).c_str());
		rm_tree(scratch_base);
		if (!o.ok) {
			printf("VIOLATION property=%s replay=%s\n", property.id, replay ? replay : "(case)");
			return 1;
		}
		return 0;
	}

	long maxc = cases >= 0 ? cases : (opt_thorough ? property.thorough_cases : property.quick_cases);
	double sec = secs >= 0 ? secs : (opt_thorough ? property.thorough_secs : property.quick_secs) * share;
	property.min_cases = (long)((double)property.min_cases * share);
	std::vector<Shm *> shms;
	std::vector<pid_t> pids;
	for (int w = 0; w < W; w++) {
		Shm *s = new_shm();
		shms.push_back(s);
		fflush(NULL);
		pid_t pid = fork();
		if (pid == 0) {
			S = s;
			worker(w, W, maxc, property.min_cases, sec, t0);
		}
		pids.push_back(pid);
	}
	for (pid_t p : pids) wait_child(p);

	// aggregate
	uint64_t ev = 0, disc = 0, nontriv = 0, unrep = 0;
	std::map<std::string, long> cnt;
	std::unordered_set<uint64_t> hashes;
	std::vector<std::string> samples;
	std::vector<uint64_t> kh(known.size(), 0);
	Shm *bad = nullptr;
	std::string unrep_msg;
	for (Shm *s : shms) {
		ev += s->evaluations;
		disc += s->discards;
		nontriv += s->nontriv_cases;
		unrep += s->unreproduced;
		if (s->unreproduced) unrep_msg = s->unrep;
		for (uint32_t i = 0; i < s->ncnt; i++) cnt[s->cnt[i].name] += s->cnt[i].n;
		for (uint64_t i = 0; i < s->nhash; i++) hashes.insert(s->hash[i]);
		if (samples.size() < 4 && s->nsample) samples.push_back(s->sample[s->nsample > 1 ? 1 : 0]);
		for (size_t i = 0; i < known.size(); i++) kh[i] += s->known_hits[i];
		if (s->failed && (!bad || s->fidx < bad->fidx)) bad = s;
	}
	int rc = 0;
	std::string vline, vmsg;
	if (bad) {
		S = new_shm();
		child_log_fd = new_log();
		scratch_child = child_path(98);
		std::vector<uint32_t> t(bad->ftape, bad->ftape + bad->fntape), small;
		std::string kind = bad->fkind;
		long evals = 0;
		double budget = kind == "hang" ? 90 : (opt_thorough ? 120 : 40);
		double full_limit = wall_limit;
		if (kind == "hang") wall_limit = 5; // other cases take milliseconds
		small = shrink(t, kind, budget, &evals);
		wall_limit = full_limit;
		std::string desc;
		Outcome o;
		bool ok3 = true;
		for (int i = 0; i < (kind == "hang" ? 1 : 3) && ok3; i++) {
			o = run_tape(small, nullptr, &desc);
			if (o.ok) ok3 = false;
		}
		if (!ok3) {
			small = t;
			o = run_tape(small, nullptr, &desc);
			if (o.ok) o.kind = kind, o.msg = bad->fmsg;
		}
		char path[512];
		snprintf(path, sizeof path, "%s/%s-%s-seed%llu-case%llu.replay", replay_out, property.id, bname, (unsigned long long)opt_seed, (unsigned long long)bad->fidx);
		FILE *f = fopen(path, "w");
		if (f) {
			fprintf(f, "property: %s\nbuild: %s\nkind: %s\nmessage: %s\nseed: %llu\ncase: %llu\nshrunk_from: %zu choices to %zu in %ld runs\ntape:", property.id, bname, o.kind.c_str(), o.msg.c_str(),
				(unsigned long long)opt_seed, (unsigned long long)bad->fidx, t.size(), small.size(), evals);
			for (auto v : small) fprintf(f, " %u", v);
			fprintf(f, "\n--- case\n%s\n--- log\n%s\n", desc.c_str(), log_tail().c_str());
			fclose(f);
		}
		printf("%s: %s\n%s\n", o.kind.c_str(), o.msg.c_str(), desc.c_str());
		printf("VIOLATION property=%s replay=%s\n", property.id, path);
		rc = 1;
	}
	for (size_t i = 0; i < known.size(); i++)
		printf("KNOWN-FINDING: property=%s %s (hit %llu times in this run)\n", property.id, known[i].text.c_str(), (unsigned long long)kh[i]);
	double wall = now_s() - t0;
	printf("%s: %llu cases, %llu non-trivial (%zu distinct), %llu discarded, %llu unreproduced, %.1fs\n", property.id, (unsigned long long)ev, (unsigned long long)nontriv, hashes.size(),
		(unsigned long long)disc, (unsigned long long)unrep, wall);
	for (auto &c : cnt) printf("  %-50s %ld\n", c.first.c_str(), c.second);
	if (unrep) printf("  unreproduced example: %s\n", unrep_msg.c_str());
	if (evidence) {
		FILE *f = fopen(evidence, "w");
		if (f) {
			fprintf(f, "{\n \"property\": %s,\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", jstr(property.id).c_str(), opt_thorough ? "thorough" : "quick",
				(unsigned long long)opt_seed);
			fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"discarded\": %llu,\n  \"failures_not_reproduced\": %llu,\n", (unsigned long long)ev, hashes.size(),
				(unsigned long long)disc, (unsigned long long)unrep);
			if (unrep) fprintf(f, "  \"failure_not_reproduced_example\": %s,\n", jstr(unrep_msg).c_str());
			fprintf(f, "  \"rule\": %s,\n  \"classes\": {", jstr(property.rule).c_str());
			bool first = true;
			for (auto &c : cnt) {
				fprintf(f, "%s\n   %s: %ld", first ? "" : ",", jstr(c.first).c_str(), c.second);
				first = false;
			}
			fprintf(f, "\n  },\n  \"samples\": [");
			first = true;
			for (auto &s : samples) {
				fprintf(f, "%s\n   %s", first ? "" : ",", jstr(s).c_str());
				first = false;
			}
			fprintf(f, "\n  ]\n },\n \"assumptions\": [");
			first = true;
			for (int i = 0; i < 8 && property.assumptions[i]; i++) {
				fprintf(f, "%s\n  %s", first ? "" : ",", jstr(property.assumptions[i]).c_str());
				first = false;
			}
			fprintf(f, "\n ],\n \"wall_s\": %.1f,\n \"violations\": %d\n}\n", wall, rc ? 1 : 0);
			fclose(f);
		}
	}
	rm_tree(scratch_base);
	return rc;
}
} // namespace pbt

extern "C" const char *__asan_default_options() {
	return "detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:abort_on_error=0:handle_abort=0:"
	       "allocator_may_return_null=1:quarantine_size_mb=24:malloc_context_size=6:detect_odr_violation=0:"
	       "print_legend=0:print_stats=0:symbolize=1:max_malloc_fill_size=256:malloc_fill_byte=190";
}
int main(int argc, char **argv) {
	// fixed address layout so that a replay sees what the failing run saw
	if (!getenv("KV_NOASLR")) {
		setenv("KV_NOASLR", "1", 1);
		int p = personality(0xffffffff);
		if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
	}
	return pbt::real_main(argc, argv);
}
