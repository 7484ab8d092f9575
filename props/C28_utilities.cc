// kv: variant=fast:0.5,std:0.5
// Shared strings, lists, atomics, file helpers.
#include "refs.h"
#include "kh.h"
#include "shim.h"
#include "kstring.h"
#include "klist.h"
#include "kfile.h"
#include <fcntl.h>
#include <errno.h>
#include <sys/stat.h>
#include <list>
using namespace pbt;
extern "C" __attribute__((weak)) int __asan_address_is_poisoned(void const volatile *addr);

// ---- atomics -------------------------------------------------------------
struct AOp { int op; int64_t a, b; };
static int64_t trunc_w(int w, int64_t v) { return w == 16 ? (int16_t)v : w == 32 ? (int32_t)v : v; }
static int64_t read_w(int w, void *p) { return w == 16 ? *(int16_t *)p : w == 32 ? *(int32_t *)p : *(int64_t *)p; }
static void atomics() {
	ds::Config c = ds::draw_config(true);
	ds::dense(c);
	static const int widths[] = {32, 64, 16};
	int w = widths[draw(3)], nt = range(1, 5);
	static const char *nm[] = {"add", "sub", "inc", "dec", "set", "get", "cas"};
	int64_t init = chance(1, 3) ? trunc_w(w, (int64_t)draw64()) : range(0, 3);
	std::vector<std::vector<AOp>> prog(nt);
	logf("atomics width=%d init=%lld mode=%d threads=%d", w, (long long)init, c.mode, nt);
	for (int i = 0; i < nt; i++) {
		int n = range(1, 8);
		std::string s;
		for (int k = 0; k < n; k++) {
			AOp o;
			o.op = (int)draw(7);
			// the increment of a 32-bit subtraction is negated: INT_MIN has no negation
			o.a = chance(1, 5) ? trunc_w(w, (int64_t)draw64()) : range(0, 4);
			if (o.op == AT_SUB && w == 32 && o.a == INT32_MIN) o.a++;
			o.b = range(0, 5);
			prog[i].push_back(o);
			s += std::string(" ") + nm[o.op] + " " + kh::ll(o.a) + (o.op == AT_CAS ? ":" + kh::ll(o.b) : "");
		}
		logf(" thread %d:%s", i, s.c_str());
	}
	static int64_t cell[3];
	void *var = &cell[1];
	cell[0] = cell[2] = 0x5a5a5a5a5a5a5a5a;
	cell[1] = 0x7777777777777777;
	if (w == 16) *(int16_t *)var = (int16_t)init;
	else if (w == 32) *(int32_t *)var = (int32_t)init;
	else *(int64_t *)var = init;
	static std::vector<std::pair<int64_t, int64_t>> edges;
	static std::vector<int64_t> seen;
	static int finished;
	ds::start(c);
	for (int i = 0; i < nt; i++) {
		auto *p = &prog[i];
		ds::spawn([=] {
			int64_t mine = init; // exact when there is one thread
			for (auto &o : *p) {
				bool sup;
				int64_t r = sh_atom(w, o.op, var, o.a, o.b, &sup);
				if (!sup) continue;
				typedef __int128 W;
				int64_t before = r, after = r;
				switch (o.op) {
				case AT_ADD: after = trunc_w(w, (int64_t)((uint64_t)r + (uint64_t)o.a)); break;
				case AT_SUB: after = trunc_w(w, (int64_t)((uint64_t)r - (uint64_t)o.a)); break;
				case AT_INC: before = trunc_w(w, (int64_t)((uint64_t)r - 1)); break;
				case AT_DEC: before = trunc_w(w, (int64_t)((uint64_t)r + 1)); break;
				case AT_SET: after = trunc_w(w, o.a); break;
				case AT_GET: seen.push_back(r); break;
				case AT_CAS:
					CHECK(r == 0 || r == 1, "cas returned %lld", (long long)r);
					if (nt == 1) CHECK(r == (mine == trunc_w(w, o.a)), "cas(%lld) on %lld returned %lld", (long long)o.a, (long long)mine, (long long)r);
					before = r ? trunc_w(w, o.a) : INT64_MAX;
					after = trunc_w(w, o.b);
					break;
				}
				if (o.op == AT_CAS && !r) continue;
				if (nt == 1) {
					CHECK(before == mine, "%s of width %d on %lld returned %lld", nm[o.op], w, (long long)mine, (long long)r);
					mine = after;
					CHECK(read_w(w, var) == mine, "%s of width %d left %lld, expected %lld", nm[o.op], w, (long long)read_w(w, var), (long long)mine);
				}
				if (o.op != AT_GET) edges.push_back({before, after});
			}
			finished++;
		});
	}
	CHECK(ds::run_until([&] { return finished == nt; }, 1000), "atomic operations did not finish");
	// the (old, new) pairs must chain from the initial to the final value
	int64_t fin = read_w(w, var);
	std::map<int64_t, int> deg;
	std::set<int64_t> visited{init};
	for (auto &e : edges) {
		deg[e.first]++;
		deg[e.second]--;
		visited.insert(e.second);
	}
	deg[init]--;
	deg[fin]++;
	for (auto &d : deg)
		CHECK(d.second == 0, "an atomic update was lost or duplicated: value %lld was %s %d times too often (init %lld, final %lld, %zu updates)",
			(long long)d.first, d.second > 0 ? "replaced" : "produced", abs(d.second), (long long)init, (long long)fin, edges.size());
	for (auto v : seen) CHECK(visited.count(v), "a read returned %lld which the variable never held", (long long)v);
	CHECK(cell[0] == 0x5a5a5a5a5a5a5a5a && cell[2] == cell[0], "an atomic operation wrote outside its variable");
	if (w < 64) CHECK(((cell[1] ^ 0x7777777777777777) >> w) == 0, "an atomic operation of width %d wrote outside its variable", w);
	count("atomics");
	if (nt > 1) nontrivial();
}
// ---- reference-counted strings --------------------------------------------
static void strings() {
	ds::Config c = ds::draw_config(true);
	ds::dense(c);
	int kind = (int)draw(3), len = size_dist(0, 300), nt = range(1, 5);
	Rng r(draw(1000));
	std::string bytes;
	bool binary = kind != 0 && chance(1, 2);
	for (int i = 0; i < len; i++) {
		char ch = (char)(binary && r.below(8) == 0 ? 0 : 1 + r.below(255));
		bytes += ch;
	}
	logf("string kind=%d len=%d binary=%d mode=%d holders=%d", kind, len, binary, c.mode, nt);
	char *src = (char *)malloc(len + (kind == 0 ? 1 : 0) + (len == 0));
	memcpy(src, bytes.data(), len);
	if (kind == 0) src[len] = 0;
	static kgl_ref_str_t *s;
	switch (kind) {
	case 0: s = kstring_from(src); break;
	case 1: s = kstring_from2(src, len); break;
	default: {
		char *own = (char *)malloc(len + 1);
		memcpy(own, src, len);
		own[len] = 0;
		s = convert_refs_string(own, len);
	}
	}
	memset(src, 'x', len); // the string must not alias its source
	free(src);
	CHECK(s, "no string");
	CHECK(s->len == (uint32_t)len, "length %u of a string of %d bytes", s->len, len);
	CHECK(len == 0 || memcmp(s->data, bytes.data(), len) == 0, "the bytes of the string differ from its source");
	CHECK(s->data[len] == 0, "the string is not terminated");
	CHECK(kstring_get_ref(s) == 1, "a new string has %u holders", kstring_get_ref(s));
	std::vector<std::vector<int>> prog(nt);
	for (int i = 0; i < nt; i++) {
		int n = range(1, 6);
		std::string t;
		for (int k = 0; k < n; k++) {
			prog[i].push_back((int)draw(3));
			t += kh::ll(prog[i].back()) + " ";
		}
		logf(" holder %d: %s", i, t.c_str());
	}
	static int finished;
	char *data = s->data;
	refs::watch(s);
	ds::start(c);
	for (int i = 0; i < nt; i++) {
		CHECK(sh_kstring_refs(s) == s, "refs returned another string");
		auto *p = &prog[i];
		ds::spawn([=] {
			int held = 1;
			for (int o : *p) {
				if (o == 0) {
					sh_kstring_refs(s);
					held++;
				} else if (o == 1 && held > 1) {
					sh_kstring_release(s);
					held--;
				} else ds::yield();
				CHECK((int)kstring_get_ref(s) >= held, "%u holders counted while one thread alone holds %d", kstring_get_ref(s), held);
				CHECK(s->len == (uint32_t)len && memcmp(s->data, bytes.data(), len) == 0, "the string changed while held");
			}
			while (held--) sh_kstring_release(s);
			finished++;
		});
	}
	bool last_is_thread = chance(1, 2);
	if (last_is_thread) {
		CHECK(ds::run_until([&] { return finished == nt; }, 1000), "holders did not finish");
		CHECK(refs::n_freed == 0, "released while held");
		CHECK(kstring_get_ref(s) == 1, "%u holders left, 1 expected", kstring_get_ref(s));
		if (__asan_address_is_poisoned) CHECK(!__asan_address_is_poisoned(s) && !__asan_address_is_poisoned(data), "released while held");
		sh_kstring_release(s);
	} else {
		sh_kstring_release(s);
		CHECK(ds::run_until([&] { return finished == nt; }, 1000), "holders did not finish");
	}
	CHECK(refs::n_freed == 1, "a string is freed %d times", refs::n_freed);
	if (__asan_address_is_poisoned) CHECK(__asan_address_is_poisoned(s) && __asan_address_is_poisoned(data), "not released by its last holder");
	CHECK(kstring_refs(NULL) == NULL && kstring_from(NULL) == NULL, "null string");
	kstring_release(NULL);
	CHECK(kgl_len_str_size(len) >= sizeof(kgl_len_str_t) + len + 1, "kgl_len_str_size(%d) has no room for the terminator", len);
	count("strings");
	if (nt > 1) nontrivial();
}
// ---- lists -----------------------------------------------------------------
struct Node { int id; kgl_list q; };
static void same(kgl_list *h, const std::list<Node *> &m) {
	kgl_list *p;
	auto it = m.begin();
	klist_foreach(p, h) {
		CHECK(it != m.end() && kgl_list_data(p, Node, q) == *it, "forward iteration differs from the model");
		++it;
	}
	CHECK(it == m.end(), "forward iteration ends early");
	auto rt = m.rbegin();
	klist_rforeach(p, h) {
		CHECK(rt != m.rend() && kgl_list_data(p, Node, q) == *rt, "backward iteration differs from the model");
		++rt;
	}
	CHECK(rt == m.rend(), "backward iteration ends early");
	CHECK(klist_empty(h) == m.empty(), "empty() wrong for %zu elements", m.size());
	if (!m.empty()) {
		kgl_list *f = klist_head(h);
		kgl_list *l = klist_end(h);
		CHECK(f == &m.front()->q && l == &m.back()->q, "head/end differ from the model");
	}
}
struct FNode { kgl_forward_list l; int id; };
static void lists() {
	kgl_list h[2];
	std::list<Node *> m[2];
	klist_init(&h[0]);
	klist_init(&h[1]);
	std::vector<std::unique_ptr<Node>> own;
	kgl_forward_list fh;
	std::list<FNode *> fm;
	std::vector<std::unique_ptr<FNode>> fown;
	kforward_list_init(&fh);
	int n = range(1, 60), removed = 0;
	logf("lists ops=%d", n);
	for (int i = 0; i < n; i++) {
		int w = (int)draw(2);
		switch (weighted({4, 2, 2, 3, 3, 2, 1})) {
		case 0: {
			own.emplace_back(new Node{i, {nullptr, nullptr}});
			Node *x = own.back().get();
			klist_append(&h[w], &x->q);
			m[w].push_back(x);
			break;
		}
		case 1: { // before an element
			if (m[w].empty()) break;
			auto it = m[w].begin();
			std::advance(it, draw((uint32_t)m[w].size()));
			own.emplace_back(new Node{i, {nullptr, nullptr}});
			Node *x = own.back().get();
			klist_insert(&(*it)->q, &x->q);
			m[w].insert(it, x);
			break;
		}
		case 2: { // at the front
			own.emplace_back(new Node{i, {nullptr, nullptr}});
			Node *x = own.back().get();
			kgl_list *first = h[w].next;
			klist_insert(first, &x->q);
			m[w].push_front(x);
			break;
		}
		case 3: {
			if (m[w].empty()) break;
			auto it = m[w].begin();
			std::advance(it, draw((uint32_t)m[w].size()));
			klist_remove(&(*it)->q);
			m[w].erase(it);
			removed++;
			break;
		}
		case 4: {
			fown.emplace_back(new FNode{{nullptr}, i});
			kforward_list_append(&fh, &fown.back()->l);
			fm.push_front(fown.back().get());
			break;
		}
		case 5: {
			if (fm.empty()) break;
			auto it = fm.begin();
			std::advance(it, draw((uint32_t)fm.size()));
			CHECK(kfoward_list_remove(&fh, &(*it)->l), "removing a present element reported failure");
			fm.erase(it);
			removed++;
			break;
		}
		case 6: {
			FNode x{{nullptr}, -1};
			CHECK(!kfoward_list_remove(&fh, &x.l), "removing an absent element reported success");
			break;
		}
		}
		same(&h[0], m[0]);
		same(&h[1], m[1]);
		auto it = fm.begin();
		for (kgl_forward_list *p = fh.next; p != &fh; p = p->next, ++it) CHECK(it != fm.end() && p == &(*it)->l, "forward list differs from the model");
		CHECK(it == fm.end(), "forward list ends early");
		CHECK(kforward_list_empty(&fh) == fm.empty(), "forward list empty() wrong");
	}
	// small helpers
	std::vector<kgl_iovec> v(range(0, 6));
	int sum = 0;
	for (auto &x : v) {
		x.iov_base = nullptr;
		x.iov_len = size_dist(0, 100000);
		sum += (int)x.iov_len;
	}
	CHECK(kgl_get_bufs_size(v.data(), (int)v.size()) == sum, "kgl_get_bufs_size");
	char path[4] = {0};
	for (int i = 0; i < range(0, 3); i++) path[i] = "/a.\\"[draw(4)];
	CHECK(kgl_is_absolute_path(path) == (path[0] == '/'), "kgl_is_absolute_path(%s)", path);
	count("lists");
	if (removed) nontrivial();
}
// ---- files -----------------------------------------------------------------
struct MFile { bool exists; std::string data; time_t mtime; };
struct MHandle { int fd; int file; fileModel model; int64_t pos; };
static void files() {
	static int serial;
	std::string dir = std::string(scratch_dir()) + "/f" + std::to_string(getpid()) + "_" + std::to_string(serial++);
	if (mkdir(dir.c_str(), 0755)) discard("mkdir");
	const int NF = 2;
	MFile mf[NF] = {};
	std::string path[NF] = {dir + "/a", dir + "/b"}, link = dir + "/link";
	if (symlink(path[0].c_str(), link.c_str())) discard("symlink");
	std::vector<MHandle> hs;
	int n = range(1, 40), did = 0;
	static const char *mn[] = {"read", "write", "modify", "readwrite", "writeread", "append"};
	logf("files ops=%d", n);
	for (int i = 0; i < n; i++) {
		int op = (int)weighted({4, 5, 5, 4, 2, 2, 1, 1, 1, 1});
		if (op != 0 && op != 7 && op != 8 && hs.empty()) op = 0;
		if (op == 0) {
			if (hs.size() > 4) continue;
			int f = (int)draw(NF);
			fileModel mo = (fileModel)draw(6);
			int flag = 0;
			if (chance(1, 3)) flag |= KFILE_DSYNC;
			if (chance(1, 3)) flag |= KFILE_NOATIME;
			if (chance(1, 3)) flag |= KFILE_SEQUENTIAL;
			if (chance(1, 3)) flag |= KFILE_ASYNC;
			if (chance(1, 3)) flag |= KFILE_NOFOLLOW;
			bool via_link = f == 0 && chance(1, 3);
			bool want = (mo == fileRead || mo == fileReadWrite ? mf[f].exists : true) && !(via_link && (flag & KFILE_NOFOLLOW));
			int fd = kfopen(via_link ? link.c_str() : path[f].c_str(), mo, flag);
			logf(" open %d %s%s flags=%d -> %s", f, mn[mo], via_link ? " via link" : "", flag, fd >= 0 ? "ok" : "fail");
			CHECK(kflike(fd) == want, "open of %s file in mode %s with flags %d%s %s", mf[f].exists ? "an existing" : "a missing", mn[mo], flag, via_link ? " through a link" : "", fd >= 0 ? "succeeded" : "failed");
			if (fd < 0) continue;
			CHECK(fcntl(fd, F_GETFD) & FD_CLOEXEC, "the descriptor is not close-on-exec");
			CHECK(!!(fcntl(fd, F_GETFL) & O_DSYNC) == !!(flag & KFILE_DSYNC), "synchronous flag");
			CHECK(!!(fcntl(fd, F_GETFL) & O_NOATIME) == !!(flag & KFILE_NOATIME), "noatime flag");
			if (!mf[f].exists) {
				struct stat st;
				fstat(fd, &st);
				mode_t um = umask(0);
				umask(um);
				CHECK((st.st_mode & 0777) == (0644 & ~um), "created with mode %o", st.st_mode & 0777);
			}
			mf[f].exists = true;
			if (mo == fileWrite || mo == fileWriteRead) mf[f].data.clear();
			hs.push_back({fd, f, mo, 0});
			continue;
		}
		if (op == 7) {
			int f = (int)draw(NF);
			time_t t = kfile_last_modified(path[f].c_str());
			if (!mf[f].exists) CHECK(t == 0, "a missing file has modification time %ld", (long)t);
			else CHECK(t != 0, "an existing file has no modification time");
			CHECK(kfile_last_modified(dir.c_str()) == 0, "a directory has a file modification time");
			CHECK(kfile_last_modified(link.c_str()) == 0, "a link has a file modification time");
			continue;
		}
		if (op == 8) {
			CHECK(kfopen((dir + "/no/such").c_str(), pick(std::vector<fileModel>{fileRead, fileWrite, fileAppend}), 0) < 0, "opened a file in a missing directory");
			continue;
		}
		MHandle &h = hs[draw((uint32_t)hs.size())];
		MFile &f = mf[h.file];
		bool rd = h.model == fileRead || h.model == fileReadWrite || h.model == fileWriteRead;
		bool wr = h.model != fileRead;
		did++;
		switch (op) {
		case 1: { // write
			int len = size_dist(0, 5000);
			std::string b(len, 0);
			Rng r(draw(1000));
			for (auto &ch : b) ch = (char)r.next();
			if (h.model == fileAppend && len) h.pos = (int64_t)f.data.size();
			if (h.pos > 1000000 && wr && len) { // the model does not hold sparse files: write elsewhere
				h.pos = 0;
				CHECK(kfseek(h.fd, 0, seekBegin), "seek to the beginning failed");
			}
			int got = kfwrite(h.fd, b.data(), len);
			logf(" write %d in %s at %ld -> %d", len, mn[h.model], (long)h.pos, got);
			if (!wr) {
				CHECK(got == -1, "a write to a file opened for reading returned %d", got);
				break;
			}
			CHECK(got == len, "write of %d bytes returned %d", len, got);
			if (len) {
				if ((int64_t)f.data.size() < h.pos + len) f.data.resize(h.pos + len);
				memcpy(&f.data[h.pos], b.data(), len);
				h.pos += len;
			}
			break;
		}
		case 2: case 3: { // read / read all
			int len = size_dist(0, 5000) + (op == 3);
			std::string b(len + 8, '!');
			int64_t left = std::max<int64_t>(0, (int64_t)f.data.size() - h.pos), n = std::min<int64_t>(left, len);
			if (op == 2) {
				int got = kfread(h.fd, &b[0], len);
				logf(" read %d in %s at %ld -> %d", len, mn[h.model], (long)h.pos, got);
				if (!rd) {
					CHECK(got == -1, "a read from a file opened in mode %s returned %d", mn[h.model], got);
					break;
				}
				CHECK(got == n, "a read of %d bytes with %ld left returned %d", len, (long)left, got);
			} else {
				bool got = kfread_all(h.fd, &b[0], len);
				logf(" read_all %d in %s at %ld -> %d", len, mn[h.model], (long)h.pos, got);
				CHECK(got == (rd && left >= len), "read_all of %d bytes with %ld left returned %d", len, (long)left, got);
				if (!rd) break;
			}
			CHECK(n == 0 || memcmp(b.data(), f.data.data() + h.pos, n) == 0, "read returned other bytes than the file holds");
			for (int64_t k = n; k < len + 8; k++) CHECK(b[k] == '!', "the buffer was written beyond the data read");
			h.pos += n;
			break;
		}
		case 4: { // seek
			int whence = (int)draw(3);
			int64_t off = chance(1, 8) ? -range(1, 20000) : size_dist(0, 9000);
			if (chance(1, 3)) off = -off;
			if (chance(1, 6)) off += pick(std::vector<int64_t>{1LL << 31, 1LL << 32, 1LL << 33, -(1LL << 31), -(1LL << 32)});
			int64_t base = whence == seekBegin ? 0 : whence == seekEnd ? (int64_t)f.data.size() : h.pos;
			bool got = kfseek(h.fd, off, (seekPosion)whence);
			logf(" seek %ld whence=%d -> %d", (long)off, whence, got);
			CHECK(got == (base + off >= 0), "seek to %ld reported %d", (long)(base + off), got);
			if (got) h.pos = base + off;
			CHECK(lseek(h.fd, 0, SEEK_CUR) == h.pos, "position %ld after a seek to %ld", (long)lseek(h.fd, 0, SEEK_CUR), (long)h.pos);
			break;
		}
		case 5: { // times
			time_t t = (time_t)size_dist(1, 2000000000);
			CHECK(kfutime(h.fd, t), "kfutime failed");
			CHECK(kftime(h.fd) == t, "kftime is %ld, set to %ld", (long)kftime(h.fd), (long)t);
			CHECK(kfile_last_modified(path[h.file].c_str()) == t, "kfile_last_modified is not the time set");
			break;
		}
		case 9: { // a sparse file of several gigabytes
			if (!wr) break;
			int64_t big = pick(std::vector<int64_t>{1LL << 31, 1LL << 32, 1LL << 33, 1LL << 35}) + range(-2, 2);
			CHECK(ftruncate(h.fd, big) == 0, "ftruncate: %s", strerror(errno));
			CHECK(kfsize(h.fd) == big, "size %ld, expected %ld", (long)kfsize(h.fd), (long)big);
			CHECK(kfseek(h.fd, -1, seekEnd) && lseek(h.fd, 0, SEEK_CUR) == big - 1, "position %ld after a seek to the last byte of %ld", (long)lseek(h.fd, 0, SEEK_CUR), (long)big);
			if (rd) {
				char b[4] = {1, 1, 1, 1};
				CHECK(kfread(h.fd, b, 4) == 1 && b[0] == 0 && b[1] == 1, "read of the last byte of %ld", (long)big);
				CHECK(kfread(h.fd, b, 4) == 0, "read at the end of %ld", (long)big);
			}
			CHECK(ftruncate(h.fd, (off_t)f.data.size()) == 0, "ftruncate: %s", strerror(errno));
			CHECK(kfseek(h.fd, h.pos, seekBegin), "seek back failed");
			count("large file");
			break;
		}
		case 6:
			kfclose(h.fd);
			h = hs.back();
			hs.pop_back();
			break;
		}
		for (auto &x : hs) CHECK(kfsize(x.fd) == (int64_t)mf[x.file].data.size(), "size %ld, expected %zu", (long)kfsize(x.fd), mf[x.file].data.size());
	}
	for (auto &h : hs) kfclose(h.fd);
	CHECK(kfsize(-1) == 0 && kftime(-1) == 0, "size or time of an invalid handle");
	for (int f = 0; f < NF; f++) {
		if (mf[f].exists) {
			int fd = open(path[f].c_str(), O_RDONLY);
			std::string all(mf[f].data.size() + 10, 0);
			ssize_t got = read(fd, &all[0], all.size());
			close(fd);
			all.resize(got < 0 ? 0 : got);
			CHECK(all == mf[f].data, "file %d ends with other contents than the operations give", f);
		} else CHECK(access(path[f].c_str(), F_OK) != 0, "file %d exists although nothing created it", f);
		unlink(path[f].c_str());
	}
	unlink(link.c_str());
	rmdir(dir.c_str());
	count("files");
	if (did > 2) nontrivial();
}
static void run() {
	switch (weighted({3, 2, 2, 3})) {
	case 0: atomics(); break;
	case 1: strings(); break;
	case 2: lists(); break;
	case 3: files(); break;
	}
}

Property pbt::property = {
	"C28",
	"A case is one of: generated atomic operations of one width by 1-5 threads under a schedule; a shared string of generated bytes with holders on 1-5 threads; list operations against std::list; file operations against a byte-string model. Non-trivial = several threads, or elements removed, or more than two operations on open files.",
	run, 1, 300000, 4000000, 40, 600, 2000,
	{"sequentially consistent memory", "the scratch directory's file system follows POSIX"}};
