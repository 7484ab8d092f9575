// kv: variant=std
// Red-black tree against std::map, with structural invariants.
#include "kh.h"
using namespace pbt;
extern void rb_replace_node(struct krb_node *victim, struct krb_node *n, struct krb_root *root);

enum { INT, STR, CASE, FIL };
struct Key { int i; const char *s; }; // data of a node points to one of the members
struct Less {
	int k;
	bool operator()(const std::pair<int, std::string> &a, const std::pair<int, std::string> &b) const {
		switch (k) {
		case INT: return a.first < b.first;
		case CASE: return strcasecmp(a.second.c_str(), b.second.c_str()) < 0;
		default: return strcmp(a.second.c_str(), b.second.c_str()) < 0;
		}
	}
};
typedef std::pair<int, std::string> V;
static std::set<krb_node *> freed_by_fn;
static int made;
static krb_node *make_node() {
	made++;
	krb_node *n = (krb_node *)malloc(sizeof *n);
	memset(n, 0xd7, sizeof *n);
	return n;
}
static int n_freed;
static void drop_node(krb_node *n) { n_freed++; free(n); }
static int black_height(const krb_node *n, const krb_node *parent, long &cnt, int &depth) {
	if (!n) { depth = 0; return 1; }
	CHECK((krb_node *)(n->rb_parent_color & ~(uintptr_t)3) == parent, "a node's parent link is wrong");
	bool red = !(n->rb_parent_color & 1);
	if (red) {
		CHECK(parent, "the root is red");
		CHECK(parent->rb_parent_color & 1, "a red node has a red parent");
	}
	cnt++;
	int dl, dr;
	int l = black_height(n->rb_left, n, cnt, dl), r = black_height(n->rb_right, n, cnt, dr);
	CHECK(l == r, "paths with different numbers of black nodes: %d and %d", l, r);
	depth = 1 + std::max(dl, dr);
	return l + !red;
}
struct It { int mode; std::vector<int> act; size_t at; std::vector<void *> seen; };
static iterator_ret on_item(void *data, void *arg) {
	It *t = (It *)arg;
	t->seen.push_back(data);
	int a = t->at < t->act.size() ? t->act[t->at] : 0;
	t->at++;
	switch (a) {
	case 1: return iterator_remove_continue;
	case 2: return iterator_break;
	case 3: return iterator_remove_break;
	}
	return iterator_continue;
}
static void run() {
	int kind = (int)weighted({4, 1, 1, 1});
	comprbt cmp = kind == INT ? rbtree_int_cmp : kind == STR ? rbtree_string_cmp : kind == CASE ? rbtree_string_case_cmp : rbtree_file_cmp;
	krb_tree local, *rb = &local;
	bool heap = chance(1, 2);
	if (heap) rb = rbtree_create();
	else memset(&local, 0xa5, sizeof local), rbtree_init(rb);
	CHECK(rbtree_is_empty(rb) && !rb_first(&rb->root) && !rb_last(&rb->root), "a new tree is not empty");
	// pool of keys
	int nk = size_dist(1, 300), style = (int)draw(4);
	std::vector<V> keys;
	static const int edge[] = {0, 1, -1, 2147483647, (-2147483647 - 1), 2147483646, -2147483647, 1 << 30, -(1 << 30)};
	for (int i = 0; i < nk; i++) {
		V v;
		switch (style) {
		case 0: v.first = i; break;
		case 1: v.first = nk - i; break;
		case 2: v.first = chance(1, 2) ? edge[draw(9)] : (int)draw64(); break;
		default: v.first = (int)draw(64) - 32; break;
		}
		if (kind != INT) {
			int n = (int)draw(4);
			for (int j = 0; j < n; j++) v.second += "aAbB\x80\xff"[draw(6)];
		}
		keys.push_back(v);
	}
	std::map<V, krb_node *, Less> m(Less{kind});
	std::vector<std::unique_ptr<Key>> live;
	auto data_of = [&](const V &v) -> void * {
		live.emplace_back(new Key);
		Key *k = live.back().get();
		k->i = v.first;
		k->s = NULL;
		if (kind == INT) return &k->i;
		k->s = strdup(v.second.c_str());
		return &k->s;
	};
	int ops = size_dist(1, 600), maxn = 0, rot = 0;
	logf("comparator %d style %d keys %d operations %d", kind, style, nk, ops);
	int bias = (int)draw(3); // grow, mixed, shrink in the second half
	for (int o = 0; o < ops; o++) {
		size_t ki;
		if (style < 2 && chance(3, 4)) ki = o % nk;
		else ki = draw(nk);
		const V &v = keys[ki];
		void *key = data_of(v);
		auto it = m.find(v);
		uint32_t ins = bias == 2 && o > ops / 2 ? 1 : 6;
		switch (weighted({ins, 3, 2, 1, 1, 1})) {
		case 0: {
			int flag = 77;
			bool own = chance(1, 2);
			made = 0;
			krb_node *n = own ? rbtree_insert2(rb, key, &flag, cmp, make_node) : rbtree_insert(rb, key, &flag, cmp);
			CHECK(n, "insert returned nothing");
			if (it == m.end()) {
				CHECK(flag == 1, "inserting a new key reported %d", flag);
				CHECK(!own || made == 1, "insert called the node constructor %d times", made);
				n->data = key;
				m[v] = n;
			} else {
				CHECK(flag == 0 && n == it->second && made == 0, "inserting a present key gave flag %d or another node", flag);
			}
			break;
		}
		case 1: {
			if (it == m.end()) break;
			krb_node *n = it->second;
			if (n->rb_left && n->rb_right) rot++;
			if (chance(1, 2)) {
				n_freed = 0;
				rbtree_remove2(rb, n, drop_node);
				CHECK(n_freed == 1, "remove2 freed %d nodes", n_freed);
			} else rbtree_remove(rb, n);
			m.erase(it);
			break;
		}
		case 2: {
			krb_node *n = rbtree_find(rb, key, cmp);
			CHECK(n == (it == m.end() ? NULL : it->second), "find is wrong for a %s key", it == m.end() ? "missing" : "present");
			break;
		}
		case 3: {
			int r = 12345;
			krb_node *n = rbtree_find2(rb, key, cmp, &r);
			if (m.empty()) CHECK(!n, "find2 on an empty tree");
			else if (it != m.end()) CHECK(n == it->second && r == 0, "find2 did not find a present key");
			else {
				// the neighbour the key would be linked to
				CHECK(n && r != 0 && r != 12345, "find2 reports a missing key as present");
				auto up = m.upper_bound(v);
				if (r < 0) CHECK(up != m.end() && up->second == n && !n->rb_left, "find2 stopped at the wrong node");
				else CHECK(up != m.begin() && std::prev(up)->second == n && !n->rb_right, "find2 stopped at the wrong node");
			}
			break;
		}
		case 4: {
			krb_node *n = rbtree_find_cover(rb, key, cmp), *want = NULL;
			if (!m.empty()) {
				auto up = m.upper_bound(v);
				want = up == m.begin() ? m.rbegin()->second : std::prev(up)->second;
			}
			CHECK(n == want, "find_cover did not return the greatest key not above the given one");
			break;
		}
		default: {
			if (it == m.end()) break;
			krb_node *n = make_node();
			rb_replace_node(it->second, n, &rb->root);
			free(it->second);
			it->second = n;
			break;
		}
		}
		maxn = std::max(maxn, (int)m.size());
		if (o % 8 == 0 || o + 1 == ops || m.size() < 12) {
			long cnt = 0;
			int depth;
			black_height(rb->root.rb_node, NULL, cnt, depth);
			CHECK(cnt == (long)m.size(), "the tree holds %ld nodes, %zu keys expected", cnt, m.size());
			CHECK(rbtree_is_empty(rb) == m.empty(), "is_empty is wrong");
			CHECK((1l << (depth / 2)) <= cnt + 1, "height %d for %ld keys", depth, cnt);
			krb_node *n = rb_first(&rb->root);
			for (auto &e : m) {
				CHECK(n == e.second, "forward iteration differs from the sorted keys");
				n = rb_next(n);
			}
			CHECK(!n, "forward iteration has extra nodes");
			n = rb_last(&rb->root);
			for (auto r = m.rbegin(); r != m.rend(); ++r) {
				CHECK(n == r->second, "backward iteration differs from the sorted keys");
				n = rb_prev(n);
			}
			CHECK(!n, "backward iteration has extra nodes");
		}
	}
	// iterate with removals
	for (int round = (int)draw(3); round >= 0; round--) {
		It t;
		t.at = 0;
		std::vector<void *> want;
		std::vector<V> gone;
		bool brk = false;
		size_t i = 0;
		for (auto &e : m) {
			int a = round == 0 ? 1 : (int)weighted({6, 4, 0, 0});
			if (round && chance(1, 40)) a = 2 + (int)draw(2);
			t.act.push_back(a);
			if (!brk) {
				want.push_back(e.second->data);
				if (a & 1) gone.push_back(e.first);
				if (a >= 2) brk = true;
			}
			i++;
		}
		rbtree_iterator(rb, on_item, &t);
		CHECK(t.seen == want, "the iterator visited %zu items, expected %zu in order", t.seen.size(), want.size());
		for (auto &g : gone) m.erase(g);
		long cnt = 0;
		int depth;
		black_height(rb->root.rb_node, NULL, cnt, depth);
		CHECK(cnt == (long)m.size(), "after the iteration the tree holds %ld nodes, %zu expected", cnt, m.size());
		krb_node *n = rb_first(&rb->root);
		for (auto &e : m) {
			CHECK(n == e.second, "after the iteration the keys differ");
			n = rb_next(n);
		}
		CHECK(!n, "after the iteration the tree has extra nodes");
	}
	CHECK(rbtree_is_empty(rb), "the tree is not empty at the end");
	for (auto &k : live) free((void *)k->s);
	if (heap) rbtree_destroy(rb);
	static const char *kn[] = {"integer", "string", "case-insensitive", "file name"};
	count((std::string(kn[kind]) + " keys").c_str());
	if (rot) count("removed inner nodes", rot);
	if (maxn > 100) count("more than 100 keys");
	if (maxn >= 8 && ops >= 16) nontrivial();
}
Property pbt::property = {
	"C19",
	"A case draws a comparator, 1-300 keys (ascending, descending, edge values, few distinct) and 1-600 operations (insert, remove, find, find2, find_cover, replace, iterate with removals); non-trivial = at least 16 operations and 8 keys at once.",
	run, 50, 2000000, 40000000, 25, 400, 2000,
	{"reference: std::map with the same order", "single-threaded use"}};
