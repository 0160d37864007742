//go:build wrapbt

// Stands between the Go code and the native index (linker option --wrap): notices when two
// threads are inside operations on the same part of a tree and one of them writes, and
// holds operations up now and then so that such overlaps become likely.
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>

typedef struct { uint64_t key; int64_t value; int is_valid; } KVPair;

typedef struct {
	_Atomic size_t ptr;
	_Atomic int writers, scans;
	_Atomic int w[1 << 16], r[1 << 16];
} Tree;

typedef struct { _Atomic size_t iter; _Atomic(Tree*) tree; } It;

#define NTREE 64
#define NITER 4096
static _Atomic(Tree*) trees[NTREE];
static It iters[NITER];
static _Atomic uint64_t nops, nholds, seed;
static _Atomic int maxwriters, curwriters, hold_every;
static pthread_mutex_t reg = PTHREAD_MUTEX_INITIALIZER;

uint64_t wrapbt_ops(void) { return nops; }
uint64_t wrapbt_holds(void) { return nholds; }
int wrapbt_max_writers(void) { return maxwriters; }
void wrapbt_hold_every(int n) { hold_every = n; }

static void conflict(const char* what, size_t tree, int slot) {
	fprintf(stderr, "panic: native index conflict: %s while another thread is inside tree %zx, prefix %d\n", what, tree, slot);
	abort();
}

static void hold(void) {
	nops++;
	int e = hold_every;
	if (e <= 0) return;
	uint64_t s = atomic_fetch_add(&seed, 0x9E3779B97F4A7C15ull);
	s ^= s >> 29; s *= 0xBF58476D1CE4E5B9ull; s ^= s >> 32;
	if (s % (uint64_t)e == 0) {
		nholds++;
		struct timespec t = {0, 1000 * (long)(20 + s / 7 % 150)};
		nanosleep(&t, NULL);
	}
}

static Tree* find(size_t p) {
	for (int i = 0; i < NTREE; i++) {
		Tree* t = trees[i];
		if (t && t->ptr == p) return t;
	}
	return NULL;
}

size_t __real_cppbtree_new(void);
size_t __wrap_cppbtree_new(void) {
	size_t p = __real_cppbtree_new();
	pthread_mutex_lock(&reg);
	for (int i = 0; i < NTREE; i++) if (!trees[i]) {
		Tree* t = calloc(1, sizeof(Tree));
		t->ptr = p;
		trees[i] = t;
		break;
	}
	pthread_mutex_unlock(&reg);
	return p;
}

void __real_cppbtree_delete(size_t);
void __wrap_cppbtree_delete(size_t p) {
	Tree* t = find(p);
	if (t) {
		if (t->writers || t->scans) conflict("the tree is deleted", p, -1);
		t->writers++;
		hold();
		if (t->writers != 1 || t->scans) conflict("the tree is deleted", p, -1);
		pthread_mutex_lock(&reg);
		for (int i = 0; i < NTREE; i++) if (trees[i] == t) trees[i] = NULL;
		pthread_mutex_unlock(&reg);
		// t is kept: a late user must not crash the monitor
	}
	__real_cppbtree_delete(p);
}

static Tree* wbegin(size_t p, uint64_t key, const char* what) {
	Tree* t = find(p);
	if (!t) return NULL;
	int s = key >> 48;
	t->writers++;
	int c = ++curwriters, m = maxwriters;
	while (c > m && !atomic_compare_exchange_weak(&maxwriters, &m, c)) {}
	if (t->w[s]++ != 0 || t->r[s] != 0) conflict(what, p, s);
	if (t->scans) conflict(what, p, s);
	hold();
	return t;
}
static void wend(Tree* t, uint64_t key) {
	if (!t) return;
	t->w[key >> 48]--;
	curwriters--;
	t->writers--;
}

int64_t __real_cppbtree_put_new_and_get_old(size_t, uint64_t, int64_t, bool*);
int64_t __wrap_cppbtree_put_new_and_get_old(size_t p, uint64_t k, int64_t v, bool* o) {
	Tree* t = wbegin(p, k, "a key is written");
	int64_t r = __real_cppbtree_put_new_and_get_old(p, k, v, o);
	wend(t, k);
	return r;
}
void __real_cppbtree_set(size_t, uint64_t, int64_t);
void __wrap_cppbtree_set(size_t p, uint64_t k, int64_t v) {
	Tree* t = wbegin(p, k, "a key is written");
	__real_cppbtree_set(p, k, v);
	wend(t, k);
}
void __real_cppbtree_erase(size_t, uint64_t);
void __wrap_cppbtree_erase(size_t p, uint64_t k) {
	Tree* t = wbegin(p, k, "a key is deleted");
	__real_cppbtree_erase(p, k);
	wend(t, k);
}
int64_t __real_cppbtree_get(size_t, uint64_t, bool*);
int64_t __wrap_cppbtree_get(size_t p, uint64_t k, bool* ok) {
	Tree* t = find(p);
	int s = k >> 48;
	if (t) {
		t->r[s]++;
		if (t->w[s]) conflict("a key is read", p, s);
		hold();
	}
	int64_t r = __real_cppbtree_get(p, k, ok);
	if (t) t->r[s]--;
	return r;
}

static void sbegin(Tree* t, const char* what) {
	if (!t) return;
	t->scans++;
	if (t->writers) conflict(what, t->ptr, -1);
	hold();
}
static void send(Tree* t) { if (t) t->scans--; }

size_t __real_cppbtree_seek(size_t, uint64_t, bool*, bool*, bool*, bool*);
size_t __wrap_cppbtree_seek(size_t p, uint64_t k, bool* a, bool* b, bool* c, bool* d) {
	Tree* t = find(p);
	sbegin(t, "a key is sought");
	size_t it = __real_cppbtree_seek(p, k, a, b, c, d);
	send(t);
	if (t) {
		unsigned h = (unsigned)(it >> 4) % NITER;
		size_t z = 0;
		for (int i = 0; i < 64; i++, z = 0)
			if (atomic_compare_exchange_strong(&iters[(h + i) % NITER].iter, &z, it)) { iters[(h + i) % NITER].tree = t; break; }
	}
	return it;
}
static It* itfind(size_t it) {
	unsigned h = (unsigned)(it >> 4) % NITER;
	for (int i = 0; i < 64; i++) if (iters[(h + i) % NITER].iter == it) return &iters[(h + i) % NITER];
	return NULL;
}
KVPair __real_iter_next(size_t);
KVPair __wrap_iter_next(size_t it) {
	It* i = itfind(it);
	Tree* t = i ? i->tree : NULL;
	sbegin(t, "an iterator moves");
	KVPair r = __real_iter_next(it);
	send(t);
	return r;
}
KVPair __real_iter_prev(size_t);
KVPair __wrap_iter_prev(size_t it) {
	It* i = itfind(it);
	Tree* t = i ? i->tree : NULL;
	sbegin(t, "an iterator moves");
	KVPair r = __real_iter_prev(it);
	send(t);
	return r;
}
void __real_iter_delete(size_t);
void __wrap_iter_delete(size_t it) {
	It* i = itfind(it);
	if (i) { i->tree = NULL; i->iter = 0; }
	__real_iter_delete(it);
}
