// Drives the C interface of the native index with random and hostile histories, comparing
// it with std::map. Built with AddressSanitizer+UndefinedBehaviourSanitizer, with
// ThreadSanitizer, and plain (for valgrind). Prints "name value" lines; exit status 3
// and a line "FAIL ..." when an answer is wrong.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <atomic>
#include <map>
#include <set>
#include <thread>
#include <vector>
#include "cppbtree.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif
#ifdef WITH_ASAN
#include <sanitizer/allocator_interface.h>
static size_t native_bytes() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t native_bytes() { return 0; }
#endif

typedef uint64_t u64;
typedef std::map<u64, int64_t> Ref;
static const u64 LOW = ((u64)1 << 48) - 1;

struct Rnd {
	u64 s;
	explicit Rnd(u64 seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { u(); u(); }
	u64 u() {
		s ^= s << 13; s ^= s >> 7; s ^= s << 17;
		return s * 2685821657736338717ull;
	}
	u64 n(u64 m) { return (u() >> 11) % m; }
};

static void fail(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	printf("FAIL ");
	vprintf(fmt, ap);
	printf("\n");
	va_end(ap);
	fflush(stdout);
	_Exit(3);
}

struct Counts {
	u64 evals = 0, ops = 0, crossings = 0, ends = 0, turns = 0, emptied = 0, seeks_empty = 0, maxsize = 0, swept = 0;
	void add(const Counts& o) {
		evals += o.evals; ops += o.ops; crossings += o.crossings; ends += o.ends; turns += o.turns;
		emptied += o.emptied; seeks_empty += o.seeks_empty; swept += o.swept;
		if (o.maxsize > maxsize) maxsize = o.maxsize;
	}
	void print() const {
		printf("evals %llu\nops %llu\nprefix_crossings %llu\nends_reached %llu\nturns %llu\nprefixes_emptied %llu\nseeks_in_empty_prefix %llu\nmax_size %llu\nfull_walks %llu\n",
			(unsigned long long)evals, (unsigned long long)ops, (unsigned long long)crossings, (unsigned long long)ends,
			(unsigned long long)turns, (unsigned long long)emptied, (unsigned long long)seeks_empty, (unsigned long long)maxsize, (unsigned long long)swept);
	}
};

static u64 lowbits(Rnd& r) {
	switch (r.n(6)) {
	case 0: return r.n(6);
	case 1: return LOW - r.n(6);
	case 2: return (u64)1 << r.n(48);
	case 3: return r.n(4000);
	default: return r.u() & LOW;
	}
}

// slots a thread may use: those equal to rem modulo mod
static u64 slot(Rnd& r, int flavour, u64 mod, u64 rem) {
	static const u64 edge[] = {0, 1, 2, 255, 256, 0x7FFF, 0x8000, 0xFFF0, 0xFFFE, 0xFFFF};
	u64 s;
	switch (flavour) {
	case 0: s = r.n(3); break;                 // few prefixes: deep trees
	case 1: s = edge[r.n(10)]; break;
	case 2: s = r.n(65536); break;             // about one key per prefix
	case 3: s = 1000 + r.n(200); break;
	default: s = 65535 - r.n(3); break;
	}
	if (mod > 1) {
		s = (s - s % mod + rem) & 0xFFFF;
	}
	return s;
}

static int64_t value(Rnd& r) {
	switch (r.n(8)) {
	case 0: return 0;
	case 1: return (int64_t)LOW;
	case 2: return (int64_t)1 << r.n(48);
	default: return (int64_t)(r.u() & LOW);
	}
}

static void expect(const KVPair& p, bool valid, const Ref::iterator& it, const char* what, u64 key) {
	if (!valid) {
		if (p.is_valid) fail("%s %016llx: expected the end, got %016llx", what, (unsigned long long)key, (unsigned long long)p.key);
		return;
	}
	if (!p.is_valid || p.key != it->first || p.value != it->second)
		fail("%s %016llx: got %016llx=%lld (valid %d), expected %016llx=%lld", what, (unsigned long long)key,
			(unsigned long long)p.key, (long long)p.value, p.is_valid, (unsigned long long)it->first, (long long)it->second);
}

// walk moves an iterator back and forth at random and past the ends
static void walk(size_t tree, Ref& ref, u64 key, int steps, Rnd& r, Counts& c, int mode) {
	bool eq, larger, valid, ending;
	size_t e = cppbtree_seek(tree, key, &eq, &larger, &valid, &ending);
	c.evals++;
	Ref::iterator it = ref.lower_bound(key);
	bool weq = it != ref.end() && it->first == key;
	bool wend = it == ref.end();
	if (eq != weq) fail("seek %016llx: equal %d, expected %d", (unsigned long long)key, eq, weq);
	if (ending != wend) fail("seek %016llx: ending %d, expected %d", (unsigned long long)key, ending, wend);
	if (valid != !ref.empty()) fail("seek %016llx: valid %d with %zu keys", (unsigned long long)key, valid, ref.size());
	if (larger != (!weq && !wend)) fail("seek %016llx: larger %d", (unsigned long long)key, larger);
	bool ok = !ref.empty();
	if (wend && ok) --it; // it stands at the last key then
	bool fwd = mode == 0 ? true : mode == 1 ? false : r.n(2);
	for (int i = 0; i < steps; i++) {
		if (mode == 2 && r.n(3) == 0) { fwd = !fwd; c.turns++; }
		KVPair p = fwd ? iter_next(e) : iter_prev(e);
		c.evals++;
		expect(p, ok, it, fwd ? "next from" : "prev from", key);
		if (!ok) { c.ends++; if (r.n(4) == 0) break; continue; }
		u64 at = it->first;
		if (fwd) { ++it; if (it == ref.end()) ok = false; }
		else if (it == ref.begin()) ok = false;
		else --it;
		if (ok && (it->first >> 48) != (at >> 48)) c.crossings++;
	}
	iter_delete(e);
}

static void history(size_t tree, Ref& ref, Rnd& r, Counts& c, int flavour, u64 mod, u64 rem, int nops, bool alone, std::atomic<int>* who, int self, std::atomic<u64>* switches) {
	std::vector<u64> pool;
	int np = r.n(4) ? 200 + r.n(3000) : 20000;
	for (int i = 0; i < np; i++) pool.push_back(slot(r, flavour, mod, rem) << 48 | lowbits(r));
	int bias = 60;
	for (int op = 0; op < nops; op++) {
		if (op % 997 == 0) bias = (np > 10000 ? 40 : 20) + (int)r.n(np > 10000 ? 60 : 70);
		u64 k = pool[r.n(pool.size())];
		if (who && who->exchange(self, std::memory_order_relaxed) != self) switches->fetch_add(1, std::memory_order_relaxed);
		c.ops++;
		int x = (int)r.n(100);
		if (x < bias) {
			int64_t v = value(r);
			if (r.n(2)) {
				bool old = false;
				int64_t w = cppbtree_put_new_and_get_old(tree, k, v, &old);
				Ref::iterator it = ref.find(k);
				c.evals++;
				if (old != (it != ref.end()) || (old && w != it->second))
					fail("overwriting %016llx reports %lld (%d)", (unsigned long long)k, (long long)w, old);
			} else cppbtree_set(tree, k, v);
			ref[k] = v;
		} else {
			if (r.n(3) && !ref.empty()) {
				Ref::iterator it = ref.lower_bound(k);
				if (it != ref.end()) k = it->first;
			}
			cppbtree_erase(tree, k);
			ref.erase(k);
			Ref::iterator it = ref.lower_bound(k & ~LOW);
			if (it == ref.end() || it->first >> 48 != k >> 48) c.emptied++;
		}
		if (r.n(3) == 0) {
			u64 q = r.n(2) ? pool[r.n(pool.size())] : (slot(r, flavour, mod, rem) << 48 | lowbits(r));
			bool ok = false;
			int64_t v = cppbtree_get(tree, q, &ok);
			Ref::iterator it = ref.find(q);
			c.evals++;
			if (ok != (it != ref.end()) || (ok && v != it->second)) fail("get %016llx: %lld (%d)", (unsigned long long)q, (long long)v, ok);
		}
		if (ref.size() > c.maxsize) c.maxsize = ref.size();
		if (!alone) {
			if (r.n(16) == 0 && cppbtree_size(tree) > (size_t)1 << 40) fail("size went below zero");
			continue;
		}
		if (r.n(4) == 0) {
			c.evals++;
			if (cppbtree_size(tree) != ref.size()) fail("size %zu, expected %zu", cppbtree_size(tree), ref.size());
		}
		if (r.n(12) == 0) {
			u64 q = pool[r.n(pool.size())];
			switch (r.n(8)) {
			case 0: q++; break;
			case 1: q--; break;
			case 2: q = 0; break;
			case 3: q = ~(u64)0; break;
			case 4: q = r.u(); c.seeks_empty++; break;
			case 5: q |= LOW; break;
			case 6: if (!ref.empty()) q = r.n(2) ? ref.begin()->first : ref.rbegin()->first; break;
			}
			walk(tree, ref, q, (int)r.n(40), r, c, (int)r.n(3));
		}
		if (r.n(4000) == 0) { // remove everything, or a range, one by one
			u64 from = r.n(2) ? 0 : k;
			std::vector<u64> all;
			for (Ref::iterator it = ref.lower_bound(from); it != ref.end(); ++it) all.push_back(it->first);
			for (size_t i = all.size(); i > 1; i--) if (i % 2) std::swap(all[i - 1], all[r.n(i)]);
			for (size_t i = 0; i < all.size(); i++) { cppbtree_erase(tree, all[i]); cppbtree_erase(tree, all[i]); ref.erase(all[i]); }
			c.emptied += all.size() > 0;
			walk(tree, ref, k, 3, r, c, 2);
		}
	}
}

static void sweep(size_t tree, Ref& ref, Rnd& r, Counts& c) {
	if (cppbtree_size(tree) != ref.size()) fail("size %zu, expected %zu", cppbtree_size(tree), ref.size());
	walk(tree, ref, 0, (int)ref.size() + 3, r, c, 0);
	walk(tree, ref, ~(u64)0, (int)ref.size() + 3, r, c, 1);
	c.swept += 2;
}

int main(int argc, char** argv) {
	if (argc < 4) return 2;
	u64 seed = strtoull(argv[2], 0, 10);
	int nops = atoi(argv[3]);
	Rnd r(seed);
	Counts c;
	if (!strcmp(argv[1], "seq")) {
		size_t base = 0;
		for (int round = 0; round < 11; round++) {
			if (round == 1) base = native_bytes(); // after stdio and libstdc++ settled
			{
				Ref ref;
				size_t tree = cppbtree_new();
				if (round % 4 == 3) { // an empty tree
					walk(tree, ref, r.u(), 3, r, c, 2);
					walk(tree, ref, 0, 3, r, c, 0);
					walk(tree, ref, ~(u64)0, 3, r, c, 1);
				}
				history(tree, ref, r, c, round % 5, 1, 0, nops, true, 0, 0, 0);
				sweep(tree, ref, r, c);
				// trees with live data, emptied ones and never used ones are deleted alike
				if (round % 3 == 2) while (!ref.empty()) { cppbtree_erase(tree, ref.begin()->first); ref.erase(ref.begin()); }
				if (round % 6 == 5) { size_t t2 = cppbtree_new(); cppbtree_delete(t2); }
				cppbtree_delete(tree);
			}
			c.evals++;
			if (round >= 1 && native_bytes() != base) fail("%lld bytes were not released after the tree was deleted", (long long)native_bytes() - (long long)base);
		}
		c.print();
	} else if (!strcmp(argv[1], "threads")) {
		int T = 8;
		std::atomic<int> who(-1);
		std::atomic<u64> switches(0);
		u64 phases = 0;
		for (int round = 0; round < 5; round++) {
			size_t tree = cppbtree_new();
			std::vector<Ref> refs(T);
			Ref all;
			for (int phase = 0; phase < 4; phase++) {
				std::vector<std::thread> ths;
				std::vector<Counts> cs(T);
				std::atomic<int> ready(0);
				for (int t = 0; t < T; t++) ths.emplace_back([&, t]() {
					Rnd rr(seed * 1000 + round * 100 + phase * 10 + t);
					ready++;
					while (ready < T) {}
					history(tree, refs[t], rr, cs[t], (round + phase) % 5, T, t, nops, false, &who, t, &switches);
				});
				for (auto& th : ths) th.join();
				for (auto& x : cs) c.add(x);
				all.clear();
				for (auto& x : refs) all.insert(x.begin(), x.end());
				sweep(tree, all, r, c); // the count must be exact again
				// readers at the same time
				std::vector<std::thread> rd;
				std::vector<Counts> rcs(T);
				for (int t = 0; t < T; t++) rd.emplace_back([&, t]() {
					Rnd rr(seed * 2000 + round * 100 + phase * 10 + t);
					for (int i = 0; i < 30; i++) {
						u64 q = (slot(rr, (int)rr.n(5), 1, 0) << 48 | lowbits(rr));
						walk(tree, all, q, 20, rr, rcs[t], (int)rr.n(3));
						bool ok = false;
						int64_t v = cppbtree_get(tree, q, &ok);
						Ref::iterator it = all.find(q);
						if (ok != (it != all.end()) || (ok && v != it->second)) fail("get %016llx", (unsigned long long)q);
						if (cppbtree_size(tree) != all.size()) fail("size %zu, expected %zu", cppbtree_size(tree), all.size());
					}
				});
				for (auto& th : rd) th.join();
				for (auto& x : rcs) c.add(x);
				phases++;
			}
			cppbtree_delete(tree);
		}
		c.print();
		printf("phases %llu\nthread_switches %llu\n", (unsigned long long)phases, (unsigned long long)switches.load());
	} else return 2;
	printf("done 1\n");
	return 0;
}
