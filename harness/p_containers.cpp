// C22 vector, C23 dictionary, C24 sparse array: random operation histories against list/map models.
#include "../engine/engine.hpp"
#include "shim.h"
#include <cstring>
#include <cstdlib>
#include <map>
#include <memory>
#include <algorithm>
using namespace pbt;

static std::string hex(const void *p, size_t n) { return quote(std::string((const char *)p, n), 40); }

// --- C22 --------------------------------------------------------------------------------------------
struct VElem { std::string bytes; size_t known; }; // only the first `known` bytes are specified

static void vec_compare(void *v, const std::vector<VElem> &m, size_t isz, const char *when) {
	CHECK(sh_vec_count(v) == m.size(), "%s: length is %zu, expected %zu", when, sh_vec_count(v), m.size());
	for (size_t i = 0; i < m.size(); i++) {
		const void *e = sh_vec_get(v, i);
		CHECK(e, "%s: element %zu of %zu is missing", when, i, m.size());
		CHECK(memcmp(e, m[i].bytes.data(), m[i].known) == 0, "%s: element %zu is %s, expected %s", when, i, hex(e, m[i].known).c_str(), hex(m[i].bytes.data(), m[i].known).c_str());
	}
	CHECK(!sh_vec_get(v, m.size()), "%s: element at the length exists", when);
}

// Several vectors in turn: one must not show in the other.
static void vec_case(Gen &g, Ctx &c) {
	size_t live = g.below(5) == 4 ? 2 + g.below(2) : 1;
	struct One { void *v; size_t isz, cap; std::vector<VElem> m; };
	std::vector<One> all;
	size_t growths = 0; bool reversed = false, failed_alloc = false, shortish = false, ptrs = false, over = false, init0 = false;
	static const size_t sizes[] = {1, 2, 3, 4, 7, 8, 8, 8, 12, 16, 24, 33, 64, 100, 548, 256, 257, 1000, 5000};
	for (size_t i = 0; i < live; i++) {
		size_t isz = sizes[g.below(60) == 59 ? 15 + g.below(4) : g.below(15)], init = g.weighted({3, 4, 2}) == 0 ? 0 : g.size(1, 70);
		c.show("item size %zu, initial capacity %zu: ", isz, init);
		void *v = sh_vec_new(isz, init);
		CHECK(v, "vector_new failed"); init0 |= init == 0;
		all.push_back({v, isz, init, {}});
	}
	size_t nops = g.size(1, g.below(60) == 59 ? 2500 : 90);
	bool check_each = nops <= 90;
	for (size_t op = 0; op < nops; op++) {
		size_t w = live > 1 ? g.below((uint32_t)live) : 0; if (live > 1) c.show(" %zu:", w);
		One &one = all[w]; void *v = one.v; size_t isz = one.isz, &cap = one.cap; std::vector<VElem> &m = one.m;
		size_t k = g.weighted({10, 4, 4, 3, 1, 1, 1, 1, 2});
		bool inject = g.below(6) == 5;
		auto pushed = [&](VElem e) { if (m.size() >= cap) { growths++; cap = cap ? cap * 2 : 1; } m.push_back(std::move(e)); };
		if (k == 0 || k == 1 || k == 2) {
			size_t n = k == 0 ? isz : k == 1 ? g.below(isz + 1) : isz;
			if (n > isz) n = isz;
			std::string val = g.bytes(n, 2);
			if (n < isz) shortish = true;
			std::unique_ptr<Exact> src(new Exact(val));
			long fails = alloc_failures;
			if (inject) fail_alloc_in = 1;
			int rc = sh_vec_append(v, src->p, n);
			fail_alloc_in = 0;
			src.reset();
			c.show(" append(%s)%s", hex(val.data(), n).c_str(), alloc_failures > fails ? "[no memory]" : "");
			if (alloc_failures > fails) { failed_alloc = true; CHECK(rc == 0 || rc == 1, "append returned %d", rc); }
			else CHECK(rc == 1, "append returned %d", rc);
			if (rc == 1) {
				std::string full = val; if (n < isz) full += '\0'; size_t known = n ? full.size() : isz; full.resize(isz); // of no bytes: all zero
				pushed({full, known});
			}
		} else if (k == 3) {
			char x = 0; void *p = (void *)(uintptr_t)g.u64(); (void)x;
			long fails = alloc_failures;
			if (inject) fail_alloc_in = 1;
			int rc = sh_vec_append_ptr(v, p);
			fail_alloc_in = 0;
			c.show(" append_ptr");
			if (isz != sizeof(void *)) { CHECK(rc == 0, "append_ptr to a vector of %zu-byte items returned %d", isz, rc); }
			else {
				if (alloc_failures > fails) failed_alloc = true; else CHECK(rc == 1, "append_ptr returned %d", rc);
				if (rc == 1) { pushed({std::string((const char *)&p, sizeof p), sizeof p}); ptrs = true; }
			}
		} else if (k == 4) {
			std::string big = g.bytes(isz + 1 + g.below(20), 2);
			Exact src(big);
			c.show(" append(too large)");
			CHECK(sh_vec_append(v, src.p, big.size()) == 0, "appending %zu bytes to a vector of %zu-byte items was accepted", big.size(), isz);
			over = true;
		} else if (k == 5) {
			c.show(" append(NULL)");
			int rc = sh_vec_append(v, nullptr, g.flip() ? isz : 0);
			CHECK(rc == 1, "appending an empty item returned %d", rc);
			pushed({std::string(isz, '\0'), isz});
		} else if (k == 6 || k == 8) {
			long fails = alloc_failures;
			if (inject && k == 6) fail_alloc_in = 1;
			int rc = sh_vec_reverse(v);
			fail_alloc_in = 0;
			c.show(" reverse");
			if (alloc_failures > fails) { CHECK(rc == 0 || rc == 1, "reverse returned %d", rc); failed_alloc = true; }
			else CHECK(rc == 1, "reverse returned %d", rc);
			if (rc == 1) { std::vector<VElem> r(m.rbegin(), m.rend()); m = r; reversed |= m.size() > 1; }
		} else {
			unsigned i = g.flip() ? (unsigned)m.size() + g.below(100) : 0xffffffffu - g.below(3);
			if (i >= m.size()) CHECK(!sh_vec_get(v, i), "element %u exists in a vector of length %zu", i, m.size());
		}
		if (check_each) vec_compare(v, m, isz, "after an operation");
	}
	for (auto &one : all) { vec_compare(one.v, one.m, one.isz, "at the end"); c.nontrivial |= growths > 0 && one.m.size() > 1; if (one.m.size() > 256) c.label("over 256 items"); }
	for (auto &one : all) { sh_vec_free(one.v); one.v = nullptr; for (auto &o : all) if (o.v) vec_compare(o.v, o.m, o.isz, "after another vector was freed"); }
	if (live > 1) c.label("several vectors in turn");
	if (growths) c.label("capacity grew"); if (init0) c.label("initial capacity 0"); if (reversed) c.label("reversed"); if (failed_alloc) c.label("allocation failed");
	if (shortish) c.label("short items"); if (ptrs) c.label("pointers"); if (over) c.label("oversized item");
}
// A long vector: positions and lengths that do not fit into 16 bits.
static void vec_long(Gen &g, Ctx &c) {
	size_t isz = 1 + g.below(9), init = g.below(70), n = (size_t)g.range(1, 200000), step = 1 + g.below(1000);
	uint64_t mul = 2 * g.u64() + 1;
	c.show("item size %zu, initial capacity %zu, %zu appends:", isz, init, n); c.label("long vector"); c.keep = false;
	void *v = sh_vec_new(isz, init); CHECK(v, "vector_new failed");
	bool reversed = false; size_t count = 0;
	auto value = [&](size_t k) { uint64_t x = (k + 1) * mul; x ^= x >> 29; return x; };
	// Before the reversal element i is value(i); after it the order is reversed, and later appends follow.
	size_t turn = g.flip() ? (size_t)g.range(0, (int64_t)n) : n;
	auto expect = [&](size_t i) { return reversed && i < turn ? value(turn - 1 - i) : value(i); };
	auto scan = [&](size_t by) { for (size_t i = 0; i < count; i += by) { char w[16] = {0}; uint64_t x = expect(i); memcpy(w, &x, 8); const void *e = sh_vec_get(v, i); CHECK(e && memcmp(e, w, isz) == 0, "element %zu of %zu is %s, expected %s", i, count, e ? hex(e, isz).c_str() : "missing", hex(w, isz).c_str()); } };
	for (; count <= n; count++) {
		if (count == turn) { CHECK(sh_vec_reverse(v) == 1, "reverse of %zu elements", count); reversed = true; c.show(" reverse at %zu", count); scan(1); }
		if (count == n) break;
		char w[16] = {0}; uint64_t x = value(count); memcpy(w, &x, 8); CHECK(sh_vec_append(v, w, isz) == 1, "append %zu", count);
	}
	CHECK(sh_vec_count(v) == n, "length is %zu after %zu appends", sh_vec_count(v), n);
	scan(step); CHECK(!sh_vec_get(v, n), "element at the length exists");
	sh_vec_free(v); c.nontrivial = n > init;
}
static void vec_prop(Gen &g, Ctx &c) {
	if (g.example == 0) { // zero capacity, pointers only, slack byte
		void *v = sh_vec_new(8, 0); int x;
		for (int i = 0; i < 5; i++) CHECK(sh_vec_append_ptr(v, &x) == 1, "append_ptr");
		for (int i = 0; i < 5; i++) CHECK(sh_vec_append(v, "12345678", 8) == 1, "append");
		sh_vec_free(v); return;
	}
	if (g.example == 1) {
		CHECK(sh_vec_append(nullptr, "a", 1) == 0 && sh_vec_append_ptr(nullptr, "a") == 0 && !sh_vec_get(nullptr, 0) && sh_vec_reverse(nullptr) == 0, "operations on no vector");
		sh_vec_free(nullptr); return;
	}
	if (g.below(2500) == 2499) vec_long(g, c); else vec_case(g, c);
}

// --- C23 --------------------------------------------------------------------------------------------
// Keys with equal 64-bit FNV-1a hashes: a known pair, and known texts of hash 0 (which stays 0 when NULs follow).
static const std::vector<std::string> &colliding() {
	static const std::vector<std::string> k{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "!0IC=VloaY", "QvXtM>@Fp%", "77kepQFQ8Kl"};
	return k;
}
static void dict_case(Gen &g, Ctx &c, bool leakcheck) {
	(void)leakcheck; size_t collisions = 0;
	size_t live = g.below(5) == 4 ? 2 + g.below(2) : 1;
	struct One { void *d; std::map<std::string, std::string> m; };
	std::vector<One> all(live);
	for (auto &o : all) { o.d = sh_dict_new(); CHECK(o.d, "sparse_dict_init failed"); }
	size_t nops = g.below(20) == 19 ? g.size(200, 2500) : g.size(1, 120);
	int style = g.below(4);
	size_t longkeys = 0, self = 0, nomem = 0, overwrites = 0, misses = 0, grew = 0;
	std::vector<std::string> pool;
	auto make_key = [&]() -> std::string {
		size_t how = g.weighted({4, 2, 2, 2});
		if (!pool.empty() && how == 1) return g.pick(pool);
		if (!pool.empty() && how == 2) { std::string k = g.pick(pool); return k.size() > 1 && g.flip() ? k.substr(0, k.size() - 1 - g.below(k.size() - 1)) : k + g.text(1 + g.below(3), std::string("ab\0\xff", 4)); }
		if (how == 3) {
			if (g.below(3) < 2) return "key" + std::to_string(g.below(3000));
			std::string k = g.pick(colliding()); size_t n = g.below(4); // all of these hash alike, and stay so with equal ends
			collisions++; if (n == 1) k += std::string(g.below(4), '\0'); if (n == 2) k += "tail"; if (n == 3) k += g.text(g.below(3), "ab"); return k;
		}
		size_t n = g.below(2000) == 1999 ? (size_t)g.range(65000, 140000) : g.size(0, 700);
		return g.bytes(n, style == 0 ? 2 : style == 1 ? 4 : style == 2 ? 1 : 3);
	};
	for (size_t op = 0; op < nops; op++) {
		size_t w = live > 1 ? g.below((uint32_t)live) : 0; if (live > 1) c.show("%zu:", w);
		void *d = all[w].d; std::map<std::string, std::string> &m = all[w].m;
		std::string k = make_key();
		if (k.size() >= 256) longkeys++;
		unsigned what = g.below(16);
		if (what == 15 && m.count(k)) { // its own value again, straight from the dictionary
			Exact ek(k); size_t n = 0; void *p = sh_dict_get(d, ek.p, k.size(), &n);
			CHECK(p && n == m[k].size(), "key %s has %zu bytes, expected %zu", quote(k, 60).c_str(), n, m[k].size());
			CHECK(sh_dict_set(d, ek.p, k.size(), p, n) == 1, "storing key %s (entry %zu) was refused", quote(k, 60).c_str(), m.size());
			overwrites++; self++; c.show("set(%s, its own value) ", quote(k, 24).c_str());
		} else if (what == 14) { // without memory: nothing else may change, and this key has its old or its new value
			std::string v = g.bytes(g.size(0, 100), 2); Exact ek(k), ev(v); long before = alloc_failures;
			fail_alloc_in = 1 + g.below(3); int rc = sh_dict_set(d, ek.p, k.size(), ev.p, v.size()); fail_alloc_in = 0;
			bool failed = alloc_failures > before; c.show("set(%s, %zu bytes)%s ", quote(k, 24).c_str(), v.size(), failed ? "[no memory]" : "");
			if (!failed) { CHECK(rc == 1, "storing key %s (entry %zu) was refused with %d", quote(k, 60).c_str(), m.size(), rc); m[k] = v; pool.push_back(k); }
			else {
				nomem++; size_t n = 0; void *p = sh_dict_get(d, ek.p, k.size(), &n); std::string now = p ? std::string((char *)p, n) : "";
				bool old = m.count(k) ? p && now == m[k] : !p, new_ = p && now == v;
				CHECK(rc == 1 ? new_ : old || new_, "after storing key %s without memory it holds %s", quote(k, 60).c_str(), p ? hex(p, n).c_str() : "nothing");
				if (new_ && !old) { m[k] = v; pool.push_back(k); }
			}
		} else if (what < 10) {
			std::string v = g.bytes(g.below(4000) == 3999 ? (size_t)g.range(60000, 200000) : g.size(0, 600), g.flip() ? 2 : 1);
			if (m.count(k)) overwrites++;
			{
				Exact ek(k), ev(v);
				int rc = sh_dict_set(d, ek.p, k.size(), ev.p, v.size());
				CHECK(rc == 1, "storing key %s (entry %zu) was refused with %d", quote(k, 60).c_str(), m.size(), rc);
				memset(ek.p, 0x5a, k.size()); memset(ev.p, 0x5a, v.size());
			}
			m[k] = v; pool.push_back(k);
			c.show("set(%s, %zu bytes) ", quote(k, 24).c_str(), v.size());
		} else {
			Exact ek(k); size_t n = 12345;
			void *got = sh_dict_get(d, ek.p, k.size(), &n);
			auto it = m.find(k);
			c.show("get(%s) ", quote(k, 24).c_str());
			if (it == m.end()) { misses++; CHECK(!got, "key %s was never stored but has a value", quote(k, 60).c_str()); }
			else CHECK(got && n == it->second.size() && memcmp(got, it->second.data(), n) == 0, "key %s: got %s, expected %s", quote(k, 60).c_str(), got ? hex(got, n).c_str() : "nothing", quote(it->second, 40).c_str());
		}
	}
	for (auto &one : all) {
	void *d = one.d; std::map<std::string, std::string> &m = one.m;
	grew = std::max(grew, m.size());
	for (auto &e : m) {
		Exact ek(e.first); size_t n = 12345;
		bool without_size = g.example < 0 && (e.second.size() & 7) == 7;
		void *got = sh_dict_get(d, ek.p, e.first.size(), without_size ? nullptr : &n);
		if (without_size) n = e.second.size();
		CHECK(got && n == e.second.size() && memcmp(got, e.second.data(), n) == 0, "at the end (%zu entries), key %s: got %s, expected %s", m.size(), quote(e.first, 60).c_str(), got ? hex(got, n).c_str() : "nothing", quote(e.second, 40).c_str());
	}
	for (int i = 0; i < 5; i++) {
		std::string k = "absent" + std::to_string(i); Exact ek(k); size_t n;
		if (!m.count(k)) CHECK(!sh_dict_get(d, ek.p, k.size(), &n), "key %s was never stored but has a value", k.c_str());
	}
	CHECK(sh_dict_free(d) == 1, "sparse_dict_free");
	c.nontrivial |= m.size() >= 2 && (overwrites || misses || grew > 25);
	}
	if (live > 1) c.label("several dictionaries in turn"); if (collisions > 1) c.label("keys with equal hashes");
	if (grew > 25) c.label("table grew"); if (grew > 200) c.label("table grew 4 times or more"); if (longkeys) c.label("keys of 256 bytes or more"); if (overwrites) c.label("overwrites"); if (misses) c.label("lookups of absent keys"); if (self) c.label("stored its own value again"); if (nomem) c.label("allocation failed");
}
// Many entries: counts that do not fit into 16 bits, long probe sequences.
static void dict_many(Gen &g, Ctx &c) {
	size_t n = g.below(4) ? (size_t)g.range(100, 20000) : (size_t)g.range(20000, 150000); uint32_t stride = 1 + g.below(1000), again = 1 + g.below(50); int style = g.below(3);
	c.show("%zu insertions", n); c.label("many entries"); c.keep = false;
	void *d = sh_dict_new(); CHECK(d, "sparse_dict_init failed"); char k[64];
	auto key = [&](size_t i) { return style == 0 ? snprintf(k, sizeof k, "k%zu", i * stride) : style == 1 ? snprintf(k, sizeof k, "/a/path/%08zx/%zu", i * stride, i) : snprintf(k, sizeof k, "%zu", i); };
	for (size_t i = 0; i < n; i++) { int l = key(i); CHECK(sh_dict_set(d, k, l, &i, sizeof i) == 1, "insertion %zu of key %s was refused", i, k); }
	for (size_t i = 0; i < n; i += again) { int l = key(i); size_t v = ~i; CHECK(sh_dict_set(d, k, l, &v, 1 + i % 8) == 1, "overwriting key %s of %zu was refused", k, n); }
	for (size_t i = 0; i < n; i++) { int l = key(i); size_t s = 99, v = i % again ? i : ~i, vs = i % again ? sizeof v : 1 + i % 8; void *p = sh_dict_get(d, k, l, &s);
		CHECK(p && s == vs && memcmp(p, &v, vs) == 0, "key %s of %zu: got %s, expected %s", k, n, p ? hex(p, s).c_str() : "nothing", hex(&v, vs).c_str()); }
	CHECK(!sh_dict_get(d, "absent", 6, nullptr), "an absent key has a value");
	CHECK(sh_dict_free(d) == 1, "sparse_dict_free"); c.nontrivial = true;
}
static void dict_prop(Gen &g, Ctx &c) {
	if (g.example >= 0) {
		void *d = sh_dict_new(); size_t n;
		if (g.example == 0) { std::string k(300, 'k'); CHECK(sh_dict_set(d, k.data(), 256, "v", 1) == 1 && sh_dict_set(d, k.data(), 300, "w", 1) == 1, "long keys"); CHECK(*(char *)sh_dict_get(d, k.data(), 256, &n) == 'v', "256-byte key"); }
		if (g.example == 1) for (int i = 0; i < 50; i++) CHECK(sh_dict_set(d, "same", 4, "value", 1 + i % 5) == 1, "overwrite %d", i);
		if (g.example == 2) for (int i = 0; i < 20000; i++) { std::string k = "k" + std::to_string(i); CHECK(sh_dict_set(d, k.data(), k.size(), &i, sizeof i) == 1, "insertion %d refused", i); }
		if (g.example == 2) for (int i = 0; i < 20000; i++) { std::string k = "k" + std::to_string(i); int *p = (int *)sh_dict_get(d, k.data(), k.size(), &n); CHECK(p && n == sizeof i && memcmp(p, &i, n) == 0, "entry %d", i); }
		sh_dict_free(d); return;
	}
	if (g.below(3000) == 2999) dict_many(g, c); else dict_case(g, c, true);
}

// --- C24 --------------------------------------------------------------------------------------------
static void arr_prop(Gen &g, Ctx &c) {
	if (g.example == 0) { // index equal to the maximum, when it is a multiple of the group size
		void *a = sh_arr_new(8, 48); size_t n;
		CHECK(sh_arr_set(a, 48, "x", 1) == 0 && !sh_arr_get(a, 48, &n), "index 48 of 48 is accepted");
		sh_arr_free(a); return;
	}
	size_t live = g.below(5) == 4 ? 2 + g.below(2) : 1;
	struct One { void *a; size_t esz; uint32_t max; std::map<uint32_t, std::string> m; int order; uint32_t next; };
	std::vector<One> all;
	static const size_t es[] = {1, 2, 4, 8, 8, 13, 16, 40, 100, 300, 1500, 5000, 65536, 70000};
	for (size_t k = 0; k < live; k++) {
	size_t esz = es[g.below(200) == 199 ? 9 + (g.below(4) == 3 ? 3 + g.below(2) : g.below(3)) : g.below(9)]; uint32_t max = k == 0 && g.below(20000) == 19999 ? 3145728 - 50 + g.below(3000000) : g.below(400) == 399 ? 700 + g.below(40000) : g.flip() ? 48 * (1 + g.below(6)) + g.below(3) - 1 : (uint32_t)g.size(1, 700);
	c.show("element size %zu, maximum %u: ", esz, max); if (max > 12288) c.label("over 256 groups"); if (max > 1000000) { c.label("over 65536 groups"); c.keep = false; }
	void *a = sh_arr_new(esz, max);
	CHECK(a, "sparse_array_init failed");
	int order = g.below(3); all.push_back({a, esz, max, {}, order, order == 1 ? 0 : max - 1});
	}
	size_t over = 0, oob = 0, big = 0, nomem = 0;
	unsigned reads = g.below(8);
	auto verify_in = [&](One &o, uint32_t i) {
		void *a = o.a; auto &m = o.m;
		size_t n = 777; bool sizeless = (reads++ & 7) == 5; const void *got = sh_arr_get(a, i, sizeless ? nullptr : &n); auto it = m.find(i); if (sizeless && got && it != m.end()) n = it->second.size();
		if (it == m.end()) CHECK(!got, "index %u was never stored but holds %zu bytes", i, n);
		else CHECK(got && n == it->second.size() && memcmp(got, it->second.data(), n) == 0, "index %u: got %s, expected %s", i, got ? hex(got, n).c_str() : "nothing", quote(it->second, 40).c_str());
	};
	size_t nops = g.size(1, 250); for (auto &o : all) if (o.esz > 5000) { nops = std::min<size_t>(nops, 20); c.label("elements over 64 KiB"); }
	for (size_t op = 0; op < nops; op++) {
		size_t w = live > 1 ? g.below((uint32_t)live) : 0; if (live > 1) c.show(" %zu:", w);
		One &one = all[w]; void *a = one.a; size_t esz = one.esz; uint32_t max = one.max, &next = one.next; int order = one.order; auto &m = one.m;
		auto verify = [&](uint32_t i) { verify_in(one, i); };
		uint32_t i = order == 0 || g.below(4) == 3 ? g.below(max) : next; if (order == 1) next = (next + 1) % max; else next = next ? next - 1 : max - 1;
		switch (g.weighted({10, 3, 2, 1, 1})) {
		case 0: {
			std::string v = g.bytes(1 + g.below(esz), 2); Exact e(v);
			CHECK(sh_arr_set(a, i, e.p, v.size()) == 1, "storing %zu bytes at %u of %u was refused", v.size(), i, max);
			over += m.count(i); m[i] = v; c.show(" [%u]=%zu", i, v.size()); break; }
		case 1: verify(i); break;
		case 2: {
			uint32_t j = g.below(3) == 2 ? 0xffffffffu - g.below(60) : max + g.below(100);
			if (j < max) break;
			std::string v = g.bytes(1 + g.below(esz), 2); size_t n; Exact e(v);
			CHECK(sh_arr_set(a, j, e.p, v.size()) == 0, "storing at %u of %u was accepted", j, max);
			CHECK(!sh_arr_get(a, j, &n), "index %u of %u holds something", j, max);
			c.show(" [%u]!", j); oob++; break; }
		case 3: { // without memory nothing changes
			std::string v = g.bytes(1 + g.below(esz), 2); Exact e(v); long before = alloc_failures;
			fail_alloc_in = 1; int rc = sh_arr_set(a, i, e.p, v.size()); fail_alloc_in = 0;
			if (alloc_failures == before) CHECK(rc == 1, "storing %zu bytes at %u of %u was refused", v.size(), i, max); else nomem++;
			if (rc == 1) m[i] = v; verify(i); c.show(" [%u]=%zu%s", i, v.size(), rc == 1 ? "" : "[no memory]"); break; }
		default: {
			std::string v = g.bytes(esz + 1 + g.below(16), 2); Exact e(v);
			CHECK(sh_arr_set(a, i, e.p, v.size()) == 0, "storing %zu bytes in a %zu-byte element was accepted", v.size(), esz);
			c.show(" [%u]=too large", i); big++; verify(i); }
		}
	}
	for (auto &one : all) {
	for (uint32_t i = 0; i < one.max; i++) verify_in(one, i);
	CHECK(sh_arr_free(one.a) == 1, "sparse_array_free");
	uint32_t max = one.max; auto &m = one.m;
	c.nontrivial |= m.size() >= 3 && max > 1;
	if (max > 48 && m.size() > 1 && m.rbegin()->first / 48 != m.begin()->first / 48) c.label("several groups");
	if (m.size() > 40) c.label("over 40 elements");
	}
	if (live > 1) c.label("several arrays in turn");
	if (over) c.label("overwrites"); if (oob) c.label("index out of range"); if (big) c.label("element too large"); if (nomem) c.label("allocation failed");
}

// A case and a replay of it must free what they allocate; the containers own everything they hold.
static std::function<void(Gen &, Ctx &)> leak_checked(void (*f)(Gen &, Ctx &)) {
	return [f](Gen &g, Ctx &c) {
		uint32_t at = *g.nrec;
		f(g, c);
		if (g.example >= 0) return;
		// Run the same choices again, without labels, and compare the heap.
		static thread_local std::vector<uint32_t> ch; ch.assign(g.rec + at, g.rec + *g.nrec);
		static uint32_t dummy[MAX_CHOICES]; uint32_t dn = 0;
		static thread_local int tick = 0;
		if (ch.size() > 400 && ++tick % 8) return;
		check_no_leak("the container", [&] {
			Gen r; Ctx rc; dn = 0; r.rec = dummy; r.nrec = &dn; r.in = ch.data(); r.in_n = ch.size(); r.zero_after = true; r.example = g.example;
			f(r, rc);
		});
	};
}

static int reg = [] {
	Prop v{"C22", "random histories of append/short append/pointer append/reverse/reads/allocation failures on a vector of random item size and capacity, compared with a list after every operation; non-trivial: the capacity grew and at least two elements remain", 130000, 2500000, leak_checked(vec_prop)};
	v.examples = 2; v.assumptions = {"bytes of an element beyond a shorter appended item and its terminator are unspecified"}; add(v);
	Prop d{"C23", "random histories of insertions, overwrites and lookups with binary keys of 0..700 bytes, rarely 140000 (many prefixes of one another, some with equal hashes), compared with a std::map; keys and values are passed in exact-size buffers that are scribbled over afterwards; non-trivial: at least two entries and an overwrite, a miss or a grown table", 100000, 1500000, leak_checked(dict_prop)};
	d.examples = 3; add(d);
	Prop a{"C24", "random histories of stores, overwrites, out-of-range and oversized stores and reads on a sparse array of random maximum and element size, compared with a std::map, with a full scan at the end; non-trivial: at least three elements stored", 500000, 15000000, leak_checked(arr_prop)};
	a.examples = 1; a.assumptions = {"elements of size 0 are not stored (the code documents that they count as absent)"}; add(a);
	return 0;
}();
