// Cache: pinning (C01), bounded LRU / availability (C02), loader failures (C03).
#include "scn.h"
#include "lin.h"
namespace {
enum { GET = 1, REL, CHK, GETALL };
const char *opn(int c) { static const char *n[] = {"", "get", "release", "check", "getall"}; return n[c]; }
const int64_t KEYS[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, -1, -7, 2147483647ll, -2147483648ll, 4294967296ll, 4294967297ll, -4294967295ll, 1ll << 40, 0x80000000ll, -5000000000ll, 13, 14, 15, 16};
const int NK = sizeof KEYS / sizeof *KEYS;

struct Held { fiftyoneDegreesCacheNode *node; int64_t key; uint64_t loadId; const void *ptr; uint32_t used; };
struct HOp { int kind; int64_t key; const void *node; bool failHeld; }; // history
enum { H_HIT, H_LOAD, H_FAIL, H_NULL, H_REL };
struct Ctx {
	fiftyoneDegreesCache *cache; int cap, conc, shardCap, varSize, h32, voidMod;
	bool isVoid(int64_t k) const { return voidMod && k % voidMod == 0; } // the loader has nothing for some keys
	std::map<const void *, std::pair<int64_t, int>> held; // data* -> key, holders (definitely held)
	int nHeld = 0; std::map<int64_t, int> keyHeld; // entries held, those of each key
	std::map<const void *, int64_t> content;              // data* -> key last loaded into it
	int inflight = 0; std::vector<int *> watching;
	uint64_t loads = 0, gets = 0, hits = 0, hitsObs = 0; std::map<int64_t, int> loadCount;
	std::vector<lin::Rec<HOp>> hist; bool anyFail = false;
	struct Load { int tid; int64_t key; const void *data; bool failed; };
	std::map<int, Load> lastLoad; // by tid
	bool probeHeldReload = false;
	void bump() { int n = nHeld + inflight; for (auto w : watching) if (n > *w) *w = n; }
} *C;
uint64_t pat(int64_t key, uint64_t id, int i) { return mix(mix((uint64_t)key, 99), i * 7 + 1) ^ (id * 0); }

void loader(const void *state, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *ex) {
	Ctx *c = C;
	int64_t k = c->h32 ? *(const int32_t *)key : *(const int64_t *)key;
	{ NOP;
		SIM_CHECK(state == (const void *)c, "wrong-state", "loader was given another state pointer");
		auto it = c->held.find(data);
		if (it != c->held.end() && it->second.second > 0) violation("held-overwritten", "an entry for key %lld still held by %d callers is being reloaded with key %lld", (long long)it->second.first, it->second.second, (long long)k);
		if (c->keyHeld.count(k) && c->keyHeld[k]) violation("duplicate-load", "key %lld is loaded again although an entry for it is held", (long long)k);
		c->loads++; c->loadCount[k]++;
		c->lastLoad[tid()] = {tid(), k, data, false};
	}
	yieldPoint();
	if (fault(FK_LOAD) >= 0) {
		NOP; c->anyFail = true; c->lastLoad[tid()].failed = true; probe("loader_failed");
		switch (rng().below(4)) { // leaves the data as it is, or a part of it behind
		case 0: { NoPreempt off; FaultMask fm(false); uint64_t *q = (uint64_t *)fiftyoneDegreesDataMalloc(data, 16); if (q) { q[0] = (uint64_t)k; q[1] = 0xBADBADBAD; data->used = 16; } break; }
		case 1: { FaultMask fm(false); data->used = 0; fiftyoneDegreesDataMalloc(data, 24); break; }
		case 2: data->used = 0; break;
		}
		ex->status = FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR; return;
	}
	if (c->isVoid(k)) { NOP; data->used = 0; c->content[data] = k; probe("nothing_to_load"); return; }
	int words = c->varSize ? 1 + (int)((uint64_t)(k * 7) % 5) : 3;
	uint64_t *p = (uint64_t *)fiftyoneDegreesDataMalloc(data, (size_t)(words + 1) * 8);
	if (!p) { NOP; c->anyFail = true; c->lastLoad[tid()].failed = true; ex->status = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; probe("loader_oom"); return; }
	NOP;
	heapCheck(p, (size_t)(words + 1) * 8, true, "loader");
	p[0] = (uint64_t)k;
	for (int i = 0; i < words; i++) { p[i + 1] = pat(k, 0, i); C->cache = C->cache; }
	data->used = (uint32_t)(words + 1) * 8;
	c->content[data] = k;
}
void verify(const Held &h, const char *when) {
	NOP;
	heapCheck(h.node, sizeof *h.node, false, "cache node");
	SIM_CHECK(h.node->data.ptr == h.ptr && h.node->data.used == h.used, "held-changed", "%s: the data of a held entry for key %lld was replaced", when, (long long)h.key);
	SIM_CHECK((h.used == 0) == C->isVoid(h.key), "wrong-data", "%s: the entry for key %lld, for which the loader %s, has %u bytes", when, (long long)h.key, C->isVoid(h.key) ? "has nothing" : "has data", h.used);
	if (h.used == 0) return;
	heapCheck(h.ptr, h.used, false, "cached data");
	const uint64_t *p = (const uint64_t *)h.ptr;
	SIM_CHECK((int64_t)p[0] == h.key, "wrong-data", "%s: entry for key %lld carries data of key %lld", when, (long long)h.key, (long long)p[0]);
	for (uint32_t i = 1; i < h.used / 8; i++) SIM_CHECK(p[i] == pat(h.key, 0, (int)i - 1), "wrong-data", "%s: data of key %lld is not what the loader produced", when, (long long)h.key);
}
bool doGet(int64_t key, Held &out, int *st = nullptr) {
	Ctx *c = C; Ex e; int32_t k32 = (int32_t)key; int64_t k64 = key;
	int maxHeld = 0; uint64_t inv, ret; size_t myW;
	{ NOP; c->gets++; c->lastLoad.erase(tid()); c->watching.push_back(&maxHeld); c->bump(); c->inflight++; c->bump(); inv = seq(); (void)myW; }
	fiftyoneDegreesCacheNode *n = fiftyoneDegreesCacheGet(c->cache, c->h32 ? (void *)&k32 : (void *)&k64, e.p);
	NOP; ret = seq();
	c->inflight--; c->watching.erase(std::find(c->watching.begin(), c->watching.end(), &maxHeld));
	auto ll = c->lastLoad.find(tid()); bool loaded = ll != c->lastLoad.end();
	if (st) *st = e.st();
	eventf("get key %lld -> %s%s st %d", (long long)key, n ? "node" : "null", loaded ? " (loaded)" : "", e.st());
	if (loaded) SIM_CHECK(ll->second.key == key, "wrong-key-loaded", "get of key %lld loaded key %lld", (long long)key, (long long)ll->second.key);
	if (loaded && ll->second.failed) {
		SIM_CHECK(!e.ok(), "failure-unreported", "the loader failed for key %lld but the caller's exception is clear", (long long)key);
		c->hist.push_back({{H_FAIL, key, ll->second.data, n != nullptr}, inv, ret});
		if (n) { // the caller gives back what it was handed
			heapCheck(n, sizeof *n, false, "node"); const void *d = &n->data; SIM_CHECK(d == ll->second.data, "wrong-node", "failed get returned another entry");
			uint64_t i2 = seq(); np_guard.~NoPreempt(); fiftyoneDegreesCacheRelease(n); new (&np_guard) NoPreempt(); c->hist.push_back({{H_REL, key, d, true}, i2, seq()});
		}
		return false;
	}
	if (!n) {
		SIM_CHECK(!loaded, "lost-load", "key %lld was loaded but nothing was returned", (long long)key);
		SIM_CHECK(maxHeld - 0 >= c->shardCap, "refused", "get of key %lld returned nothing although at most %d of %d entries were in use", (long long)key, maxHeld, c->shardCap);
		SIM_CHECK(e.ok() || e.st() != (int)FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR, "spurious-failure", "failure reported although no load failed");
		c->hist.push_back({{H_NULL, key, nullptr, false}, inv, ret}); probe("cache_full_null");
		return false;
	}
	SIM_CHECK(e.ok(), "spurious-failure", "get of key %lld returned an entry with exception status %d although no load failed", (long long)key, e.st());
	heapCheck(n, sizeof *n, false, "node");
	out = {n, key, 0, n->data.ptr, n->data.used};
	const void *d = &n->data;
	if (loaded) SIM_CHECK(ll->second.data == d, "wrong-node", "get returned an entry other than the one it loaded");
	auto &h = c->held[d];
	if (h.second > 0) SIM_CHECK(h.first == key, "held-overwritten", "an entry held for key %lld was handed out for key %lld", (long long)h.first, (long long)key);
	h.first = key; if (h.second++ == 0) { c->nHeld++; if (c->keyHeld[key]++) violation("duplicate-entry", "two live entries for key %lld", (long long)key); }
	if (!loaded) { c->hits++; probe("cache_hit"); }
	c->hist.push_back({{loaded ? H_LOAD : H_HIT, key, d, false}, inv, ret});
	uint64_t sg = 7; if (c->held.size() < 300) for (auto &x : c->held) sg = mix(sg, x.second.first * 31 + x.second.second); state(sg);
	verify(out, "get");
	return true;
}
void doRel(const Held &h) {
	Ctx *c = C; const void *d; uint64_t inv;
	verify(h, "release");
	{ NOP; d = &h.node->data; auto &x = c->held[d]; if (--x.second == 0) { c->nHeld--; c->keyHeld[x.first]--; } c->inflight++; c->bump(); inv = seq(); eventf("release key %lld", (long long)h.key); }
	fiftyoneDegreesCacheRelease(h.node);
	NOP; c->inflight--; c->hist.push_back({{H_REL, h.key, d, false}, inv, seq()});
}
// Sequential model: one shard, least recently released is evicted.
struct LState {
	int free; std::vector<std::pair<const void *, int64_t>> lru; // front = most recent
	std::vector<const void *> empty; std::map<const void *, std::pair<int64_t, int>> held; // count; key valid only if keyed
	std::set<const void *> heldEmpty;
	std::string key() const {
		std::string s = std::to_string(free) + ";"; char b[64];
		for (auto &x : lru) { snprintf(b, sizeof b, "%p=%lld,", x.first, (long long)x.second); s += b; }
		s += ";"; for (auto x : empty) { snprintf(b, sizeof b, "%p,", x); s += b; }
		s += ";"; for (auto &x : held) { snprintf(b, sizeof b, "%p=%lld*%d,", x.first, (long long)x.second.first, x.second.second); s += b; }
		s += ";"; for (auto x : heldEmpty) { snprintf(b, sizeof b, "%p,", x); s += b; }
		return s;
	}
};
std::vector<LState> lstep(const LState &s, const HOp &o) {
	std::vector<LState> r; LState n = s;
	auto resident = [&](int64_t k, const void **nd) { for (auto &x : s.lru) if (x.second == k) { *nd = x.first; return true; } for (auto &x : s.held) if (x.second.first == k) { *nd = x.first; return true; } return false; };
	const void *nd = nullptr;
	auto take = [&](const void *node) -> bool { // choose a slot for a load
		bool isEmpty = std::find(n.empty.begin(), n.empty.end(), node) != n.empty.end();
		if (isEmpty) { n.empty.erase(std::find(n.empty.begin(), n.empty.end(), node)); return true; }
		bool known = n.held.count(node) || n.heldEmpty.count(node); for (auto &x : n.lru) if (x.first == node) known = true;
		if (!known) { if (n.free <= 0) return false; n.free--; return true; }
		if (n.free > 0 || n.lru.empty() || n.lru.back().first != node) return false;
		n.lru.pop_back(); return true;
	};
	switch (o.kind) {
	case H_HIT:
		if (!resident(o.key, &nd) || nd != o.node) return r;
		if (n.held.count(nd)) n.held[nd].second++;
		else { for (size_t i = 0; i < n.lru.size(); i++) if (n.lru[i].first == nd) { n.lru.erase(n.lru.begin() + (long)i); break; } n.held[nd] = {o.key, 1}; }
		r.push_back(n); break;
	case H_LOAD:
		if (resident(o.key, &nd)) return r;
		if (!take(o.node)) return r;
		n.held[o.node] = {o.key, 1}; r.push_back(n); break;
	case H_FAIL:
		if (resident(o.key, &nd)) return r;
		if (!take(o.node)) return r;
		if (o.failHeld) n.heldEmpty.insert(o.node); else n.empty.push_back(o.node);
		r.push_back(n); break;
	case H_NULL:
		if (n.free > 0 || !n.lru.empty() || !n.empty.empty()) return r;
		if (resident(o.key, &nd)) return r;
		r.push_back(n); break;
	case H_REL:
		if (o.failHeld) { if (!n.heldEmpty.count(o.node)) return r; n.heldEmpty.erase(o.node); n.empty.push_back(o.node); r.push_back(n); break; }
		{ auto it = n.held.find(o.node); if (it == n.held.end() || it->second.first != o.key) return r;
			if (--it->second.second == 0) { int64_t k = it->second.first; n.held.erase(it); n.lru.insert(n.lru.begin(), {o.node, k}); } r.push_back(n); }
		break;
	}
	return r;
}
void run(const Plan &p) {
	Ctx ctx; C = &ctx;
	ctx.cap = (int)p.get("cap"); ctx.conc = (int)p.get("conc"); ctx.varSize = (int)p.get("var"); ctx.h32 = (int)p.get("h32"); ctx.voidMod = (int)p.get("voidmod");
	uint64_t mark = heapMark();
	bool oom = p.get("f_malloc") || p.get("fn_malloc");
	if (!p.get("create_oom")) faultsOff();
	if (p.seed % 16 == 0) { uint16_t k = (uint16_t)(p.seed / 16 % 4); auto bad = fiftyoneDegreesCacheCreate(k ? (uint32_t)k * k - 1 : 5, k, loader, fiftyoneDegreesCacheHash32, &ctx); SIM_CHECK(!bad, "capacity", "a cache with fewer entries per shard than threads (%d) was made", (int)k); }
	ctx.cache = fiftyoneDegreesCacheCreate((uint32_t)ctx.cap, (uint16_t)ctx.conc, loader, ctx.h32 ? fiftyoneDegreesCacheHash32 : fiftyoneDegreesCacheHash64, &ctx);
	faultsOn();
	ctx.shardCap = ctx.cap / ctx.conc;
	if (!ctx.cache) {
		if (faultsFired() == 0) violation("refused", "no cache was created for capacity %d and concurrency %d", ctx.cap, ctx.conc);
		leakCheck(mark, "failed cache creation"); return;
	}
	SIM_CHECK(ctx.cache->capacity >= ctx.cap, "capacity", "capacity %d was requested, cache reports %d", ctx.cap, ctx.cache->capacity);
	int realShard = ctx.conc == 1 ? ctx.cache->capacity : 0;
	auto body = [&](int t) {
		std::vector<Held> slots(8); std::vector<bool> used(8, false);
		for (auto &op : p.th[t]) {
			opBegin(op);
			int s = (int)(op.a & 7);
			switch (op.code) {
			case GET: if (!used[s]) { Held h; if (doGet(KEYS[op.b % NK], h)) { slots[s] = h; used[s] = true; } } break;
			case REL: if (used[s]) { used[s] = false; doRel(slots[s]); } break;
			case CHK: if (used[s]) verify(slots[s], "check"); break;
			}
			opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e);
		for (int s = 0; s < 8; s++) if (used[s]) { used[s] = false; doRel(slots[s]); }
	};
	for (size_t t = 1; t < p.th.size(); t++) spawn([&, t] { body((int)t); });
	joinAll();
	if (ctx.conc == 1) {
		// the whole history against the sequential model
		LState s0; s0.free = realShard;
		size_t best = 0; int r = lin::check<LState, HOp>(s0, ctx.hist, lstep, 60000, &best);
		if (r == 0) {
			for (auto &h : ctx.hist) eventf("hist %s key %lld node %p [%llu,%llu]", h.op.kind == H_HIT ? "hit" : h.op.kind == H_LOAD ? "load" : h.op.kind == H_FAIL ? "fail" : h.op.kind == H_NULL ? "null" : "release", (long long)h.op.key, h.op.node, (unsigned long long)h.inv, (unsigned long long)h.ret);
			violation("not-lru", "the history of %zu calls fits no order of a least-recently-released cache of %d entries (at most %zu calls explained)", ctx.hist.size(), realShard, best);
		}
		probe(r < 0 ? "lin_budget_exhausted" : "lin_checked");
		SIM_CHECK(ctx.cache->hits + ctx.cache->misses == ctx.gets, "counters", "%llu gets but hits %lu and misses %lu", (unsigned long long)ctx.gets, ctx.cache->hits, ctx.cache->misses);
		SIM_CHECK(ctx.cache->hits == ctx.hits, "counters", "%llu gets were served without a load but hits is %lu", (unsigned long long)ctx.hits, ctx.cache->hits);
	}
	if (!ctx.anyFail && p.get("nokeys") <= ctx.shardCap && ctx.conc == 1) {
		for (auto &l : ctx.loadCount) SIM_CHECK(l.second == 1, "reload", "key %lld was loaded %d times although all keys fit", (long long)l.first, l.second);
	}
	// quiescent phase: faults have stopped; full capacity must be available again
	faultsOff(); ctx.hist.clear();
	Op e; e.id = 9500; opBegin(e);
	{
		std::vector<Held> hs; std::set<const void *> nodes; int n = ctx.conc == 1 ? realShard : ctx.shardCap;
		for (int i = 0; i < n; i++) { // keys of one shard: multiples of the concurrency
			Held h; int64_t key = (int64_t)(1000 + i) * ctx.conc;
			if (!doGet(key, h)) violation("capacity-lost", "after all entries were released only %d of %d entries could be held at once", i, n);
			{ NOP; SIM_CHECK(nodes.insert(h.node).second, "held-overwritten", "one entry handed out for two keys"); }
			hs.push_back(h);
		}
		for (auto &h : hs) verify(h, "quiescent check");
		if (ctx.conc == 1) { Held h; if (doGet(777777, h)) violation("over-capacity", "more than %d entries held at once", n); }
		uint64_t l0 = ctx.loads;
		for (auto &h : hs) { Held h2; SIM_CHECK(doGet(h.key, h2), "refused", "get of a held key failed"); doRel(h2); }
		SIM_CHECK(ctx.loads == l0, "reload", "a held key was loaded again");
		for (auto &h : hs) doRel(h);
		for (auto &h : hs) { Held h2; SIM_CHECK(doGet(h.key, h2), "refused", "get of a resident key failed"); doRel(h2); }
		SIM_CHECK(ctx.loads == l0, "reload", "a resident key was loaded again without any eviction being needed");
	}
	(void)oom;
	fiftyoneDegreesCacheFree(ctx.cache);
	leakCheck(mark, "after the cache was freed");
}
void genCommon(Plan &p, Rng &r, bool faults) {
	int conc = (int)r.pick({1, 1, 1, 2, 3});
	int cap = conc == 1 ? (int)r.range(1, 5) : conc * conc + (int)r.below(4);
	bool big = !faults && r.chance(1, 1000); if (big) { if (r.chance(1, 2)) { conc = 1; cap = 65530 + (int)r.below(20); } else { conc = (int)r.pick({256, 257, 300}); cap = conc * conc + (int)r.below(3); } } // more than 8 or 16 bits can count
	p.set("cap", cap); p.set("conc", conc); p.set("var", r.below(2)); p.set("h32", r.below(2)); p.set("voidmod", r.pick({0, 0, 1, 2, 3}));
	int T = (int)r.range(1, 4); int nk = (int)r.range(1, std::min(cap, 40) + 3); p.set("nokeys", nk);
	bool odd = r.chance(1, 4); // unusual keys
	int ops = (int)r.range(4, T == 1 ? 40 : 56 / T / 2);
	std::vector<int> keys; for (int i = 0; i < nk; i++) keys.push_back(odd ? (int)r.below(NK) : i);
	for (int t = 1; t <= T; t++) {
		p.th.resize((size_t)t + 1);
		std::vector<bool> u(4, false);
		for (int i = 0; i < ops; i++) {
			int s = (int)r.below(cap <= 2 ? 2 : 3 + (cap > 4));
			if (!u[s] && r.chance(5, 6)) { p.add(t, GET, s, keys[r.below(keys.size())]); u[s] = true; }
			else if (r.chance(4, 5)) { p.add(t, REL, s); u[s] = false; }
			else p.add(t, CHK, s);
		}
	}
	if (faults) { p.enable(FK_LOAD, r.pick({500, 1500, 4000})); if (r.chance(1, 3)) p.enable(FK_MALLOC, 1000); p.set("f_max", r.range(1, 12)); }
	p.set("step_cap", big ? 2000000000 : 6000000);
}
void gen(Plan &p, Rng &r) { genCommon(p, r, false); if (p.get("h32")) for (auto &t : p.th) for (auto &o : t) if (o.code == GET) { int64_t k = KEYS[o.b % NK]; if ((int32_t)k != k) o.b = 1; } }
void genF(Plan &p, Rng &r) { genCommon(p, r, true); if (p.get("h32")) for (auto &t : p.th) for (auto &o : t) if (o.code == GET) { int64_t k = KEYS[o.b % NK]; if ((int32_t)k != k) o.b = 1; } oomOnly(p, r, 30); }
SIM_SCENARIO(cache, gen, run, opn);
SIM_SCENARIO(cache_fail, genF, run, opn);
}
