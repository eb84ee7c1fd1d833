// Memory tracking (C14) and signals, mutexes (C15).
#include "scn.h"
#include "lin.h"
namespace {
// ------------------------------------------------------------------ memory tracking
enum { ALLOC = 1, ALIGNED, FREE, READ, READMAX, FREENULL };
const char *opn(int c) { static const char *n[] = {"", "allocate", "allocate aligned", "free", "read allocated", "read maximum", "free nothing"}; return n[c]; }
const size_t SZ[] = {1, 8, 13, 24, 100, 4096, 70000, 300000}; const int AL[] = {8, 16, 64, 128};
struct MOp { int kind; size_t n; int id; }; // 0 add, 1 note the maximum, 2 subtract, 3 read, 4 read the maximum
struct MState {
	size_t cur = 0, max = 0; std::map<int, size_t> pend; // additions whose maximum is not noted yet
	std::string key() const { std::string k = std::to_string(cur) + "," + std::to_string(max); for (auto &p : pend) k += ";" + std::to_string(p.first) + ":" + std::to_string(p.second); return k; }
};
std::vector<MState> mstep(const MState &s, const MOp &o) {
	MState n = s;
	switch (o.kind) {
	case 0: n.cur += o.n; n.pend[o.id] = n.cur; return {n};
	case 1: { auto i = n.pend.find(o.id); if (i == n.pend.end()) return {}; n.max = std::max(n.max, i->second); n.pend.erase(i); return {n}; }
	case 2: if (s.cur < o.n) return {}; n.cur -= o.n; return {n};
	case 3: if (s.cur != o.n) return {}; return {n};
	default: if (s.max != o.n) return {}; return {n};
	}
}
struct Block { char *p = nullptr; int al = 0; size_t n = 0; uint8_t pat = 0; };
struct Rec { int kind; int al; size_t n; uint64_t inv, ret; int id; };
struct MC { std::vector<Block> shared; std::vector<Rec> h; bool viaPointer; int ids = 0; };
void *mAlloc(MC &c, int al, size_t n) { if (al) return c.viaPointer ? fiftyoneDegreesMallocAligned(al, n) : fiftyoneDegreesMemoryTrackingMallocAligned(al, n); return c.viaPointer ? fiftyoneDegreesMalloc(n) : fiftyoneDegreesMemoryTrackingMalloc(n); }
void mFree(MC &c, int al, void *p) { if (al) { if (c.viaPointer) fiftyoneDegreesFreeAligned(p); else fiftyoneDegreesMemoryTrackingFreeAligned(p); } else { if (c.viaPointer) fiftyoneDegreesFree(p); else fiftyoneDegreesMemoryTrackingFree(p); } }
Block take(MC &c, int al, size_t n, uint8_t pat) {
	uint64_t f0 = faultsFiredBy(tid()), inv = seq(); Block b; b.p = (char *)mAlloc(c, al, n);
	if (!b.p) { SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "allocation of %zu bytes failed", n); eventf("allocation of %zu failed", n); probe("allocation_failed"); return b; }
	NOP; b.al = al; b.n = n; b.pat = pat; SIM_CHECK(((uintptr_t)b.p & (uintptr_t)((al ? al : 16) - 1)) == 0, "misaligned", "allocation of %zu bytes aligned to %d is at %p", n, al, (void *)b.p);
	heapCheck(b.p, n, true, "tracked allocation"); memset(b.p, pat, n); int id = c.ids++; uint64_t ret = seq(); c.h.push_back({0, al, n, inv, ret, id}); c.h.push_back({1, al, n, inv, ret, id}); eventf("allocated %zu", n); return b;
}
void give(MC &c, Block &b) {
	{ NOP; for (size_t i = 0; i < b.n; i++) SIM_CHECK((uint8_t)b.p[i] == b.pat, "changed", "byte %zu of a live allocation of %zu changed", i, b.n); }
	uint64_t inv = seq(); char *p = b.p; size_t at = c.h.size(); { NOP; c.h.push_back({2, b.al, b.n, inv, ~0ull, 0}); } (void)at;
	size_t mine = at; mFree(c, b.al, p); NOP; c.h[mine].ret = seq(); SIM_CHECK(!heapLive(p) || true, "x", "x"); eventf("freed %zu", b.n); b.p = nullptr;
}
void phase(MC &c, const Plan &p, int T, int ph) {
	auto body = [&](int t) {
		std::vector<Block> own;
		for (auto &op : p.th[(size_t)t]) {
			if (op.d % 2 != ph) continue;
			opBegin(op); bool sh = op.c & 1;
			switch (op.code) {
			case ALLOC: case ALIGNED: {
				Block b = take(c, op.code == ALIGNED ? AL[op.b % 4] : 0, SZ[op.a % 8], (uint8_t)(op.id * 37 + 1)); if (!b.p) break;
				bool put = false; if (sh) for (auto &s : c.shared) if (!s.p) { s = b; put = true; break; }
				if (!put) own.push_back(b); break; }
			case FREE: {
				Block b; bool have = false;
				if (sh) for (auto &s : c.shared) if (s.p) { b = s; s.p = nullptr; have = true; break; }
				if (!have && !own.empty()) { size_t i = (size_t)op.a % own.size(); b = own[i]; own.erase(own.begin() + (long)i); have = true; }
				if (have) give(c, b); break; }
			case READ: case READMAX: { uint64_t inv = seq(); size_t v = op.code == READ ? fiftyoneDegreesMemoryTrackingGetAllocated() : fiftyoneDegreesMemoryTrackingGetMax(); NOP; if (op.code == READ) c.h.push_back({3, 0, v, inv, seq(), 0}); eventf("%s: %zu", opn(op.code), v); break; }
			case FREENULL: mFree(c, op.b % 2 ? AL[op.b % 4] : 0, nullptr); break;
			}
			state(mix((uint64_t)op.code, mix(own.size(), c.h.size()))); opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e); for (auto &b : own) give(c, b);
	};
	for (int t = 1; t <= T; t++) spawn([&, t] { body(t); });
	joinAll(); for (auto &b : c.shared) if (b.p) give(c, b);
}
void run(const Plan &p) {
	int T = (int)p.th.size() - 1, mode = (int)p.get("mode"); static MC c; c.shared.resize((size_t)p.get("slots")); uint64_t mark = heapMark(); Op fo; fo.id = 9500; opBegin(fo);
	size_t base = 0, plain = 0; Block before;
	if (mode) { FaultMask fm(false);
		if (mode == 2) { void *q = fiftyoneDegreesMalloc(64); fiftyoneDegreesSetUpMemoryTracking(); (void)q; fiftyoneDegreesMemoryStandardFree(q); } else fiftyoneDegreesSetUpMemoryTracking();
		c.viaPointer = true; SIM_CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == 0 && fiftyoneDegreesMemoryTrackingGetMax() == 0, "wrong-total", "totals are %zu and %zu after set up", fiftyoneDegreesMemoryTrackingGetAllocated(), fiftyoneDegreesMemoryTrackingGetMax()); }
	std::map<std::pair<int, size_t>, size_t> cal; std::vector<std::vector<Rec>> hs; std::vector<std::pair<size_t, size_t>> ends; (void)base; (void)plain; (void)before;
	for (int ph = 0; ph < 2; ph++) {
		if (ph) { fiftyoneDegreesMemoryTrackingReset(); SIM_CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == 0 && fiftyoneDegreesMemoryTrackingGetMax() == 0, "wrong-total", "totals are %zu and %zu after the reset", fiftyoneDegreesMemoryTrackingGetAllocated(), fiftyoneDegreesMemoryTrackingGetMax()); }
		c.h.clear(); phase(c, p, T, ph); size_t a = fiftyoneDegreesMemoryTrackingGetAllocated(), m = fiftyoneDegreesMemoryTrackingGetMax();
		SIM_CHECK(a == 0, "wrong-total", "%zu bytes counted as allocated after everything was freed", a); ends.push_back({a, m}); hs.push_back(c.h); leakCheck(mark, "tracked allocations");
	}
	faultsOff(); // what one allocation of each kind counts
	for (auto &h : hs) for (auto &r : h) if (r.kind == 0) { auto k = std::make_pair(r.al, r.n); if (cal.count(k)) continue;
		size_t a0 = fiftyoneDegreesMemoryTrackingGetAllocated(); void *q = mAlloc(c, r.al, r.n); SIM_CHECK(q, "spurious-failure", "allocation of %zu bytes failed", r.n); size_t a1 = fiftyoneDegreesMemoryTrackingGetAllocated(); mFree(c, r.al, q);
		SIM_CHECK(a1 - a0 >= r.n && a1 - a0 < r.n + (size_t)(r.al ? r.al : 1), "wrong-total", "an allocation of %zu bytes aligned to %d counts %zu", r.n, r.al, a1 - a0); SIM_CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == a0, "wrong-total", "freeing %zu bytes changes the total by %zd instead", r.n, (ssize_t)(a1 - fiftyoneDegreesMemoryTrackingGetAllocated())); cal[k] = a1 - a0; }
	for (size_t ph = 0; ph < hs.size(); ph++) {
		std::vector<lin::Rec<MOp>> h; uint64_t last = 0; for (auto &r : hs[ph]) { size_t n = r.kind == 3 ? r.n : cal.count({r.al, r.n}) ? cal[{r.al, r.n}] : r.n; h.push_back({{r.kind, n, r.id}, r.inv, r.ret}); last = std::max(last, r.ret); }
		h.push_back({{3, ends[ph].first, 0}, last + 1, last + 2}); h.push_back({{4, ends[ph].second, 0}, last + 3, last + 4});
		if (h.size() > 60) { probe("history_too_long"); continue; }
		size_t best = 0; int ok = lin::check(MState(), h, mstep, 300000, &best); if (ok < 0) probe("history_not_decided"); else probe("history_checked");
		if (!ok) { std::string s; for (auto &r : h) s += std::to_string(r.op.kind) + ":" + std::to_string(r.op.n) + "[" + std::to_string(r.inv) + "," + std::to_string(r.ret) + "] "; SIM_CHECK(false, "wrong-total", "no order of the operations explains the totals read (allocated %zu, maximum %zu): %s", ends[ph].first, ends[ph].second, s.c_str()); }
	}
	if (mode) { void *q = fiftyoneDegreesMalloc(100); size_t was = fiftyoneDegreesMemoryTrackingGetAllocated(); SIM_CHECK(was >= 100, "wrong-total", "%zu bytes counted with 100 allocated", was); if (p.get("unset")) { fiftyoneDegreesFree(q); q = nullptr; }
		size_t left = fiftyoneDegreesUnsetMemoryTracking(); SIM_CHECK(left == (q ? was : 0), "wrong-total", "turning tracking off reports %zu bytes, %zu were allocated", left, q ? was : 0); if (q) { /* the tracker's own record of it stays */ fiftyoneDegreesMemoryTrackingFree(q); }
		SIM_CHECK(fiftyoneDegreesMalloc == fiftyoneDegreesMemoryStandardMalloc && fiftyoneDegreesFree == fiftyoneDegreesMemoryStandardFree, "wrong-total", "tracking is still on"); size_t al = fiftyoneDegreesMemoryTrackingGetAllocated(), mx = fiftyoneDegreesMemoryTrackingGetMax(); q = fiftyoneDegreesMalloc(10); fiftyoneDegreesFree(q); q = fiftyoneDegreesMallocAligned(16, 48); fiftyoneDegreesFreeAligned(q); SIM_CHECK(fiftyoneDegreesMemoryTrackingGetAllocated() == al && fiftyoneDegreesMemoryTrackingGetMax() == mx, "wrong-total", "%zu bytes, %zu at most, counted after tracking was turned off", fiftyoneDegreesMemoryTrackingGetAllocated(), fiftyoneDegreesMemoryTrackingGetMax()); }
	leakCheck(mark, "end");
}
void gen(Plan &p, Rng &r) {
	int T = (int)r.range(1, 4), total = 0; p.set("mode", r.pick({0, 0, 0, 1, 2})); p.set("slots", r.range(1, 3)); p.set("unset", r.below(2)); p.set("step_cap", 6000000);
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = (int)r.range(2, T > 2 ? 6 : 9); total += n; bool rd = r.chance(1, 3); int one = r.chance(1, 2) ? (int)r.below(8) : -1;
		for (int i = 0; i < n; i++) { int k = rd && r.chance(1, 3) ? (r.chance(3, 4) ? READ : READMAX) : r.chance(1, 30) ? FREENULL : r.chance(1, 2) ? (r.chance(1, 4) ? ALIGNED : ALLOC) : FREE; if (i == 0) k = ALLOC; p.add(t, k, one >= 0 ? one : (int64_t)r.below(8), (int64_t)r.below(4), (int64_t)r.below(2), r.chance(1, 4)); } }
	if (r.chance(1, 3)) { if (r.chance(1, 2)) p.set("fn_malloc", r.range(1, 12)); else p.enable(FK_MALLOC, r.pick({300, 1500, 4000})); }
}
SIM_SCENARIO(memtrack, gen, run, opn);
// ------------------------------------------------------------------ signals and mutexes
enum { LOCKED = 1, RING, FEED, MUTEX, CYCLE };
const char *opnS(int c) { static const char *n[] = {"", "signal as a lock", "hand over", "feed", "mutex", "create and close"}; return n[c]; }
struct SC { std::vector<fiftyoneDegreesSignal *> sig; std::vector<int> turn; int holder = -1; int produced = 0, consumed = 0, announced = 0; bool ended = false; fiftyoneDegreesMutex mtx[3]; int owner[3] = {-1, -1, -1}; long count[3] = {0, 0, 0}; };
void runSig(const Plan &p) {
	int T = (int)p.th.size() - 1, kind = (int)p.get("kind"); static SC c; uint64_t mark = heapMark(); Op fo; fo.id = 9500; opBegin(fo); int ns = kind == RING ? T : kind == FEED ? 1 : kind == LOCKED ? 1 : 0;
	for (int i = 0; i < ns; i++) { fiftyoneDegreesSignal *s; FIFTYONE_DEGREES_SIGNAL_CREATE(s); if (!s) { SIM_CHECK(faultsFired() > 0, "spurious-failure", "no signal was created"); probe("create_failed"); FaultMask fm(false); FIFTYONE_DEGREES_SIGNAL_CREATE(s); } SIM_CHECK(s, "spurious-failure", "no signal was created"); c.sig.push_back(s); if (kind != LOCKED) FIFTYONE_DEGREES_SIGNAL_WAIT(s); } // signals start set
	for (auto &m : c.mtx) FIFTYONE_DEGREES_MUTEX_CREATE(m);
	auto body = [&](int t) {
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op);
			switch (kind) {
			case LOCKED: { FIFTYONE_DEGREES_SIGNAL_WAIT(c.sig[0]); SIM_CHECK(c.holder < 0, "not-exclusive", "threads %d and %d both got through one set signal", c.holder, t); c.holder = t; for (int i = 0; i < op.a; i++) yieldPoint(); SIM_CHECK(c.holder == t, "not-exclusive", "another thread got through"); c.holder = -1; for (int i = 0; i <= op.b; i++) { if (i) { FIFTYONE_DEGREES_SIGNAL_WAIT(c.sig[0]); SIM_CHECK(c.holder < 0, "not-exclusive", "threads %d and %d both got through one set signal", c.holder, t); } FIFTYONE_DEGREES_SIGNAL_SET(c.sig[0]); } break; }
			case RING: { size_t me = (size_t)(t - 1), nx = me + 1 == (size_t)T ? 0 : me + 1; FIFTYONE_DEGREES_SIGNAL_WAIT(c.sig[me]); SIM_CHECK(c.turn[me] == 1, "early", "thread %d got through before its signal was set", t); c.turn[me] = 0; for (int i = 0; i < op.a; i++) yieldPoint(); c.turn[nx] = 1; FIFTYONE_DEGREES_SIGNAL_SET(c.sig[nx]); break; }
			case FEED: if (t == 1) { while (c.consumed < c.produced || !c.ended) { int seen = c.announced; (void)seen; c.consumed = c.produced; if (c.ended && c.consumed == c.produced) break; FIFTYONE_DEGREES_SIGNAL_WAIT(c.sig[0]); eventf("woken: %d of %d", c.consumed, c.produced); SIM_CHECK(c.announced > 0, "early", "got through before the signal was set"); } }
				else { for (int i = 0; i < op.a; i++) { c.produced++; yieldPoint(); } c.announced++; FIFTYONE_DEGREES_SIGNAL_SET(c.sig[0]); } break;
			case MUTEX: { int k = (int)(op.b % 3), k2 = (k + 1 + (int)op.c % 2) % 3, lo = std::min(k, k2), hi = std::max(k, k2); bool two = op.d & 1; if (!two) lo = hi = k; // always locked in order
				FIFTYONE_DEGREES_MUTEX_LOCK(&c.mtx[lo]); SIM_CHECK(c.owner[lo] < 0, "not-exclusive", "threads %d and %d both hold a mutex", c.owner[lo], t); c.owner[lo] = t; if (two) { FIFTYONE_DEGREES_MUTEX_LOCK(&c.mtx[hi]); SIM_CHECK(c.owner[hi] < 0, "not-exclusive", "threads %d and %d both hold a mutex", c.owner[hi], t); c.owner[hi] = t; }
				long v = c.count[lo]; for (int i = 0; i < op.a; i++) yieldPoint(); SIM_CHECK(c.owner[lo] == t && c.owner[hi] == t && c.count[lo] == v, "not-exclusive", "another thread entered"); c.count[lo] = v + 1;
				if (two) { c.owner[hi] = -1; FIFTYONE_DEGREES_MUTEX_UNLOCK(&c.mtx[hi]); } c.owner[lo] = -1; FIFTYONE_DEGREES_MUTEX_UNLOCK(&c.mtx[lo]); break; }
			case CYCLE: { uint64_t f0 = faultsFiredBy(tid()); fiftyoneDegreesSignal *s; FIFTYONE_DEGREES_SIGNAL_CREATE(s); if (!s) { SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "no signal was created"); probe("create_failed"); break; } if (op.b & 1) FIFTYONE_DEGREES_SIGNAL_WAIT(s); for (int i = 0; i < op.a; i++) { FIFTYONE_DEGREES_SIGNAL_SET(s); if (op.b & 2) FIFTYONE_DEGREES_SIGNAL_SET(s); FIFTYONE_DEGREES_SIGNAL_WAIT(s); } FIFTYONE_DEGREES_SIGNAL_CLOSE(s); fiftyoneDegreesMutex m; FIFTYONE_DEGREES_MUTEX_CREATE(m); FIFTYONE_DEGREES_MUTEX_LOCK(&m); FIFTYONE_DEGREES_MUTEX_UNLOCK(&m); FIFTYONE_DEGREES_MUTEX_CLOSE(m); break; }
			}
			state(mix((uint64_t)kind, mix((uint64_t)op.id, (uint64_t)c.consumed))); probe(opnS(kind)); opEnd();
		}
	};
	c.turn.assign((size_t)T, 0); if (kind == RING) { c.turn[0] = 1; FIFTYONE_DEGREES_SIGNAL_SET(c.sig[0]); }
	int feeders = 0; std::vector<int> tids; for (int t = 1; t <= T; t++) tids.push_back(spawn([&, t] { body(t); if (kind == FEED && t > 1) { if (++feeders == T - 1) { c.ended = true; c.announced++; FIFTYONE_DEGREES_SIGNAL_SET(c.sig[0]); } } }));
	joinAll(); if (kind == MUTEX) { long sum = c.count[0] + c.count[1] + c.count[2], want = 0; for (auto &t : p.th) want += (long)t.size(); SIM_CHECK(sum == want, "not-exclusive", "%ld increments under the mutexes, %ld kept", want, sum); }
	opBegin(fo); for (auto s : c.sig) FIFTYONE_DEGREES_SIGNAL_CLOSE(s); for (auto &m : c.mtx) FIFTYONE_DEGREES_MUTEX_CLOSE(m); leakCheck(mark, "signals");
}
void genSig(Plan &p, Rng &r) {
	int kind = r.pick({LOCKED, LOCKED, RING, FEED, MUTEX, CYCLE}), T = kind == FEED || kind == RING ? (int)r.range(2, 4) : (int)r.range(1, 5); p.set("kind", kind); p.set("step_cap", 6000000); int rounds = (int)r.range(1, 6);
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = kind == RING ? rounds : kind == FEED && t == 1 ? 1 : (int)r.range(1, 6); for (int i = 0; i < n; i++) p.add(t, kind, (int64_t)r.below(3), (int64_t)r.below(kind == LOCKED ? 2 : 4), (int64_t)r.below(4), (int64_t)r.below(4)); }
	p.enable(FK_SPURIOUS_WAKE, r.pick({0, 500, 3000})); p.set("f_max", 40); if (r.chance(1, 5)) p.set("fn_malloc", r.range(1, 3));
}
SIM_SCENARIO(signals, genSig, runSig, opnS);
}
