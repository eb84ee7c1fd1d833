#include "rt_int.h"
#include <cstdlib>
#include <cxxabi.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

namespace sim {
const char *faultNames[FK_COUNT] = {
	"malloc", "open", "read_eio", "read_short", "write_enospc", "write_short", "flush_close",
	"seek", "tell", "remove", "mkdir", "opendir", "readlink", "crash", "clock_jump", "clock_fail",
	"load", "spurious_wake", "weak_cas", "stall", "early_eof", "truncate"};
Glob G; Shared *SH;
void (*onProcCrash)(int) = nullptr;

// ---------------------------------------------------------------- switching
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size sim_switch,.-sim_switch
)");

static void switchTo(Fiber *n) {
	Fiber *c = G.cur;
	if (c == n) return;
	c->err = errno;
	void **eg = (void **)__cxxabiv1::__cxa_get_globals();
	c->eh[0] = eg[0]; c->eh[1] = eg[1];
	eg[0] = n->eh[0]; eg[1] = n->eh[1];
	G.switches++;
	G.shash = mix(G.shash, ((uint64_t)c->id << 56) ^ ((uint64_t)c->opid << 40) ^ (c->step << 8) ^ (uint64_t)n->id);
	G.afterSwitchFrom = c;
	G.afterSwitchPc = c->depth > 0 && c->depth <= 256 ? c->pcs[c->depth - 1] : 0;
	G.cur = n;
	sim_switch(&c->sp, n->sp);
	errno = G.cur->err;
}
static void resetCountdown();
static Fiber *pickNext(bool forced);
static void fiberMain() {
	Fiber *f = G.cur;
	errno = 0;
	resetCountdown();
	f->fn();
	f->st = FS_DONE;
	f->opid = 0; // (step keeps counting: keys stay unique)
	wakeAll(f);
	wakeAll(&G);
	if (f->id == 0) { // main fiber finished: back to the OS stack
		void *dummy;
		G.active = false;
		sim_switch(&dummy, G.mainsp);
	}
	Fiber *n = pickNext(true);
	switchTo(n);
	abort();
}
static const uintptr_t STACKS = 0x500000000000ull; static const size_t STK = 512 * 1024;
static Fiber *newFiber(std::function<void()> fn, int proc) {
	Fiber *f = new Fiber;
	f->id = (int)G.f.size(); f->fn = std::move(fn); f->proc = proc;
	f->stackSize = STK;
	char *base = (char *)(STACKS + (uintptr_t)f->id * (STK * 2));
	f->stack = (char *)mmap(base, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (f->stack == MAP_FAILED) { perror("mmap stack"); _exit(3); }
	uintptr_t top = (uintptr_t)f->stack + STK - 64;
	top &= ~(uintptr_t)15;
	void **s = (void **)top;
	*--s = nullptr;               // fake return address of fiberMain
	*--s = (void *)fiberMain;     // ret target; rsp%16==8 at entry
	for (int i = 0; i < 6; i++) *--s = nullptr;
	f->sp = s;
	f->prio = (int)G.srng.below(1 << 20) + 1000;
	G.f.push_back(f);
	return f;
}
Fiber *self() { return G.cur; }
int spawn(std::function<void()> fn, int proc) {
	NoPreempt np;
	Fiber *f = newFiber(std::move(fn), proc);
	return f->id;
}
static bool allDone() { for (size_t i = 1; i < G.f.size(); i++) if (G.f[i]->st != FS_DONE) return false; return true; }
void joinAll() { while (!allDone()) blockOn(&G, "join"); }
bool done(int t) { return G.f[t]->st == FS_DONE; }
int tid() { return G.cur ? G.cur->id : -1; }
int proc() { return G.cur ? G.cur->proc : 0; }
int procOf(int t) { return G.f[t]->proc; }
uint64_t seq() { return G.steps; }
Rng &rng() { return G.urng; }

// ---------------------------------------------------------------- scheduling
// All of the step budget after its first fortieth is fair: round robin with a short quantum, the same in generation
// and replay (not recorded), so that only a real lack of progress exceeds the budget.
static bool fair() { return G.strategy != 4 && G.steps > G.cap / 40; }
static void clampTo(uint64_t at) { int64_t left = (int64_t)at + 1 - (int64_t)G.steps; if (left >= 1 && G.countdown > left) G.countdown = left; }
static void resetCountdown() {
	if (fair()) { G.kindmask = 0; G.countdown = 50 + (int64_t)G.qrng.below(100); clampTo(G.cap); return; }
	if (G.replay) {
		G.countdown = 1ll << 60; G.kindmask = 0;
		Fiber *f = G.cur;
		auto it = G.rs.find(((uint64_t)f->id << 32) | (uint32_t)f->opid);
		if (it != G.rs.end())
			for (auto &e : it->second) if (e.first > f->step) { G.countdown = (int64_t)(e.first - f->step); break; }
		clampTo(G.cap / 40); return;
	}
	switch (G.strategy) {
	case 0: // random walk over every access
		G.countdown = 1 + (int64_t)G.srng.below(G.swDen * 2); G.kindmask = 0; break;
	case 1: // only at synchronisation and I/O points
		G.countdown = 2000; G.kindmask = K_SYNC | K_IO | K_EXPL; break;
	case 2: // priority change points
		G.countdown = G.nextChange > G.steps ? (int64_t)(G.nextChange - G.steps) : 5000; G.kindmask = 0; break;
	case 4: // only between operations, as one thread that uses many objects would
		G.countdown = 1ll << 40; G.kindmask = K_OP; break;
	case 3: // serial (no preemption)
		G.countdown = 1ll << 40; G.kindmask = 0; break;
	}
	if (G.stallVictim >= 0 && G.stallAt > G.steps && G.strategy != 4) G.countdown = std::min<int64_t>(G.countdown, (int64_t)(G.stallAt - G.steps));
	clampTo(G.cap / 40);
}
static bool runnable(Fiber *f) { return f->st == FS_RUN; }
static Fiber *rrNext() {
	size_t n = G.f.size();
	for (size_t k = 1; k <= n; k++) { Fiber *f = G.f[(G.cur->id + k) % n]; if (runnable(f)) return f; }
	return nullptr;
}
static void deadlock() {
	std::string s;
	for (auto f : G.f) if (f->st == FS_BLOCK) { char b[96]; snprintf(b, sizeof b, " t%d(op%d)@%p", f->id, f->opid, f->waitOn); s += b; }
	violation("deadlock", "no thread can make progress:%s", s.c_str());
}
static void record(Fiber *next) {
	NoPreempt np;
	if (G.nsched < MAXSCHED) { G.sched.push_back({G.cur->id, G.cur->opid, G.cur->step, next->id}); G.nsched++; }
	else G.schedOverflow = true;
}
static Fiber *chooseRandom(bool excludeCur) {
	Fiber *c[64]; int n = 0;
	for (auto f : G.f) if (runnable(f) && !(excludeCur && f == G.cur) && n < 64 && f->stallUntil <= G.steps) c[n++] = f;
	if (!n) for (auto f : G.f) if (runnable(f) && !(excludeCur && f == G.cur) && n < 64) c[n++] = f;
	if (!n) return nullptr;
	if (G.strategy == 2) { Fiber *b = c[0]; for (int i = 1; i < n; i++) if (c[i]->prio > b->prio) b = c[i]; return b; }
	return c[G.srng.below(n)];
}
static Fiber *replayChoice() {
	auto it = G.rs.find(((uint64_t)G.cur->id << 32) | (uint32_t)G.cur->opid);
	if (it == G.rs.end()) return nullptr;
	for (auto &e : it->second) if (e.first == G.cur->step) {
		if (e.second < (int)G.f.size() && runnable(G.f[e.second])) return G.f[e.second];
		return nullptr;
	}
	return nullptr;
}
// current fiber cannot continue
static Fiber *pickNext(bool) {
	G.cur->step++; G.steps++;
	Fiber *def = rrNext();
	if (!def) deadlock();
	Fiber *n;
	if (fair()) return def;
	if (G.replay) { n = replayChoice(); if (!n) n = def; }
	else if (G.strategy == 3) n = def;
	else n = chooseRandom(true);
	if (n != def) record(n);
	return n;
}
void decide(int kind) {
	if (G.steps > G.cap) violation("no-progress", "step budget of %llu exceeded (op %d of t%d)", (unsigned long long)G.cap, G.cur->opid, G.cur->id);
	Fiber *n = nullptr;
	if (fair()) {
		n = rrNext();
		if (n && n != G.cur) switchTo(n);
		resetCountdown(); return;
	}
	if (G.replay) {
		n = replayChoice();
	} else {
		if (G.stallVictim >= 0 && G.steps >= G.stallAt && G.strategy != 4) {
			if (G.stallVictim < (int)G.f.size()) {
				G.f[G.stallVictim]->stallUntil = G.steps + G.stallLen; G.fired[FK_STALL]++;
				if (G.cur->id == G.stallVictim) n = chooseRandom(true);
			}
			G.stallVictim = -1;
		}
		if (!n) {
			switch (G.strategy) {
			case 0: n = chooseRandom(false); break;
			case 1: if (kind != K_MEM ? G.srng.below(G.syncDen) == 0 : true) n = chooseRandom(false); break;
			case 4: if (kind == K_OP) n = chooseRandom(false); break;
			case 2:
				if (G.steps >= G.nextChange && !G.changes.empty()) { G.cur->prio = G.lowPrio--; G.changes.erase(G.changes.begin()); G.nextChange = G.changes.empty() ? ~0ull >> 2 : G.changes[0]; }
				n = chooseRandom(false); break;
			default: break;
			}
		}
	}
	if (n && n != G.cur) {
		if (!G.replay || true) record(n);
		switchTo(n);
	}
	resetCountdown();
}
void blockOn(const void *obj, const char *) {
	Fiber *f = G.cur;
	f->st = FS_BLOCK; f->waitOn = obj;
	Fiber *n = pickNext(true);
	switchTo(n);
	resetCountdown();
}
void wakeAll(const void *obj) { for (auto f : G.f) if (f->st == FS_BLOCK && f->waitOn == obj) { f->st = FS_RUN; f->waitOn = nullptr; } }
bool wakeOne(const void *obj) {
	std::vector<Fiber *> w;
	for (auto f : G.f) if (f->st == FS_BLOCK && f->waitOn == obj) w.push_back(f);
	if (w.empty()) return false;
	Fiber *f = w[G.hrng.below(w.size())];
	f->st = FS_RUN; f->waitOn = nullptr; f->signalled = true;
	return true;
}
void block(const void *o) { blockOn(o, "harness"); }
void wake(const void *o) { wakeAll(o); }
void yieldPoint() { yp(K_EXPL); }
void opBegin(const Op &op) {
	Fiber *f = G.cur;
	f->opid = op.id; f->step = 0; memset(f->fc, 0, sizeof f->fc);
	event(mix(0x0b, op.id));
	if (G.replay) resetCountdown();
	yp(G.strategy == 4 ? K_OP : K_EXPL);
}
void opEnd() { yp(G.strategy == 4 ? K_OP : K_EXPL); }
NoPreempt::NoPreempt() { if (G.cur) G.cur->np++; }
NoPreempt::~NoPreempt() { if (G.cur) G.cur->np--; }

bool procAlive(int p) { return p >= (int)G.procDead.size() || !G.procDead[p]; }
void crashProc(int p) {
	if ((int)G.procDead.size() <= p) G.procDead.resize(p + 1);
	G.procDead[p] = true;
	for (auto f : G.f) if (f->proc == p && f->id != 0) { f->st = FS_DONE; }
	if (onProcCrash) onProcCrash(p);
	wakeAll(&G);
	if (G.cur->proc == p && G.cur->id != 0) { Fiber *n = pickNext(true); switchTo(n); abort(); }
}

// ---------------------------------------------------------------- events, faults
void event(uint64_t h) { G.ehash = mix(G.ehash, mix(h, G.cur ? G.cur->id : 99)); }
void eventf(const char *fmt, ...) {
	char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	uint64_t h = 14695981039346656037ull; for (char *c = b; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
	event(h);
	if (G.verbose) { char l[640]; int n = snprintf(l, sizeof l, "  [%7llu] t%d: %s\n", (unsigned long long)G.steps, tid(), b); ssize_t r = write(1, l, n); (void)r; }
}
void state(uint64_t h) { h = mix(h, 77) & ((1 << 22) - 1); SH->stateBits[h >> 6] |= 1ull << (h & 63); }
void probe(const char *name) {
	for (int i = 0; i < SH->nprobe; i++) if (!strcmp(SH->probeName[i], name)) { SH->probeCount[i]++; return; }
	if (SH->nprobe < MAXPROBE) { strncpy(SH->probeName[SH->nprobe], name, 47); SH->probeCount[SH->nprobe++] = 1; }
}
int64_t fault(FaultKind k, int64_t range) {
	if (!G.active || !G.plan) return -1;
	Fiber *f = G.cur;
	if (f->np && k != FK_LOAD) return -1;
	NoPreempt np;
	int n = ++f->fc[k];
	int64_t r = -1;
	if (!G.fon || f->masked) {}
	else if (G.replay) {
		auto it = G.rf.find({f->id, f->opid, (int)k, n});
		if (it != G.rf.end()) r = it->second;
		if (r >= range) r = range - 1;
	} else if ((int64_t)G.firedAll < G.fmax) {
		uint64_t att = ++G.fatt[k];
		bool hit = G.fn[k] > 0 ? att == (uint64_t)G.fn[k] : (G.fp[k] > 0 && G.frng.below(10000) < (uint64_t)G.fp[k]);
		if (hit) r = (int64_t)G.frng.below((uint64_t)range);
	}
	if (r >= 0) {
		G.fired[k]++; G.firedAll++; f->fired++;
		if ((int)G.flog.size() < MAXFAULT) G.flog.push_back({f->id, f->opid, (int)k, n, r});
		eventf("FAULT %s #%d param %lld", faultNames[k], n, (long long)r);
	}
	return r;
}
uint64_t faultsFired() { return G.firedAll; }
uint64_t faultsFired(FaultKind k) { return G.fired[k]; }
uint64_t faultsFiredBy(int t) { return G.f[t]->fired; }
void faultsOff() { G.fon = false; }
void faultsOn() { G.fon = true; }
// masks belong to the thread that sets them: others go on under faults meanwhile
FaultMask::FaultMask(bool on) : old(G.cur ? G.cur->masked : false) { if (G.cur) G.cur->masked = !on; }
FaultMask::~FaultMask() { if (G.cur) G.cur->masked = old; }

// ---------------------------------------------------------------- clock
static const uint64_t CLK_BASE = 1700000000ull * 1000000000ull;
uint64_t clockNs() {
	uint64_t t = CLK_BASE + G.clkExtra + G.steps * 20;
	if (G.clkFrozen) { if (!G.clkFrozenAt) G.clkFrozenAt = t; t = G.clkFrozenAt; }
	return t / G.clkGran * G.clkGran;
}
void clockAdvance(uint64_t ns) { G.clkExtra += ns; }
void clockConfig(uint64_t g, bool fz) { G.clkGran = g ? g : 1; G.clkFrozen = fz; G.clkFrozenAt = 0; }

// ---------------------------------------------------------------- reporting
void writePlan(FILE *o, const char *cls);
static void fillShared() {
	SH->ehash = G.ehash; SH->shash = G.shash; SH->steps = G.steps; SH->cap = G.cap; SH->switches = G.switches;
	SH->simns = G.steps * 20 + G.clkExtra;
	for (int i = 0; i < FK_COUNT; i++) SH->fired[i] = G.fired[i];
}
static void finish(int st, const char *cls, const char *msg) {
	G.active = false;
	fillShared();
	snprintf(SH->cls, sizeof SH->cls, "%s", cls); snprintf(SH->msg, sizeof SH->msg, "%s", msg);
	SH->nframes = 0;
	if (G.cur) {
		Fiber *f = G.cur;
		int d = std::min(f->depth, 256);
		for (int i = d - 1; i >= 0 && SH->nframes < 12; i--) SH->frames[SH->nframes++] = f->pcs[i];
		G.ehash = mix(G.ehash, f->id);
	}
	if (st == 2) {
		uint64_t sg = 1469598103934665603ull; for (const char *c = cls; *c; c++) sg = (sg ^ *c) * 1099511628211ull;
		for (int i = 0; i < 2 && i < SH->nframes; i++) sg = mix(sg, SH->frames[i]);
		int i; for (i = 0; i < SH->nsig; i++) if (SH->sigs[i] == sg) break;
		SH->duplicate = i < SH->nsig;
		if (i == SH->nsig && SH->nsig < MAXSIG) { SH->sigs[SH->nsig] = sg; SH->sigCount[SH->nsig++] = 0; }
		if (i < MAXSIG) SH->sigCount[i]++;
		if (!SH->duplicate && G.outdir) {
			char p[512]; snprintf(p, sizeof p, "%s/viol-%llu.plan", G.outdir, (unsigned long long)SH->runId);
			FILE *o = ::fopen(p, "w"); if (o) { writePlan(o, cls); ::fclose(o); }
		}
	}
	SH->status = st;
	_exit(0);
}
void violation(const char *cls, const char *fmt, ...) {
	char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	if (G.dead) _exit(0);
	G.dead = true;
	if (G.cur) G.cur->np++;
	if (G.verbose) { char l[1200]; int n = snprintf(l, sizeof l, "  VIOLATED %s: %s\n", cls, b); ssize_t r = ::write(1, l, n); (void)r; }
	finish(2, cls, b); _exit(0);
}
void harnessError(const char *fmt, ...) {
	char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	finish(3, "harness", b); _exit(0);
}

// ---------------------------------------------------------------- heap
static const uintptr_t ARENA = 0x600000000000ull, SHADOW = 0x610000000000ull; static const size_t ASZ = 512ull << 20;
struct Chunk { uintptr_t a; size_t n, cap; int st; bool user; uint64_t seq; uintptr_t pc; uintptr_t freePc; };
static std::vector<Chunk> chunks; static uintptr_t brk_; static uint64_t allocSeq; static size_t liveN, liveB;
static std::map<size_t, std::vector<int>> freeList;
struct Hdr { uint64_t magic; uint64_t idx; };
static const uint64_t HMAGIC = 0x51D3051D3051D305ull;
static void heapInit() {
	if (brk_) return;
	void *p = mmap((void *)ARENA, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	void *q = mmap((void *)SHADOW, ASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED || q == MAP_FAILED) { perror("mmap heap"); _exit(3); }
	brk_ = ARENA + 4096;
}
static inline uint8_t *sh(uintptr_t a) { return (uint8_t *)(a - ARENA + SHADOW); }
void heapSetReuse(int m) { G.heapMode = m; }
bool heapOwns(const void *p) { return (uintptr_t)p - ARENA < ASZ; }
static Chunk *chunkOf(const void *p) {
	Hdr *h = (Hdr *)((uintptr_t)p - sizeof(Hdr));
	if (!heapOwns(h) || h->magic != HMAGIC || h->idx >= chunks.size() || chunks[h->idx].a != (uintptr_t)p) return nullptr;
	return &chunks[h->idx];
}
bool heapLive(const void *p) { if (!heapOwns(p)) return false; Chunk *c = chunkOf(p); return c && c->st == 1; }
size_t heapSizeOf(const void *p) { Chunk *c = heapOwns(p) ? chunkOf(p) : nullptr; return c ? c->n : 0; }
static uintptr_t curpc() { return G.cur && G.cur->depth > 0 && G.cur->depth <= 256 ? G.cur->pcs[G.cur->depth - 1] : 0; }
void *heapAlloc(size_t n, size_t align, bool user) {
	heapInit();
	NoPreempt np;
	if (align < 16) align = 16;
	if (n > (64ull << 20)) { probe("huge_malloc"); errno = ENOMEM; return nullptr; }
	size_t cap = (n + 15) & ~15ull;
	int idx = -1;
	if (G.heapMode && align <= 16) {
		auto it = freeList.find(cap);
		if (it != freeList.end() && !it->second.empty() && (G.heapMode == 1 || G.hrng.below(2))) {
			idx = it->second.back(); it->second.pop_back(); probe("heap_address_reused");
		}
	}
	uintptr_t a;
	if (idx < 0) {
		a = (brk_ + 32 + align - 1) & ~(align - 1);
		if (a + cap + 64 > ARENA + ASZ) { harnessError("arena exhausted"); }
		brk_ = a + cap + 32;
		idx = (int)chunks.size(); chunks.push_back(Chunk()); chunks[idx].cap = cap; chunks[idx].a = a;
		Hdr *h = (Hdr *)(a - sizeof(Hdr)); h->magic = HMAGIC; h->idx = idx;
	} else a = chunks[idx].a;
	Chunk &c = chunks[idx];
	c.n = n; c.st = 1; c.user = user; c.seq = ++allocSeq; c.pc = curpc(); c.freePc = 0;
	memset(sh(a), 0, cap); memset(sh(a), 1, n);
	if (G.fill == 256) for (size_t i = 0; i < n; i++) ((uint8_t *)a)[i] = (uint8_t)G.hrng.next();
	else memset((void *)a, G.fill, n);
	if (user) { liveN++; liveB += n; }
	return (void *)a;
}
void *heapData(const void *src, size_t n) { void *p = heapAlloc(n, 16, false); if (n) memcpy(p, src, n); return p; }
void heapFree(void *p) {
	if (!p) return;
	NoPreempt np;
	if (!heapOwns(p)) violation("bad-free", "free of a pointer that malloc did not return (%p)", p);
	Chunk *c = chunkOf(p);
	if (!c) violation("bad-free", "free of a pointer that malloc did not return (%p)", p);
	if (c->st != 1) violation("double-free", "block of %zu bytes freed twice", c->n);
	c->st = 2; c->freePc = curpc();
	memset(sh(c->a), 2, c->n);
	memset((void *)c->a, 0xDD, c->n);
	if (c->user) { liveN--; liveB -= c->n; }
	if (G.heapMode) freeList[c->cap].push_back((int)(c - &chunks[0]));
}
static void badAccess(uintptr_t a, size_t n, bool w, const char *what) {
	for (size_t i = 0; i < n; i++) {
		uint8_t s = *sh(a + i);
		if (s == 1) continue;
		// nearest chunk
		size_t best = 0; bool found = false;
		for (size_t k = 0; k < chunks.size(); k++) if (chunks[k].a <= a + i && (!found || chunks[k].a > chunks[best].a)) { best = k; found = true; }
		size_t bn = found ? chunks[best].n : 0; long off = found ? (long)(a + i - chunks[best].a) : 0;
		if (s == 2) violation("use-after-free", "%s%s of %zu bytes at offset %ld of a freed block of %zu bytes", what ? what : "", w ? " write" : " read", n, off, bn);
		violation("out-of-bounds", "%s%s of %zu bytes at offset %ld of a block of %zu bytes", what ? what : "", w ? " write" : " read", n, off, bn);
	}
}
void heapCheck(const void *p, size_t n, bool w, const char *what) {
	uintptr_t a = (uintptr_t)p;
	if (a - ARENA >= ASZ || !n) return;
	if (a + n - ARENA > ASZ) { badAccess(a, 1, w, what); violation("out-of-bounds", "%s access of %zu bytes", what ? what : "", n); }
	if (memchr(sh(a), 0, n) || memchr(sh(a), 2, n)) badAccess(a, n, w, what);
}
static inline __attribute__((always_inline)) void fastCheck(uintptr_t a, size_t n, bool w) {
	if (__builtin_expect(a - ARENA >= ASZ - 16, 1)) return;
	bool ok;
	switch (n) {
	case 1: ok = *sh(a) == 1; break;
	case 2: { uint16_t v; memcpy(&v, sh(a), 2); ok = v == 0x0101; break; }
	case 4: { uint32_t v; memcpy(&v, sh(a), 4); ok = v == 0x01010101u; break; }
	case 8: { uint64_t v; memcpy(&v, sh(a), 8); ok = v == 0x0101010101010101ull; break; }
	default: { uint64_t v[2]; memcpy(v, sh(a), 16); ok = v[0] == 0x0101010101010101ull && v[1] == v[0]; break; }
	}
	if (__builtin_expect(!ok, 0)) badAccess(a, n, w, nullptr);
}
size_t heapLiveCount() { return liveN; }
size_t heapLiveBytes() { return liveB; }
uint64_t heapMark() { return allocSeq; }
size_t liveSince(uint64_t mark, size_t *bytes) {
	size_t n = 0, b = 0; for (auto &c : chunks) if (c.st == 1 && c.user && c.seq > mark) { n++; b += c.n; }
	if (bytes) *bytes = b; return n;
}
void leakCheck(uint64_t mark, const char *what) {
	size_t n = 0, b = 0; const Chunk *first = nullptr;
	for (auto &c : chunks) if (c.st == 1 && c.user && c.seq > mark) { n++; b += c.n; if (!first || c.seq < first->seq) first = &c; }
	if (n) {
		if (G.cur) { G.cur->depth = 1; G.cur->pcs[0] = first->pc; }
		violation("leak", "%s: %zu blocks, %zu bytes still allocated (first: %zu bytes)", what, n, b, first->n);
	}
}

// ---------------------------------------------------------------- signals of the real process
static void onSig(int sg, siginfo_t *si, void *) {
	if (sg == SIGSEGV || sg == SIGBUS) {
		uintptr_t a = (uintptr_t)si->si_addr;
		violation("crash", "memory access fault at %s%s", a < 65536 ? "null-page address" : "wild address", "");
	}
	if (sg == SIGFPE) violation("crash", "arithmetic fault");
	if (sg == SIGABRT) violation("crash", "abort");
	if (sg == SIGVTALRM) { static uint64_t last = 0; if (G.steps != last) { last = G.steps; return; } violation("hang", "no simulated step for a long time"); }
	violation("crash", "signal %d", sg);
}
static void setupChildSignals() {
	static char alt[65536];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
	for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = it.it_interval.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ---------------------------------------------------------------- run
static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
void registerScenario(const Scenario &s) { scenarios().push_back(s); }
const Scenario *findScenario(const std::string &n) { for (auto &s : scenarios()) if (n == s.name) return &s; return nullptr; }
static const Scenario *curScen;

void writePlan(FILE *o, const char *cls) {
	const Plan &p = *G.plan;
	fprintf(o, "scenario %s\nseed %llu\n", p.scenario.c_str(), (unsigned long long)p.seed);
	for (auto &kv : p.p) fprintf(o, "param %s %lld\n", kv.first.c_str(), (long long)kv.second);
	for (size_t t = 0; t < p.th.size(); t++) for (auto &op : p.th[t])
		fprintf(o, "op %zu %d %d %lld %lld %lld %lld # %s\n", t, op.id, op.code, (long long)op.a, (long long)op.b, (long long)op.c, (long long)op.d, curScen && curScen->opname ? curScen->opname(op.code) : "");
	for (auto &s : G.sched) fprintf(o, "sched %d %d %llu %d\n", s.tid, s.op, (unsigned long long)s.step, s.next);
	for (auto &f : G.flog) fprintf(o, "fault %d %d %s %d %lld\n", f.tid, f.op, faultNames[f.kind], f.nth, (long long)f.param);
	if (cls) fprintf(o, "expect %s\n", cls);
	if (G.schedOverflow) fprintf(o, "overflow 1\n");
}
bool readPlan(FILE *i, Plan &p, std::string &expect) {
	char line[1024]; p.replay = true;
	while (fgets(line, sizeof line, i)) {
		char w[64], s1[256]; long long a, b, c, d; int t, id, code, n, nth; unsigned long long u;
		if (sscanf(line, "%63s", w) != 1) continue;
		if (!strcmp(w, "scenario")) { sscanf(line, "%*s %255s", s1); p.scenario = s1; }
		else if (!strcmp(w, "seed")) { sscanf(line, "%*s %llu", &u); p.seed = u; }
		else if (!strcmp(w, "param")) { sscanf(line, "%*s %255s %lld", s1, &a); p.p[s1] = a; }
		else if (!strcmp(w, "op")) {
			if (sscanf(line, "%*s %d %d %d %lld %lld %lld %lld", &t, &id, &code, &a, &b, &c, &d) == 7) {
				while ((int)p.th.size() <= t) p.th.emplace_back();
				Op o; o.id = id; o.code = code; o.a = a; o.b = b; o.c = c; o.d = d; p.th[t].push_back(o);
				if (id >= p.nextId) p.nextId = id + 1;
			}
		} else if (!strcmp(w, "threads")) { sscanf(line, "%*s %d", &n); while ((int)p.th.size() < n) p.th.emplace_back(); }
		else if (!strcmp(w, "sched")) { if (sscanf(line, "%*s %d %d %llu %d", &t, &id, &u, &n) == 4) p.sched.push_back({t, id, u, n}); }
		else if (!strcmp(w, "fault")) {
			if (sscanf(line, "%*s %d %d %255s %d %lld", &t, &id, s1, &nth, &a) == 5)
				for (int k = 0; k < FK_COUNT; k++) if (!strcmp(faultNames[k], s1)) p.faults.push_back({t, id, k, nth, a});
		} else if (!strcmp(w, "overflow")) { p.overflow = true; }
		else if (!strcmp(w, "expect")) { sscanf(line, "%*s %255s", s1); expect = s1; }
	}
	if (p.overflow) { p.replay = false; p.sched.clear(); p.faults.clear(); } // too many switches to list: the seed decides them again
	int thn = (int)p.get("_threads", 0); while ((int)p.th.size() < thn) p.th.emplace_back();
	return !p.scenario.empty();
}

static void runPlan(const Plan &plan) { // in the child; returns normally when the run held
	heapInit();
	G.plan = &plan; G.replay = plan.replay;
	uint64_t sd = plan.seed;
	G.srng = Rng(mix(sd, 11)); G.frng = Rng(mix(sd, 22)); G.urng = Rng(mix(sd, 33)); G.hrng = Rng(mix(sd, 44)); G.qrng = Rng(mix(sd, 66));
	for (int k = 0; k < FK_COUNT; k++) {
		G.fp[k] = (int)plan.get((std::string("f_") + faultNames[k]).c_str());
		G.fn[k] = plan.get((std::string("fn_") + faultNames[k]).c_str());
		G.fatt[k] = G.fired[k] = 0;
	}
	G.fmax = plan.get("f_max", 1 << 30);
	G.heapMode = (int)plan.get("heap", 0); G.cxx = plan.get("cxx", 0);
	G.fill = (int)plan.get("fill", 0xBE);
	G.strategy = (int)plan.get("strategy", 3);
	G.swDen = (uint64_t)plan.get("sw_den", 16); G.syncDen = (uint64_t)plan.get("sync_den", 2);
	G.cap = (uint64_t)plan.get("step_cap", 1500000);
	G.clkGran = (uint64_t)plan.get("clk_gran", 1);
	if (plan.get("stall_at")) { G.stallVictim = (int)plan.get("stall_tid", 1); G.stallAt = (uint64_t)plan.get("stall_at"); G.stallLen = (uint64_t)plan.get("stall_len", 1000); }
	if (G.strategy == 2) {
		int d = (int)plan.get("pct_d", 3); uint64_t k = (uint64_t)plan.get("pct_k", 2000);
		for (int i = 0; i < d; i++) G.changes.push_back(1 + G.srng.below(k));
		std::sort(G.changes.begin(), G.changes.end());
		G.nextChange = G.changes.empty() ? ~0ull >> 2 : G.changes[0];
	}
	for (auto &s : plan.sched) G.rs[((uint64_t)s.tid << 32) | (uint32_t)s.op].push_back({s.step, s.next});
	for (auto &f : plan.faults) G.rf[{f.tid, f.op, f.kind, f.nth}] = f.param;
	const Scenario *sc = findScenario(plan.scenario);
	if (!sc) { fprintf(stderr, "no scenario %s\n", plan.scenario.c_str()); _exit(3); }
	curScen = sc;
	fsReset();
	Fiber *m = newFiber([&] { sc->run(plan); }, 0);
	G.cur = m; G.active = true;
	resetCountdown();
	sim_switch(&G.mainsp, m->sp);
	G.active = false;
	fsEndOfRun();
}
static void genSched(Plan &p, Rng &r) { // default scheduling knobs; scenarios may override
	switch (r.below(8)) {
	case 0: case 1: p.set("strategy", 0); p.set("sw_den", r.pick({2, 4, 8, 16, 40, 120, 400})); break;
	case 2: case 3: p.set("strategy", 1); p.set("sync_den", r.pick({1, 2, 3, 6})); break;
	case 4: case 5: case 6: p.set("strategy", 2); p.set("pct_d", r.range(1, 6)); p.set("pct_k", r.pick({100, 300, 1000, 3000, 10000})); break;
	case 7: p.set("strategy", 0); p.set("sw_den", r.pick({10, 100})); p.set("stall_at", r.range(1, 3000)); p.set("stall_tid", r.range(1, 3)); p.set("stall_len", r.pick({200, 2000, 200000})); break;
	}
	p.set("fill", r.pick({0xBE, 0x00, 0xFF, 0x01, 256}));
	p.set("heap", r.pick({0, 0, 1, 2}));
}
static void childRun(const std::string &scen, uint64_t seed, const std::map<std::string, int64_t> &over, Plan *rp) {
	setupChildSignals();
	Plan *p = rp ? rp : new Plan;
	if (!rp) {
		p->scenario = scen; p->seed = seed;
		Rng r(mix(seed, 55));
		genSched(*p, r);
		const Scenario *sc = findScenario(scen);
		if (!sc) { fprintf(stderr, "no scenario %s\n", scen.c_str()); _exit(3); }
		for (auto &kv : over) p->p[kv.first] = kv.second;
		sc->gen(*p, r);
		for (auto &kv : over) p->p[kv.first] = kv.second;
		p->set("_threads", (int64_t)p->th.size());
	}
	for (auto &t : p->th) for (auto &o : t) G.shash = mix(G.shash, mix(o.code, mix(o.a, mix(o.b, o.c))));
	runPlan(*p);
	G.ehash = mix(G.ehash, G.shash);
	for (auto &f : G.flog) G.ehash = mix(G.ehash, mix(f.kind, f.param));
	fillShared();
	if (SH->sampleLen == 0 && !rp) { // keep one whole plan as the sample of this worker
		char *buf = nullptr; size_t n = 0; FILE *o = open_memstream(&buf, &n); writePlan(o, nullptr); ::fclose(o);
		SH->sampleLen = (int)std::min(n, sizeof SH->sample - 1); memcpy(SH->sample, buf, SH->sampleLen);
	}
	SH->status = 1;
	_exit(0);
}
}

using namespace sim;
static void jstr(const char *s) { putchar('"'); for (; *s; s++) { if (*s == '"' || *s == '\\') printf("\\%c", *s); else if ((unsigned char)*s < 32) printf("\\u%04x", *s); else putchar(*s); } putchar('"'); }
static double now() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

extern "C" char __libc_single_threaded;
int main(int argc, char **argv) {
	if (argc < 2) return 3;
	__libc_single_threaded = 0;
	SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string mode = argv[1];
	if (mode == "list") { for (auto &s : scenarios()) puts(s.name); return 0; }
	if (mode == "batch") { // batch scenario start count tlimit outdir [k=v...]
		if (argc < 7) return 3;
		std::string sc = argv[2]; uint64_t s0 = strtoull(argv[3], 0, 10), cnt = strtoull(argv[4], 0, 10); double tl = atof(argv[5]); G.outdir = argv[6];
		std::map<std::string, int64_t> over; bool hashes = false; long maxv = 8;
		for (int i = 7; i < argc; i++) {
			if (!strcmp(argv[i], "--hashes")) { hashes = true; continue; }
			char *e = strchr(argv[i], '='); if (e) over[std::string(argv[i], e - argv[i])] = atoll(e + 1);
		}
		double t0 = now(); uint64_t runs = 0, viol = 0, err = 0, capUse = 0, steps = 0, sw = 0, faulted = 0; unsigned __int128 simns = 0; uint64_t fired[FK_COUNT] = {0}; uint64_t runsWith[FK_COUNT] = {0};
		std::vector<uint64_t> hs;
		fflush(stdout);
		for (uint64_t i = 0; i < cnt; i++) {
			if (now() - t0 > tl) break;
			SH->status = 0; SH->runId = s0 + i; SH->duplicate = 0;
			pid_t pid = fork();
			if (pid < 0) { usleep(10000); i--; continue; }
			if (pid == 0) { childRun(sc, s0 + i, over, nullptr); _exit(0); }
			int st; waitpid(pid, &st, 0);
			runs++; steps += SH->steps; if (SH->cap) capUse = std::max(capUse, SH->steps * 1000 / SH->cap); sw += SH->switches; simns += SH->simns;
			bool fa = false; for (int k = 0; k < FK_COUNT; k++) { fired[k] += SH->fired[k]; if (SH->fired[k]) { runsWith[k]++; fa = true; } }
			faulted += fa;
			hs.push_back(SH->shash);
			if (hashes) printf("H %llu %016llx %d\n", (unsigned long long)(s0 + i), (unsigned long long)SH->ehash, SH->status);
			if (SH->status == 2) {
				viol++;
				if (!SH->duplicate) {
					printf("V {\"seed\":%llu,\"cls\":", (unsigned long long)(s0 + i)); jstr(SH->cls); printf(",\"msg\":"); jstr(SH->msg);
					printf(",\"frames\":["); for (int k = 0; k < SH->nframes; k++) printf("%s\"%llx\"", k ? "," : "", (unsigned long long)SH->frames[k]);
					printf("],\"plan\":\"%s/viol-%llu.plan\"}\n", G.outdir, (unsigned long long)(s0 + i));
					fflush(stdout);
					if (--maxv <= 0) break;
				}
			} else if (SH->status != 1) {
				err++; printf("E {\"seed\":%llu,\"status\":%d,\"wait\":%d,\"msg\":", (unsigned long long)(s0 + i), SH->status, st); jstr(SH->msg); printf("}\n");
				if (err > 5) break;
			}
		}
		std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
		uint64_t nst = 0, nsi = 0; for (auto w : SH->stateBits) nst += __builtin_popcountll(w); for (auto w : SH->siteBits) nsi += __builtin_popcountll(w);
		printf("S {\"runs\":%llu,\"violations\":%llu,\"errors\":%llu,\"steps\":%llu,\"cap_permil\":%llu,\"switches\":%llu,\"simns\":%.0f,\"faulted_runs\":%llu,\"distinct\":%zu,\"states\":%llu,\"sites\":%llu,\"wall\":%.3f,\"fired\":{",
			(unsigned long long)runs, (unsigned long long)viol, (unsigned long long)err, (unsigned long long)steps, (unsigned long long)capUse, (unsigned long long)sw, (double)simns, (unsigned long long)faulted, hs.size(), (unsigned long long)nst, (unsigned long long)nsi, now() - t0);
		bool first = true; for (int k = 0; k < FK_COUNT; k++) if (fired[k]) { printf("%s\"%s\":[%llu,%llu]", first ? "" : ",", faultNames[k], (unsigned long long)fired[k], (unsigned long long)runsWith[k]); first = false; }
		printf("},\"probes\":{"); for (int k = 0; k < SH->nprobe; k++) { printf("%s", k ? "," : ""); jstr(SH->probeName[k]); printf(":%llu", (unsigned long long)SH->probeCount[k]); }
		printf("},\"sample\":"); SH->sample[SH->sampleLen] = 0; jstr(SH->sample); printf("}\n");
		// state and site bitmaps, schedule hashes: merged by the driver
		std::string fn = std::string(G.outdir) + "/cov-" + std::to_string(s0) + ".bin";
		FILE *o = fopen(fn.c_str(), "wb"); if (o) {
			fwrite(SH->stateBits, sizeof SH->stateBits, 1, o); fwrite(SH->siteBits, sizeof SH->siteBits, 1, o);
			fwrite(hs.data(), 8, hs.size(), o); fclose(o);
		}
		return 0;
	}
	if (mode == "replay" || mode == "gen") { // replay planfile [-v] ; gen scenario seed [-v] [k=v]
		int ai = 3; std::map<std::string, int64_t> over; Plan *rp = nullptr; std::string sc, expect; uint64_t seed = 0;
		if (mode == "replay") {
			FILE *i = fopen(argv[2], "r"); if (!i) return 3;
			rp = new Plan; if (!readPlan(i, *rp, expect)) return 3; fclose(i); sc = rp->scenario; seed = rp->seed;
		} else { sc = argv[2]; seed = strtoull(argv[3], 0, 10); ai = 4; }
		for (int i = ai; i < argc; i++) {
			if (!strcmp(argv[i], "-v")) G.verbose = true;
			else if (!strcmp(argv[i], "-o")) G.outdir = argv[++i];
			else { char *e = strchr(argv[i], '='); if (e) over[std::string(argv[i], e - argv[i])] = atoll(e + 1); }
		}
		SH->runId = seed;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) { childRun(sc, seed, over, rp); _exit(0); }
		int st; waitpid(pid, &st, 0);
		printf("R {\"status\":%d,\"cls\":", SH->status); jstr(SH->status >= 2 ? SH->cls : ""); printf(",\"msg\":"); jstr(SH->status >= 2 ? SH->msg : "");
		printf(",\"ehash\":\"%016llx\",\"steps\":%llu,\"switches\":%llu,\"wait\":%d,\"frames\":[", (unsigned long long)SH->ehash, (unsigned long long)SH->steps, (unsigned long long)SH->switches, st);
		for (int k = 0; k < (SH->status == 2 ? SH->nframes : 0); k++) printf("%s\"%llx\"", k ? "," : "", (unsigned long long)SH->frames[k]);
		printf("]}\n");
		return SH->status == 1 ? 0 : SH->status == 2 ? 1 : 3;
	}
	return 3;
}

// ---------------------------------------------------------------- TSan interface
#define PC() ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {
	if (!G.active) return; Fiber *f = G.cur;
	if (f->depth < 256) f->pcs[f->depth] = PC();
	f->depth++;
	if (f->depth > 2000) violation("crash", "unbounded recursion");
}
void __tsan_func_exit() { if (!G.active) return; if (G.cur->depth > 0) G.cur->depth--; }
#define ACC(name, n, w) void name(void *a) { if (!G.active) return; { Fiber *f = G.cur; if (f->depth > 0 && f->depth <= 256) f->pcs[f->depth - 1] = PC(); } yp(K_MEM); fastCheck((uintptr_t)a, n, w); }
ACC(__tsan_read1, 1, false) ACC(__tsan_read2, 2, false) ACC(__tsan_read4, 4, false) ACC(__tsan_read8, 8, false) ACC(__tsan_read16, 16, false)
ACC(__tsan_write1, 1, true) ACC(__tsan_write2, 2, true) ACC(__tsan_write4, 4, true) ACC(__tsan_write8, 8, true) ACC(__tsan_write16, 16, true)
ACC(__tsan_unaligned_read2, 2, false) ACC(__tsan_unaligned_read4, 4, false) ACC(__tsan_unaligned_read8, 8, false) ACC(__tsan_unaligned_read16, 16, false)
ACC(__tsan_unaligned_write2, 2, true) ACC(__tsan_unaligned_write4, 4, true) ACC(__tsan_unaligned_write8, 8, true) ACC(__tsan_unaligned_write16, 16, true)
ACC(__tsan_read_write1, 1, true) ACC(__tsan_read_write2, 2, true) ACC(__tsan_read_write4, 4, true) ACC(__tsan_read_write8, 8, true) ACC(__tsan_read_write16, 16, true)
ACC(__tsan_unaligned_read_write2, 2, true) ACC(__tsan_unaligned_read_write4, 4, true) ACC(__tsan_unaligned_read_write8, 8, true) ACC(__tsan_unaligned_read_write16, 16, true)
ACC(__tsan_vptr_read, 8, false)
ACC(__tsan_volatile_read1, 1, false) ACC(__tsan_volatile_read2, 2, false) ACC(__tsan_volatile_read4, 4, false) ACC(__tsan_volatile_read8, 8, false) ACC(__tsan_volatile_read16, 16, false)
ACC(__tsan_volatile_write1, 1, true) ACC(__tsan_volatile_write2, 2, true) ACC(__tsan_volatile_write4, 4, true) ACC(__tsan_volatile_write8, 8, true) ACC(__tsan_volatile_write16, 16, true)
void __tsan_vptr_update(void **a, void *) { if (!G.active) return; yp(K_MEM); fastCheck((uintptr_t)a, 8, true); }
void __tsan_read_range(void *a, size_t n) { if (!G.active) return; yp(K_MEM); heapCheck(a, n, false, nullptr); }
void __tsan_write_range(void *a, size_t n) { if (!G.active) return; yp(K_MEM); heapCheck(a, n, true, nullptr); }
static inline void memPc(uintptr_t pc) { Fiber *f = G.cur; if (G.active && f && f->depth > 0 && f->depth <= 256) f->pcs[f->depth - 1] = pc; }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
	memPc(PC()); yp(K_MEM); heapCheck(s, n, false, "memcpy"); heapCheck(d, n, true, "memcpy");
	if (n > 8 && G.active) { size_t h = n / 2; memmove(d, s, h); yp(K_MEM); memmove((char *)d + h, (const char *)s + h, n - h); return d; } // copies are not atomic
	return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) { memPc(PC()); yp(K_MEM); heapCheck(s, n, false, "memmove"); heapCheck(d, n, true, "memmove"); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { memPc(PC()); yp(K_MEM); heapCheck(d, n, true, "memset"); return memset(d, c, n); }
#define ATOMS(B, T) \
T __tsan_atomic##B##_load(const volatile T *a, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), false, "atomic"); return *a; } \
void __tsan_atomic##B##_store(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); *a = v; } \
T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *a, T v, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; if (o == *c && fault(FK_WEAK_CAS) < 0) { *a = v; return 1; } *c = o; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int, int) { memPc(PC()); yp(K_SYNC); heapCheck((void *)a, sizeof(T), true, "atomic"); T o = *a; if (o == c) *a = v; return o; }
ATOMS(8, uint8_t) ATOMS(16, uint16_t) ATOMS(32, uint32_t) ATOMS(64, uint64_t)
typedef unsigned __int128 u128;
ATOMS(128, u128)
void __tsan_atomic_thread_fence(int) { yp(K_SYNC); }
void __tsan_atomic_signal_fence(int) {}
bool sim___atomic_compare_exchange(size_t n, void *obj, void *exp, void *des, int, int) {
	memPc(PC()); yp(K_SYNC); heapCheck(obj, n, true, "atomic");
	if (!memcmp(obj, exp, n)) { memcpy(obj, des, n); return true; }
	memcpy(exp, obj, n); return false;
}
bool sim___atomic_compare_exchange_16(void *obj, void *exp, u128 des, int a, int b) { return sim___atomic_compare_exchange(16, obj, exp, &des, a, b); }
void sim___atomic_load(size_t n, void *obj, void *ret, int) { memPc(PC()); yp(K_SYNC); heapCheck(obj, n, false, "atomic"); memcpy(ret, obj, n); }
void sim___atomic_store(size_t n, void *obj, void *val, int) { memPc(PC()); yp(K_SYNC); heapCheck(obj, n, true, "atomic"); memcpy(obj, val, n); }
void sim___atomic_exchange(size_t n, void *obj, void *val, void *ret, int) { memPc(PC()); yp(K_SYNC); heapCheck(obj, n, true, "atomic"); char t[64]; memcpy(t, obj, n); memcpy(obj, val, n); memcpy(ret, t, n); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *) { const char *b = strrchr(f, '/'); violation("assert", "assertion failed: %s (%s:%u)", e, b ? b + 1 : f, l); }
void sim___stack_chk_fail() { violation("stack-overflow", "write past the end of a stack buffer"); }
void sim_abort() { violation("crash", "abort"); }
void sim_exit(int c) { violation("exit", "the library ended the process with exit(%d)", c); }
void sim__exit(int c) { sim_exit(c); }
}

// C++ allocations made while code under test is running go to the simulated heap.
extern "C" char __start_repotext[] __attribute__((weak)), __stop_repotext[] __attribute__((weak));
static void *opNew(size_t n, void *pc) {
	if (G.cxx && G.active && G.cur && (char *)pc >= __start_repotext && (char *)pc < __stop_repotext) { if (fault(FK_MALLOC) >= 0) throw std::bad_alloc(); memPc((uintptr_t)pc); void *p = heapAlloc(n, 16, true); if (!p) throw std::bad_alloc(); return p; }
	void *p = ::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return opNew(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return opNew(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { if (heapOwns(p)) heapFree(p); else ::free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
