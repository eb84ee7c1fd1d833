#pragma once
#include "rt.h"
#include <errno.h>
namespace sim {
struct Mtx { uint32_t magic; int32_t owner; uint32_t recur; uint32_t pad; };
struct Cnd { uint32_t magic; uint32_t pad; };
static const uint32_t MTX_MAGIC = 0x4d545831, MTX_DEAD = 0x4d545844, CND_MAGIC = 0x434e4431, CND_DEAD = 0x434e4444;

enum FState { FS_RUN, FS_BLOCK, FS_DONE };
struct Fiber {
	int id = 0; void *sp = nullptr; char *stack = nullptr; size_t stackSize = 0;
	FState st = FS_RUN; const void *waitOn = nullptr; bool signalled = false;
	std::function<void()> fn; int proc = 0; int err = 0; void *eh[2] = {nullptr, nullptr};
	int opid = 0; uint64_t step = 0; int fc[FK_COUNT] = {0}; uint64_t fired = 0;
	int depth = 0; uintptr_t pcs[256]; int np = 0; bool masked = false; // no-preempt depth, faults masked
	uintptr_t lastpc = 0; int prio = 0; uint64_t stallUntil = 0;
};
static const int MAXSCHED = 60000, MAXFAULT = 4096, MAXPROBE = 96, MAXSIG = 64;
struct Shared { // one per worker, MAP_SHARED
	volatile int status; // 0 running 1 ok 2 violation 3 harness error
	char cls[64]; char msg[1024]; uint64_t ehash, shash, steps, cap, switches, simns;
	uint64_t fired[FK_COUNT]; int nframes; uint64_t frames[16]; int duplicate;
	// cumulative
	int nprobe; char probeName[MAXPROBE][48]; uint64_t probeCount[MAXPROBE]; uint64_t probeRun[MAXPROBE];
	int nsig; uint64_t sigs[MAXSIG]; uint64_t sigCount[MAXSIG];
	uint64_t stateBits[1 << 16]; // 4M bits
	uint64_t siteBits[1 << 14];  // 1M bits
	uint64_t runId;
	char sample[4096]; int sampleLen;
};
struct Glob {
	bool active = false; Fiber *cur = nullptr; std::vector<Fiber *> f; void *mainsp = nullptr;
	int64_t countdown = 1ll << 60; int kindmask = 0; int strategy = 0; uint64_t swDen = 16, syncDen = 2;
	uint64_t steps = 0, switches = 0, cap = 1500000; const Plan *plan = nullptr; bool replay = false;
	Rng srng{1}, frng{2}, urng{3}, hrng{4}, qrng{5};
	uint64_t ehash = 0, shash = 0; int fp[FK_COUNT]; int64_t fn[FK_COUNT]; uint64_t fatt[FK_COUNT]; uint64_t fired[FK_COUNT]; uint64_t firedAll = 0; bool fon = true;
	int64_t fmax = 1 << 30;
	std::vector<SchedEnt> sched; std::vector<FaultEnt> flog; int nsched = 0; bool schedOverflow = false;
	std::map<uint64_t, std::vector<std::pair<uint64_t, int>>> rs; // replay: (tid,op)->[(step,next)]
	std::map<std::vector<int>, int64_t> rf;
	bool verbose = false; bool dead = false; std::vector<bool> procDead;
	uint64_t nextChange = 0; std::vector<uint64_t> changes; int lowPrio = 0;
	uint64_t clkExtra = 0, clkGran = 1; bool clkFrozen = false; uint64_t clkFrozenAt = 0;
	const char *outdir = nullptr; int heapMode = 0; bool cxx = false; int fill = 0xBE;
	int stallVictim = -1; uint64_t stallAt = 0, stallLen = 0; Fiber *afterSwitchFrom = nullptr; uintptr_t afterSwitchPc = 0;
};
extern Glob G; extern Shared *SH;
enum { K_MEM = 1, K_SYNC = 2, K_IO = 4, K_EXPL = 8, K_OP = 16 };
void decide(int kind);
static inline __attribute__((always_inline)) void yp(int kind) {
	if (!G.active) return;
	Fiber *f = G.cur;
	if (f->np) return;
	f->step++; G.steps++;
	if (G.afterSwitchFrom) { // coverage: pair (preempted pc, first pc of the next fiber)
		uint64_t h = mix(G.afterSwitchPc, f->depth > 0 && f->depth <= 256 ? f->pcs[f->depth - 1] : 0) & ((1 << 20) - 1);
		SH->siteBits[h >> 6] |= 1ull << (h & 63);
		G.afterSwitchFrom = nullptr;
	}
	if (--G.countdown <= 0 || (kind & G.kindmask)) decide(kind);
}
void blockOn(const void *obj, const char *what); // blocks the current fiber until woken
void wakeAll(const void *obj);
bool wakeOne(const void *obj);
void installWrappers();
void fsReset();
void fsEndOfRun();
Fiber *self();
void killFiberHere();
}
