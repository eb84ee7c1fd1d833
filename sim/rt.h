// Deterministic simulation runtime: fibers, scheduler, heap, faults, clock.
// Every source of nondeterminism of the code under test goes through here.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
	uint64_t next() { // splitmix64
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
	template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
static inline uint64_t mix(uint64_t h, uint64_t v) {
	h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
	return h * 0xff51afd7ed558ccdull ^ (h >> 29);
}

// ---------------------------------------------------------------- Faults
enum FaultKind {
	FK_MALLOC, FK_OPEN, FK_READ_EIO, FK_READ_SHORT, FK_WRITE_ENOSPC, FK_WRITE_SHORT, FK_FLUSH_CLOSE,
	FK_SEEK, FK_TELL, FK_REMOVE, FK_MKDIR, FK_OPENDIR, FK_READLINK, FK_CRASH, FK_CLOCK_JUMP, FK_CLOCK_FAIL,
	FK_LOAD, FK_SPURIOUS_WAKE, FK_WEAK_CAS, FK_STALL, FK_EARLY_EOF, FK_TRUNCATE, FK_COUNT
};
extern const char *faultNames[FK_COUNT];

// ---------------------------------------------------------------- Plan
struct Op { int id = 0; int code = 0; int64_t a = 0, b = 0, c = 0, d = 0; };
struct SchedEnt { int tid; int op; uint64_t step; int next; };
struct FaultEnt { int tid; int op; int kind; int nth; int64_t param; };
struct Plan {
	std::string scenario;
	uint64_t seed = 0;
	std::map<std::string, int64_t> p;
	std::vector<std::vector<Op>> th; // th[0]: main fiber's ops
	std::vector<SchedEnt> sched;
	std::vector<FaultEnt> faults;
	bool replay = false, overflow = false;
	int64_t get(const char *k, int64_t d = 0) const { auto i = p.find(k); return i == p.end() ? d : i->second; }
	void set(const char *k, int64_t v) { p[k] = v; }
	int nextId = 1;
	Op &add(int th_, int code, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0) {
		while ((int)th.size() <= th_) th.emplace_back();
		Op o; o.id = nextId++; o.code = code; o.a = a; o.b = b; o.c = c; o.d = d;
		th[th_].push_back(o);
		return th[th_].back();
	}
	void enable(FaultKind k, int64_t per10k) { set((std::string("f_") + faultNames[k]).c_str(), per10k); }
};

struct Scenario {
	const char *name;
	void (*gen)(Plan &, Rng &);
	void (*run)(const Plan &);
	const char *(*opname)(int code);
};
void registerScenario(const Scenario &s);
#define SIM_SCENARIO(n, g, r, o) \
	static struct Reg_##n { Reg_##n() { sim::registerScenario({#n, g, r, o}); } } reg_##n

// ---------------------------------------------------------------- API for scenarios
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(c, cls, ...) do { if (!(c)) sim::violation(cls, __VA_ARGS__); } while (0)

int spawn(std::function<void()> fn, int proc = 0); // returns tid (1,2,...)
void joinAll();              // main fiber waits for all others
bool done(int tid);
void opBegin(const Op &op);  // tags the fiber's schedule and fault keys
void opEnd();
int tid();
int proc();
int procOf(int tid);
void block(const void *obj); // until wake(obj)
void wake(const void *obj);
void yieldPoint();           // explicit yield (harness side), e.g. inside loaders
void event(uint64_t h);      // part of the event hash (determinism)
void eventf(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // trace line + event
void state(uint64_t h);      // abstract state reached (coverage measure)
void probe(const char *name); // "this rare condition was hit"
uint64_t seq();              // global event sequence number (steps)
Rng &rng();                  // run PRNG (same in generation and replay)
// Faults decided by the plan. Returns -1 when it does not fire, else a parameter in [0,range).
int64_t fault(FaultKind k, int64_t range = 1);
uint64_t faultsFired();      // in this run so far (all kinds)
uint64_t faultsFired(FaultKind k);
uint64_t faultsFiredBy(int tid);
void faultsOff();            // "faults stop"
void faultsOn();
struct FaultMask { bool old; FaultMask(bool on); ~FaultMask(); };
// Code executing on behalf of the harness (not the code under test): no preemption, no faults.
struct NoPreempt { NoPreempt(); ~NoPreempt(); };

// Crash of a simulated process: raised on its own fibers, unwinds nothing.
void crashProc(int proc);
bool procAlive(int proc);
extern void (*onProcCrash)(int proc);

// ---------------------------------------------------------------- heap
void *heapAlloc(size_t size, size_t align, bool user);
void heapFree(void *p);
bool heapOwns(const void *p);
bool heapLive(const void *p);
size_t heapSizeOf(const void *p);
void heapCheck(const void *p, size_t n, bool write, const char *what);
size_t heapLiveCount();      // live blocks allocated by the code under test
size_t heapLiveBytes();
uint64_t heapMark();         // allocation sequence number
// violation "leak" when blocks allocated after `mark` by the code under test are still live
void leakCheck(uint64_t mark, const char *what);
size_t liveSince(uint64_t mark, size_t *bytes);
void heapSetReuse(int mode); // 0 never reuse, 1 LIFO reuse, 2 seeded mix
// exact copy of data whose bounds are checked: returns block of size n in the arena
void *heapData(const void *src, size_t n);

// ---------------------------------------------------------------- clock
uint64_t clockNs();
void clockAdvance(uint64_t ns);
void clockConfig(uint64_t granularityNs, bool frozen);

// runtime internals shared with main.cpp
struct Shared;
}
