// Pools of resources and of file handles (C04).
#include "scn.h"
#include "lin.h"
namespace {
enum { GET = 1, REL, USE };
const char *opn(int c) { static const char *n[] = {"", "get", "release", "use"}; return n[c]; }
struct POp { int kind; int res; }; // 0 get, 1 get failed, 2 release
struct PState { uint64_t avail; std::string key() const { return std::to_string(avail); } };
std::vector<PState> pstep(const PState &s, const POp &o) {
	std::vector<PState> r;
	if (o.kind == 0 && (s.avail >> o.res & 1)) r.push_back({s.avail & ~(1ull << o.res)});
	if (o.kind == 1 && s.avail == 0) r.push_back(s);
	if (o.kind == 2 && !(s.avail >> o.res & 1)) r.push_back({s.avail | 1ull << o.res});
	return r;
}
struct Ctx {
	int n; bool file; fiftyoneDegreesPool pool; fiftyoneDegreesFilePool fpool;
	std::vector<char *> res; std::vector<int> freed; bool createFailed = false; int failAt = -1; std::map<const void *, int> idx;
	std::map<int, int> out; // resource -> holding thread
	std::vector<lin::Rec<POp>> hist; fs::Bytes data;
	int inflight = 0; std::vector<int *> watch;
	void bump() { int k = (int)out.size() + inflight; for (auto w : watch) if (k > *w) *w = k; }
} *C;
void *create(fiftyoneDegreesPool *, void *state, fiftyoneDegreesException *e) {
	NOP; SIM_CHECK(state == (void *)C, "wrong-state", "resource creation was given another state pointer");
	if (fault(FK_LOAD) >= 0) { C->createFailed = true; e->status = FIFTYONE_DEGREES_STATUS_FILE_BUSY; return nullptr; }
	char *p = (char *)heapAlloc(8, 16, true); C->idx[p] = (int)C->res.size(); C->res.push_back(p); C->freed.push_back(0); return p;
}
void destroy(fiftyoneDegreesPool *, void *r) {
	NOP; auto it = C->idx.find(r); SIM_CHECK(it != C->idx.end(), "bad-free", "the free method got something that is not a resource");
	SIM_CHECK(!C->freed[it->second]++, "double-free", "resource %d freed twice", it->second); heapFree(r);
}
fiftyoneDegreesPoolItem *doGet(int &r, int me) {
	Ctx *c = C; Ex e; int maxOut = 0; uint64_t inv;
	{ NOP; c->watch.push_back(&maxOut); c->bump(); c->inflight++; c->bump(); c->inflight--; inv = seq(); }
	{ NOP; c->inflight++; for (auto w : c->watch) if (w != &maxOut) { int k = (int)c->out.size() + c->inflight; if (k > *w) *w = k; } }
	fiftyoneDegreesPoolItem *i = c->file ? &fiftyoneDegreesFileHandleGet(&c->fpool, e.p)->item : fiftyoneDegreesPoolItemGet(&c->pool, e.p);
	NOP; c->inflight--; c->watch.erase(std::find(c->watch.begin(), c->watch.end(), &maxOut));
	if (!i) {
		SIM_CHECK(e.st() == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES, "unreported", "get returned nothing with status %d", e.st());
		c->hist.push_back({{1, 0}, inv, seq()}); eventf("get -> none"); probe("pool_exhausted");
		return nullptr;
	}
	SIM_CHECK(e.ok(), "spurious-failure", "get returned a resource with exception status %d", e.st());
	heapCheck(i, sizeof *i, false, "pool item");
	if (c->file) { if (!c->idx.count(i->resource)) { int k = (int)c->idx.size(); c->idx[i->resource] = k; } }
	SIM_CHECK(i->resource && c->idx.count(i->resource), "wrong-resource", "get returned an item with an unknown resource");
	r = c->idx[i->resource];
	SIM_CHECK(r < c->n, "wrong-resource", "more than %d different resources", c->n);
	auto o = c->out.find(r);
	if (o != c->out.end()) violation("shared", "resource %d was handed out to thread %d while thread %d holds it", r, me, o->second);
	c->out[r] = me; c->hist.push_back({{0, r}, inv, seq()}); eventf("get -> %d", r);
	uint64_t sg = 3; for (auto &x : c->out) sg = mix(sg, x.first * 8 + x.second); state(sg); c->bump();
	return i;
}
void doRel(fiftyoneDegreesPoolItem *i, int r, int me) {
	Ctx *c = C; uint64_t inv;
	{ NOP; SIM_CHECK(i->resource && c->idx[i->resource] == r, "wrong-resource", "the resource of a held item changed"); SIM_CHECK(c->out.count(r) && c->out[r] == me, "shared", "resource %d changed hands", r); c->out.erase(r); c->inflight++; c->bump(); inv = seq(); eventf("release %d", r); }
	if (c->file) fiftyoneDegreesFileHandleRelease((fiftyoneDegreesFileHandle *)i); else fiftyoneDegreesPoolItemRelease(i);
	NOP; c->inflight--; c->hist.push_back({{2, r}, inv, seq()});
}
void own(const Plan &p) { if (p.get("nofree")) for (auto x : C->res) heapFree(x); } // resources which the pool was not asked to free
void use(fiftyoneDegreesPoolItem *i, int64_t off) {
	Ctx *c = C; if (!c->file) return;
	FILE *f = ((fiftyoneDegreesFileHandle *)i)->file; char b[16]; size_t n = c->data.size(); off = (int64_t)((uint64_t)off % n); size_t want = std::min<size_t>(sizeof b, n - (size_t)off);
	NOP;
	SIM_CHECK(fs::streamOpen(f), "bad-stream", "the handle's stream is not open");
	SIM_CHECK(!fseek(f, (long)off, SEEK_SET) && fread(b, 1, want, f) == want && !memcmp(b, c->data.data() + off, want), "wrong-data", "the handle does not read the file");
}
void run(const Plan &p) {
	Ctx ctx; C = &ctx; ctx.n = (int)p.get("n"); ctx.file = p.get("file"); Ex e; uint64_t mark = heapMark();
	if (ctx.file) {
		for (int i = 0; i < 100; i++) ctx.data.push_back((uint8_t)(i * 7)); 
		fs::put("/work/d.dat", ctx.data);
		fiftyoneDegreesFilePoolReset(&ctx.fpool);
		if (p.get("none")) { auto s0 = fiftyoneDegreesFilePoolInit(&ctx.fpool, "d.dat", 0, e.p); SIM_CHECK(s0 != FIFTYONE_DEGREES_STATUS_SUCCESS, "unreported", "a pool for no concurrent reader was made"); SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d files open after that", fs::openCount()); leakCheck(mark, "a pool for no concurrent reader"); e.clear(); e.v = Ex().v; }
		auto s = fiftyoneDegreesFilePoolInit(&ctx.fpool, "d.dat", (uint16_t)ctx.n, e.p);
		eventf("init status %d exception %d", (int)s, e.st());
		if (s != FIFTYONE_DEGREES_STATUS_SUCCESS || !e.ok()) {
			SIM_CHECK(faultsFired() > 0, "spurious-failure", "the file pool was refused with status %d, exception %d although nothing failed", (int)s, e.st());
			SIM_CHECK(s != FIFTYONE_DEGREES_STATUS_SUCCESS, "unreported", "initialising the file pool returned success although the exception is %d", e.st());
			faultsOff(); fiftyoneDegreesFilePoolRelease(&ctx.fpool);
			SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d files still open after a failed initialisation was released", fs::openCount());
			leakCheck(mark, "failed file pool"); probe("pool_init_failed"); return;
		}
		SIM_CHECK(faultsFired(FK_OPEN) == 0 && faultsFired(FK_MALLOC) == 0, "unreported", "success although a handle could not be opened");
		SIM_CHECK(ctx.fpool.length == 100, "wrong-length", "the length of a 100 byte file is given as %ld", (long)ctx.fpool.length);
		SIM_CHECK(fs::openCount() == ctx.n, "wrong-count", "%d handles for concurrency %d", fs::openCount(), ctx.n);
	} else {
		fiftyoneDegreesPool *q = fiftyoneDegreesPoolInit(&ctx.pool, (uint16_t)ctx.n, &ctx, create, p.get("nofree") ? nullptr : destroy, e.p);
		eventf("init exception %d", e.st());
		if (!e.ok() || !q) {
			SIM_CHECK(ctx.createFailed || faultsFired(FK_MALLOC), "spurious-failure", "the pool was refused with exception %d although nothing failed", e.st());
			SIM_CHECK(!e.ok(), "unreported", "no pool and no exception");
			if (ctx.createFailed) SIM_CHECK(e.st() == FIFTYONE_DEGREES_STATUS_FILE_BUSY, "unreported", "the status of the failed creation was lost (%d)", e.st());
			if (q) fiftyoneDegreesPoolFree(q);
			for (size_t i = 0; i < ctx.freed.size(); i++) SIM_CHECK(ctx.freed[i] == (p.get("nofree") ? 0 : 1), "leak", "resource %zu was freed %d times after a failed initialisation", i, ctx.freed[i]);
			own(p); leakCheck(mark, "failed pool"); probe("pool_init_failed"); return;
		}
		SIM_CHECK(!ctx.createFailed && !faultsFired(FK_MALLOC), "unreported", "success although a resource could not be created");
		SIM_CHECK((int)ctx.res.size() == ctx.n, "wrong-count", "%zu resources for concurrency %d", ctx.res.size(), ctx.n);
	}
	faultsOff();
	auto body = [&](int t) {
		fiftyoneDegreesPoolItem *s[4] = {0}; int r[4] = {0};
		for (auto &op : p.th[t]) {
			opBegin(op); int k = (int)(op.a & 3);
			if (op.code == GET && !s[k]) s[k] = doGet(r[k], t);
			else if (op.code == REL && s[k]) { auto x = s[k]; s[k] = nullptr; doRel(x, r[k], t); }
			else if (op.code == USE && s[k]) use(s[k], op.b);
			opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e);
		if (p.get("keep") != t) for (int k = 0; k < 4; k++) if (s[k]) { auto x = s[k]; s[k] = nullptr; doRel(x, r[k], t); }
	};
	for (size_t t = 1; t < p.th.size(); t++) spawn([&, t] { body((int)t); });
	joinAll();
	if (ctx.n > 62) { probe("largest_pool"); fiftyoneDegreesPoolFree(&ctx.pool); for (int i = 0; i < ctx.n; i++) SIM_CHECK(ctx.freed[i] == (p.get("nofree") ? 0 : 1), "leak", "resource %d was freed %d times", i, ctx.freed[i]); own(p); leakCheck(mark, "after the pool was freed"); return; }
	PState s0{(1ull << ctx.n) - 1};
	size_t best = 0; int lr = lin::check<PState, POp>(s0, ctx.hist, pstep, 60000, &best);
	if (lr == 0) violation("not-linearizable", "the history of %zu calls fits no order of a pool of %d resources (%zu explained)", ctx.hist.size(), ctx.n, best);
	probe(lr < 0 ? "lin_budget_exhausted" : "lin_checked");
	Op fo; fo.id = 9500; opBegin(fo);
	int expect = ctx.n - (int)ctx.out.size(); std::vector<std::pair<fiftyoneDegreesPoolItem *, int>> all;
	for (int i = 0; i < expect; i++) { int r; auto x = doGet(r, 0); if (!x) violation("lost", "only %d of %d resources can be had although the rest were released", i, expect); all.push_back({x, r}); }
	{ int r; if (doGet(r, 0)) violation("duplicated", "more than %d resources can be had at once", ctx.n); }
	for (auto &x : all) doRel(x.first, x.second, 0);
	if (ctx.file) { fiftyoneDegreesFilePoolRelease(&ctx.fpool); SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d files still open after the pool was released", fs::openCount()); }
	else { fiftyoneDegreesPoolFree(&ctx.pool); for (int i = 0; i < ctx.n; i++) SIM_CHECK(ctx.freed[i] == (p.get("nofree") ? 0 : 1), "leak", "resource %d was freed %d times", i, ctx.freed[i]); }
	own(p); leakCheck(mark, "after the pool was freed");
	if (int n2 = (int)p.get("again")) { // freeing a freed pool does nothing, and it can be made again
		if (ctx.file) { fiftyoneDegreesFilePoolRelease(&ctx.fpool); auto st = fiftyoneDegreesFilePoolInit(&ctx.fpool, "d.dat", (uint16_t)n2, e.p); SIM_CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS && e.ok() && fs::openCount() == n2, "wrong-count", "a pool made again has %d handles for concurrency %d", fs::openCount(), n2); }
		else { auto was = ctx.freed; fiftyoneDegreesPoolFree(&ctx.pool); SIM_CHECK(was == ctx.freed, "double-free", "resources are freed again by freeing the pool again"); ctx.res.clear(); ctx.freed.clear(); fiftyoneDegreesPoolInit(&ctx.pool, (uint16_t)n2, &ctx, create, destroy, e.p); SIM_CHECK(e.ok() && (int)ctx.res.size() == n2, "wrong-count", "a pool made again has %zu resources for concurrency %d", ctx.res.size(), n2); }
		std::vector<fiftyoneDegreesPoolItem *> v; for (int i = 0; i <= n2; i++) { Ex x; auto q = ctx.file ? (fiftyoneDegreesPoolItem *)fiftyoneDegreesFileHandleGet(&ctx.fpool, x.p) : fiftyoneDegreesPoolItemGet(&ctx.pool, x.p); SIM_CHECK(!!q == (i < n2) && x.ok() == (i < n2), "lost", "get %d of a pool of %d made again gives %d", i, n2, !!q); if (q) { SIM_CHECK(std::find(v.begin(), v.end(), q) == v.end(), "duplicated", "a pool made again gives a resource twice"); v.push_back(q); } }
		for (auto q : v) if (ctx.file) fiftyoneDegreesFileHandleRelease((fiftyoneDegreesFileHandle *)q); else fiftyoneDegreesPoolItemRelease(q);
		if (ctx.file) { fiftyoneDegreesFilePoolRelease(&ctx.fpool); SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d files still open after the pool was released", fs::openCount()); } else { fiftyoneDegreesPoolFree(&ctx.pool); for (int i = 0; i < n2; i++) SIM_CHECK(ctx.freed[i] == 1, "leak", "resource %d of a pool made again was freed %d times", i, ctx.freed[i]); }
		leakCheck(mark, "after the pool made again was freed"); probe("pool_again");
	}
}
void genC(Plan &p, Rng &r, bool file) {
	p.set("file", file); p.set("none", r.chance(1, 8)); int T = (int)r.range(1, 5); int n = (int)r.range(1, std::min(T + 1, 5)); if (r.chance(1, 5)) n = (int)r.range(1, 8); p.set("n", n);
	int per = T == 1 ? 24 : 48 / T / 1; if (per > 16 && T > 1) per = 16; per = (int)r.range(3, per);
	for (int t = 1; t <= T; t++) {
		p.th.resize((size_t)t + 1); bool u[4] = {false}; int slots = (int)r.range(1, 3);
		for (int i = 0; i < per; i++) {
			int s = (int)r.below((uint64_t)slots);
			if (!u[s]) { p.add(t, GET, s); u[s] = true; }
			else if (file && r.chance(1, 4)) p.add(t, USE, s, (int64_t)r.below(100));
			else { p.add(t, REL, s); u[s] = false; }
		}
	}
	if (!file && r.chance(1, 4)) p.set("keep", r.range(1, T)); // a caller that never gives its resources back
	if (r.chance(1, 4)) { if (file) { p.set(r.pick({"fn_open", "fn_seek", "fn_tell", "fn_malloc"}), r.range(1, n + 1)); } else p.set(r.pick({"fn_load", "fn_malloc"}), r.range(1, n)); }
	p.set("step_cap", 6000000); if (r.chance(1, 3)) p.set("again", r.range(1, 4)); if (!file && r.chance(1, 8)) p.set("nofree", 1);
	if (!file && r.chance(1, 100)) { p.set("n", r.pick({254, 255, 256, 257, 300})); p.set("step_cap", 100000000); }
	if (!file && r.chance(1, 400)) { p.set("n", 65535 - (int64_t)r.below(2)); p.set("strategy", 3); p.set("step_cap", 1000000000); } // the largest pools
}
void gen(Plan &p, Rng &r) { genC(p, r, false); oomOnly(p, r, 3); }
void genF(Plan &p, Rng &r) { genC(p, r, true); oomOnly(p, r, 12); }
SIM_SCENARIO(pool, gen, run, opn);
SIM_SCENARIO(filepool, genF, run, opn);
}
