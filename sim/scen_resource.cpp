// Resource manager (C05).
#include "scn.h"
#include "lin.h"
namespace {
enum { ACQ = 1, REL, CHK, REPL, PHASE2, FREE };
const char *opn(int c) { static const char *n[] = {"", "acquire", "release", "check", "replace", "phase2", "free manager"}; return n[c]; }
struct ROp { int kind; int res; }; // 0 acquire, 1 replace
struct RState { int cur; std::string key() const { return std::to_string(cur); } };
std::vector<RState> rstep(const RState &s, const ROp &o) { std::vector<RState> r; if (o.kind == 0) { if (s.cur == o.res) r.push_back(s); } else r.push_back({o.res}); return r; }
struct Res { fiftyoneDegreesResourceHandle *handle; uint64_t id; uint64_t body[3]; };
struct Ctx {
	fiftyoneDegreesResourceManager *mgr; std::vector<Res *> res; std::vector<int> freed, held; std::vector<uint64_t> replStart, replEnd; // replace calls
	std::vector<lin::Rec<ROp>> hist; int waiting = 0, parties = 0; bool phase2 = false; int failAt = 0; bool mgrFreeStarted = false;
} *C;
Res *mk() { NOP; Res *r = (Res *)heapAlloc(sizeof(Res), 16, false); r->id = C->res.size(); r->handle = nullptr; for (int i = 0; i < 3; i++) r->body[i] = mix(r->id, i); C->res.push_back(r); C->freed.push_back(0); C->held.push_back(0); return r; }
int idOf(const void *r) { for (size_t i = 0; i < C->res.size(); i++) if (C->res[i] == r) return (int)i; return -1; }
void onFree(void *p) {
	NOP; Ctx *c = C; // the latest resource at this address
	int id = -1; for (size_t i = 0; i < c->res.size(); i++) if (c->res[i] == p && !c->freed[i]) id = (int)i;
	if (id < 0) violation("double-free", "a resource was freed twice or an unknown one was freed");
	eventf("freed resource %d", id);
	SIM_CHECK(c->held[id] == 0, "freed-while-held", "resource %d was freed while %d callers hold it", id, c->held[id]);
	if (!c->mgrFreeStarted) { // some replace must have started that can come after the one that made it current
		bool ok = false; for (size_t k = 0; k < c->replStart.size(); k++) if ((int)k != id && c->replStart[k] && (!c->replEnd[id] || !c->replEnd[k] || c->replEnd[k] > c->replStart[id])) ok = true;
		SIM_CHECK(ok, "freed-while-current", "resource %d was freed although nothing has replaced it", id);
	}
	c->freed[id] = 1; heapFree(p);
}
void verify(fiftyoneDegreesResourceHandle *h, int id, const char *when) {
	NOP; SIM_CHECK(!C->freed[id], "freed-while-held", "%s: held resource %d has been freed", when, id);
	heapCheck(h, sizeof *h, false, "handle"); SIM_CHECK(h->resource == C->res[id], "held-changed", "%s: the held handle points to another resource", when);
	heapCheck(h->resource, sizeof(Res), false, "resource"); const Res *r = (const Res *)h->resource; SIM_CHECK(r->id == (uint64_t)id && r->body[2] == mix(r->id, 2), "wrong-data", "%s: resource %d was overwritten", when, id);
}
fiftyoneDegreesResourceHandle *acquire(int &id) {
	Ctx *c = C; uint64_t inv = seq();
	fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(c->mgr);
	NOP; uint64_t ret = seq();
	SIM_CHECK(h, "refused", "acquire returned nothing");
	heapCheck(h, sizeof *h, false, "handle"); id = -1;
	for (size_t i = 0; i < c->res.size(); i++) if (c->res[i] == h->resource && !c->freed[i]) id = (int)i;
	SIM_CHECK(id >= 0, "freed-while-held", "acquire returned a handle to a resource that was freed");
	c->held[id]++; c->hist.push_back({{0, id}, inv, ret}); eventf("acquired %d", id);
	uint64_t sg = 11; for (auto x : c->held) sg = mix(sg, x); for (auto x : c->freed) sg = mix(sg, x); state(sg);
	return h;
}
void release(fiftyoneDegreesResourceHandle *h, int id) { verify(h, id, "release"); { NOP; C->held[id]--; eventf("release %d", id); } fiftyoneDegreesResourceHandleDecUse(h); }
bool replace() {
	Ctx *c = C; Res *r = mk(); int id = (int)r->id; uint64_t inv, f0 = faultsFiredBy(tid());
	{ NOP; c->replStart.resize(c->res.size()); c->replEnd.resize(c->res.size()); inv = c->replStart[id] = seq() + 1; eventf("replace with %d", id); }
	fiftyoneDegreesResourceReplace(c->mgr, r, &r->handle);
	NOP; c->replEnd[id] = seq() + 1;
	if (faultsFiredBy(tid()) != f0) { // no memory for the handle: the old resource stays
		SIM_CHECK(r->handle == nullptr, "unreported", "replace ran out of memory but set a handle"); c->replStart[id] = 0; c->freed[id] = 2; heapFree(r); probe("replace_oom"); return false;
	}
	c->hist.push_back({{1, id}, inv, seq()});
	SIM_CHECK(r->handle || c->freed[id], "handle-unset", "replace did not set the handle of the new resource");
	return true;
}
void run(const Plan &p) {
	Ctx ctx; C = &ctx; uint64_t mark = heapMark(); bool keepMgr = p.get("keep_mgr");
	ctx.mgr = (fiftyoneDegreesResourceManager *)heapAlloc(sizeof *ctx.mgr, 16, false);
	Res *r0 = mk(); ctx.replStart.assign(1, 1); ctx.replEnd.assign(1, 1);
	fiftyoneDegreesResourceManagerInit(ctx.mgr, r0, &r0->handle, onFree);
	if (faultsFired()) { SIM_CHECK(r0->handle == nullptr, "unreported", "initialisation ran out of memory but set a handle"); probe("init_oom"); faultsOff(); fiftyoneDegreesResourceManagerFree(ctx.mgr); leakCheck(mark, "failed initialisation"); return; }
	SIM_CHECK(r0->handle, "handle-unset", "initialisation did not set the resource's handle");
	ctx.parties = (int)p.th.size() - 1;
	auto body = [&](int t) {
		fiftyoneDegreesResourceHandle *h[4] = {0}; int id[4] = {0};
		for (auto &op : p.th[t]) {
			opBegin(op); int k = (int)(op.a & 3);
			switch (op.code) {
			case ACQ: if (!h[k] && !ctx.phase2) h[k] = acquire(id[k]); break;
			case REL: if (h[k]) { auto x = h[k]; h[k] = nullptr; release(x, id[k]); } break;
			case CHK: if (h[k]) verify(h[k], id[k], "check"); break;
			case REPL: if (!ctx.phase2) replace(); break;
			}
			opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e);
		{ NOP; ctx.waiting++; if (ctx.waiting == ctx.parties) { ctx.phase2 = true; wake(&ctx); } }
		while (!ctx.phase2) block(&ctx);
		// acquisitions and replacements are over: the manager is freed while holders release
		if (p.get("freer") == t) { { NOP; ctx.mgrFreeStarted = true; eventf("free manager"); } faultsOff(); fiftyoneDegreesResourceManagerFree(ctx.mgr); }
		for (int k = 0; k < 4; k++) if (h[k]) { auto x = h[k]; h[k] = nullptr; release(x, id[k]); }
	};
	for (size_t t = 1; t < p.th.size(); t++) spawn([&, t] { body((int)t); });
	joinAll(); faultsOff();
	size_t best = 0; int lr = lin::check<RState, ROp>(RState{0}, ctx.hist, rstep, 60000, &best);
	if (lr == 0) violation("not-linearizable", "the acquisitions fit no order of the replacements (%zu of %zu calls explained)", best, ctx.hist.size());
	probe(lr < 0 ? "lin_budget_exhausted" : "lin_checked");
	if (!ctx.mgrFreeStarted) { // everything has been released: exactly the current resource is alive
		int alive = 0; for (auto f : ctx.freed) if (!f) alive++;
		SIM_CHECK(alive == 1, "leak", "%d resources are alive although only one is current and none is held", alive);
		int id; auto h = acquire(id); SIM_CHECK(fiftyoneDegreesResourceHandleGetUse(h) == 1, "use-count", "use count %d with one holder", fiftyoneDegreesResourceHandleGetUse(h));
		replace(); verify(h, id, "after replacement"); SIM_CHECK(!ctx.freed[id], "freed-while-held", "freed while held");
		release(h, id); SIM_CHECK(ctx.freed[id], "leak", "a replaced resource was not freed by its last holder");
		ctx.mgrFreeStarted = true;
		if (keepMgr) { h = acquire(id); fiftyoneDegreesResourceManagerFree(ctx.mgr); verify(h, id, "after the manager was freed"); release(h, id); SIM_CHECK(ctx.freed[id], "leak", "the last holder did not free the resource after the manager was freed"); }
		else fiftyoneDegreesResourceManagerFree(ctx.mgr);
	}
	for (size_t i = 0; i < ctx.freed.size(); i++) SIM_CHECK(ctx.freed[i], "leak", "resource %zu was never freed", i);
	leakCheck(mark, "after the manager was freed");
}
void genC(Plan &p, Rng &r, bool oom) {
	int T = (int)r.range(2, 5); bool storm = r.chance(1, 3);
	int per = std::min(14, 54 / T); per = (int)r.range(3, per);
	int repl = (int)r.range(1, T); // threads 1..repl also replace
	for (int t = 1; t <= T; t++) {
		p.th.resize((size_t)t + 1); bool u[4] = {false}; int slots = (int)r.range(1, 3);
		for (int i = 0; i < per; i++) {
			int s = (int)r.below((uint64_t)slots);
			if (t <= repl && r.chance(storm ? 2 : 1, storm ? 3 : 4)) { p.add(t, REPL); continue; }
			if (!u[s]) { p.add(t, ACQ, s); u[s] = true; }
			else if (r.chance(1, 6)) p.add(t, CHK, s);
			else { p.add(t, REL, s); u[s] = false; }
		}
	}
	if (r.chance(1, 2)) p.set("freer", r.range(1, T));
	p.set("keep_mgr", r.below(2)); p.set("step_cap", 6000000);
	p.set("heap", r.pick({0, 1, 1, 2}));
	if (oom) p.set("fn_malloc", r.range(1, 8));
}
void gen(Plan &p, Rng &r) { genC(p, r, false); }
void genO(Plan &p, Rng &r) { genC(p, r, true); }
SIM_SCENARIO(resource, gen, run, opn);
SIM_SCENARIO(resource_oom, genO, run, opn);
}
