// A data set behind its resource manager: get, use, release and reload (C06).
#include "ds.h"
#include "lin.h"
namespace {
enum { GET = 1, USE, REL, RFILE, RMEM, RORIG, PUB, RBAD, RLONG };
const char *opn(int c) { static const char *n[] = {"", "get", "use", "release", "reload from file", "reload from memory", "reload from original file", "publish new master", "reload from bad file", "reload from a file with a long name"}; return n[c]; }
struct ROp { int kind; int ver; };
struct RState { int cur; std::string key() const { return std::to_string(cur); } };
std::vector<RState> rstep(const RState &s, const ROp &o) { std::vector<RState> r; if (o.kind == 0) { if (s.cur == o.ver) r.push_back(s); } else r.push_back({o.ver}); return r; }
struct Ctx : DsCtx {
	const Plan *p; fiftyoneDegreesResourceManager mgr; std::vector<lin::Rec<ROp>> hist; int published = 0;
	std::vector<void *> memSrc; bool reload = false; std::vector<std::pair<int, uint64_t>> pubs; uint64_t initAt = 0; int bad = 0; bool temp, reuse, mem;
} *C;
DS *get(int &ver) {
	uint64_t inv = seq(); DS *d = (DS *)fiftyoneDegreesDataSetGet(&C->mgr); uint64_t ret = seq(); SIM_CHECK(d, "refused", "no data set");
	hold(d, 1); ver = d->ver; C->hist.push_back({{0, ver}, inv, ret}); eventf("got version %d", ver); uint64_t sg = 5; for (auto &a : C->alive) if (a.first) sg = mix(sg, (uint64_t)a.second); state(mix(sg, C->kind[3])); return d;
}
void rel(DS *d) { hold(d, -1); fiftyoneDegreesDataSetRelease(&d->b); }
std::vector<std::string> tempFiles() { std::vector<std::string> n; for (auto &f : fs::listAll()) if (f.compare(0, 5, "/data") != 0) n.push_back(f); return n; }
void publish(int v) { fs::replace(MASTER, C->v[(size_t)v].im.b); C->pubs.push_back({v, seq()}); C->published = v; eventf("master is version %d", v); }
void reload(int code, int64_t a) {
	Ctx *c = C; Ex e; fiftyoneDegreesStatusCode st; uint64_t inv = seq(), f0 = faultsFiredBy(tid()); int want = -1, nv = (int)c->v.size(); bool bad = false; static char paths[8][4200]; char *path = paths[tid() & 7]; const size_t PL = sizeof paths[0]; c->lastVer[tid()] = -1; size_t temps = tempFiles().size(); uint64_t mark = heapMark(); int open0 = fs::openCount();
	if (code == RFILE) { want = (int)(a % nv); snprintf(path, PL, "/data/v%d.dat", want); st = fiftyoneDegreesDataSetReloadManagerFromFile(&c->mgr, path, sizeof(DS), initFile, e.p); }
	else if (code == RBAD) {
		bad = true; snprintf(path, PL, "/data/bad%d.dat", c->bad++); Bytes b = c->v[(size_t)(a % nv)].im.b; if (a % 5) { b.resize(b.size() * (size_t)(a % 97) / 97); fs::put(path, b); }
		st = fiftyoneDegreesDataSetReloadManagerFromFile(&c->mgr, path, sizeof(DS), initFile, e.p);
	} else if (code == RLONG) { // the longest name there is room for, and longer ones
		want = (int)(a % nv); size_t len = 4096 + (size_t)(a / 7 % 6) - 4; char leaf[32]; snprintf(leaf, sizeof leaf, "v%d.dat", want); memset(path, '/', PL); memcpy(path, "/data", 5); strcpy(path + len - strlen(leaf), leaf); bad = len > 4095;
		st = fiftyoneDegreesDataSetReloadManagerFromFile(&c->mgr, path, sizeof(DS), initFile, e.p); if (bad) SIM_CHECK(faultsFiredBy(tid()) != f0 || st == FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG, "wrong-status", "reload from a file whose name has %zu characters gave status %d", len, (int)st); else { probe("longest_name"); SIM_CHECK(st != FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG || faultsFiredBy(tid()) != f0, "spurious-failure", "a name of %zu characters is too long", len); }
	} else if (code == RMEM) {
		want = (int)(a % nv); Bytes &b = c->v[(size_t)want].im.b; void *src = heapData(b.data(), b.size());
		st = fiftyoneDegreesDataSetReloadManagerFromMemory(&c->mgr, src, (long)b.size(), sizeof(DS), initMem, e.p);
		if (!c->cfg.freeData) c->memSrc.push_back(src); else if (st != FIFTYONE_DEGREES_STATUS_SUCCESS && c->lastVer[tid()] < 0) heapFree(src);
	} else {
		DS *d = (DS *)fiftyoneDegreesDataSetGet(&c->mgr); hold(d, 1); snprintf(path, PL, "%s", d->b.masterFileName[0] ? d->b.masterFileName : MASTER); if (!strrchr(path, '/') || sscanf(strrchr(path, '/'), "/v%d.dat", &want) != 1) want = -2;
		st = fiftyoneDegreesDataSetReloadManagerFromFile(&c->mgr, path, sizeof(DS), initFile, e.p); rel(d);
	}
	bool faulted = faultsFiredBy(tid()) != f0; int got = c->lastVer[tid()]; eventf("%s: status %d exception %d%s", opn(code), (int)st, e.st(), faulted ? " (faulted)" : "");
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		SIM_CHECK(e.ok(), "both", "%s succeeded with exception %d", opn(code), e.st()); SIM_CHECK(got >= 0, "unreported", "%s succeeded without a new data set", opn(code));
		SIM_CHECK(!bad, "accepted-bad", "reload from an incomplete file succeeded"); probe("reloaded");
		if (want == -2) { bool ok = false; for (size_t i = 0; i < c->pubs.size(); i++) if (c->pubs[i].first == got && (i + 1 == c->pubs.size() || c->pubs[i + 1].second >= inv)) ok = true; SIM_CHECK(ok, "stale", "reload from the original file loaded version %d which was not published while it ran", got); }
		else SIM_CHECK(got == want, "stale", "reload loaded version %d instead of %d", got, want);
		c->hist.push_back({{1, got}, inv, seq()});
	} else {
		probe("reload_failed"); bool shared = c->temp && c->reuse && c->T > 1; // another data set can take the shared temporary file away before this one has opened it
		SIM_CHECK(faulted || bad || shared, "spurious-failure", "%s failed with %d although nothing was wrong", opn(code), (int)st);
		if (c->T == 1) { // alone: nothing of the attempt may be left
			SIM_CHECK(fs::openCount() <= open0, "handle-leak", "%d streams open after a failed reload, %d before", fs::openCount(), open0);
			if (!c->memSrc.empty() && code == RMEM) {} else leakCheck(mark, "failed reload");
			if (!faultsFired(FK_REMOVE) && c->temp && !c->reuse) SIM_CHECK(tempFiles().size() == temps, "temp-left", "a failed reload left %zu temporary files, %zu before", tempFiles().size(), temps);
		}
	}
}
void run(const Plan &p) {
	Ctx c{}; C = &c; D = &c; c.p = &p; c.T = (int)p.th.size() - 1; Rng r((uint64_t)p.get("img")); int nv = (int)p.get("versions"); c.pad = (size_t)p.get("pad");
	for (int i = 0; i < nv; i++) c.v.push_back(mkVer(r, i));
	c.mem = p.get("mem"); c.temp = p.get("temp"); c.reuse = p.get("reuse"); c.cmp = (long)p.get("cmp");
	c.kinds(p);
	memset(&c.cfg, 0, sizeof c.cfg); c.cfg.allInMemory = c.mem; c.cfg.useTempFile = c.temp; c.cfg.reuseTempFile = c.reuse; c.cfg.usesUpperPrefixedHeaders = false; c.cfg.freeData = p.get("freeData");
	static const char *dirs[] = {"/ro", "/tmp1", "/tmp2/"}; fs::mkdirs("/ro"); fs::setWritable("/ro", false); fs::mkdirs("/tmp1"); fs::mkdirs("/tmp2"); int df = (int)p.get("dirFrom"), dn = (int)p.get("dirs"); if (dn) { c.cfg.tempDirs = dirs + df; c.cfg.tempDirCount = dn; }
	publish(0); for (int i = 0; i < nv; i++) { char f[32]; snprintf(f, sizeof f, "/data/v%d.dat", i); fs::put(f, c.v[(size_t)i].im.b); }
	uint64_t mark = heapMark(); faultsOff();
	{ DS *d = (DS *)fiftyoneDegreesMemoryStandardMalloc(sizeof(DS)); Ex e; fiftyoneDegreesPropertiesRequired pr = fiftyoneDegreesPropertiesDefault; if (p.get("props")) { pr.string = "Beta,gamma|Alpha"; D->initReq = {"Beta", "Gamma", "Alpha"}; }
	  auto st = initFile(d, &c.cfg, &pr, MASTER, e.p); if (st == FIFTYONE_DEGREES_STATUS_REQ_PROP_NOT_PRESENT) { leakCheck(mark, "refused data set"); probe("no_properties"); return; }
	  SIM_CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "spurious-failure", "the first data set could not be made: %d", (int)st);
	  fiftyoneDegreesResourceManagerInit(&c.mgr, d, &d->b.handle, freeDS); }
	faultsOn();
	auto body = [&](int t) {
		DS *h[3] = {0}; int ver[3] = {0}; uint64_t n = 0;
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); int s = (int)(op.a % 3);
			switch (op.code) {
			case GET: if (!h[s]) h[s] = get(ver[s]); break;
			case USE: if (h[s]) use(h[s], ver[s], (uint64_t)op.b + ++n); break;
			case REL: if (h[s]) { DS *d = h[s]; h[s] = nullptr; rel(d); } break;
			case PUB: if (c.mem || c.temp) publish((int)(op.b % nv)); break;
			default: reload(op.code, op.b);
			}
			opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e);
		for (int s = 0; s < 3; s++) if (h[s]) { use(h[s], ver[s], 77); DS *d = h[s]; h[s] = nullptr; rel(d); }
	};
	for (int t = 1; t <= c.T; t++) spawn([&, t] { body(t); });
	joinAll(); faultsOff(); Op fo; fo.id = 9500; opBegin(fo);
	size_t best = 0; int lr = lin::check<RState, ROp>(RState{0}, c.hist, rstep, 60000, &best);
	if (lr == 0) violation("not-linearizable", "the data sets acquired fit no order of the reloads (%zu of %zu calls explained)", best, c.hist.size());
	probe(lr < 0 ? "lin_budget_exhausted" : "lin_checked");
	int alive = 0; for (auto &a : c.alive) if (a.first) { alive++; SIM_CHECK(a.second == 0, "freed-while-held", "data set counted in use"); } SIM_CHECK(alive == 1, "leak", "%d data sets alive although only one is in service", alive);
	{ int v; DS *d = get(v); use(d, v, 5); auto tf = tempFiles(); bool own = c.temp && d->b.fileName[0]; size_t lost = (size_t)faultsFired(FK_REMOVE); SIM_CHECK(tf.size() <= (own ? 1 : 0) + lost, "temp-left", "%zu temporary files although one data set is in service and %zu deletions failed", tf.size(), lost); rel(d); }
	if (p.get("late")) { int v; DS *d = get(v); fiftyoneDegreesResourceManagerFree(&c.mgr); use(d, v, 6); rel(d); } else fiftyoneDegreesResourceManagerFree(&c.mgr);
	SIM_CHECK(tempFiles().size() <= (size_t)faultsFired(FK_REMOVE), "temp-left", "%zu temporary files after the data sets were freed", tempFiles().size());
	for (auto s : c.memSrc) heapFree(s);
	SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open at the end", fs::openCount()); leakCheck(mark, "after the manager was freed");
}
void genD(Plan &p, Rng &r, bool faults) {
	int T = (int)r.range(1, 4), nv = (int)r.range(2, 4); p.set("img", (int64_t)r.below(1u << 30)); p.set("versions", nv); p.set("mem", r.chance(1, 3)); bool temp = r.chance(1, 2); p.set("temp", temp); p.set("reuse", r.chance(1, 2)); p.set("cmp", r.pick({-1, 8, 9, 100, 1024, 1025, 5000})); p.set("props", r.chance(1, 3)); p.set("conc", r.below(4)); p.set("freeData", r.below(2)); p.set("late", r.below(2)); p.set("step_cap", 6000000);
	int dn = (int)r.below(4); int df = dn == 0 ? 0 : (int)r.below((uint64_t)(4 - dn)); if (dn == 1 && df == 0) df = 1; p.set("dirs", dn); p.set("dirFrom", df); p.set("bufsz", r.pick({0, 16, 64, 4096}));
	if (r.chance(1, 30)) { p.set("pad", r.pick({40000, 66000, 70000})); p.set("cmp", r.pick({-1, 72000, 80000, 100000, 200000})); p.set("bufsz", r.pick({0, 4096})); p.set("step_cap", 200000000); } // files that differ only after more bytes than 16 bits can count
	char k[16]; for (int i = 0; i < 4; i++) { snprintf(k, sizeof k, "kind%d", i); p.set(k, r.range(LOADED, STREAM)); }
	p.set("heap", r.pick({0, 1, 2})); int reloaders = (int)r.range(1, T), nreload = 0, per = (int)r.range(4, 52 / T);
	for (int t = 1; t <= T; t++) {
		p.th.resize((size_t)t + 1); bool u[3] = {false};
		for (int i = 0; i < per; i++) {
			if (t <= reloaders && nreload < 8 && r.chance(1, 4)) { p.add(t, r.pick({RFILE, RFILE, RMEM, RORIG, RORIG, RBAD, RLONG, PUB}), 0, (int64_t)r.below(1000)); nreload++; continue; }
			int s = (int)r.below(3); if (!u[s]) { p.add(t, GET, s); u[s] = true; } else if (r.chance(1, 2)) p.add(t, USE, s, (int64_t)r.below(10000)); else { p.add(t, REL, s); u[s] = false; }
		}
	}
	if (faults) {
		if (r.chance(1, 2)) p.set(r.pick({"fn_open", "fn_seek", "fn_tell", "fn_read_eio", "fn_early_eof", p.get("no_oom") ? "fn_open" : "fn_malloc", p.get("no_oom") ? "fn_seek" : "fn_malloc", "fn_write_enospc", "fn_flush_close", "fn_opendir", "fn_remove"}), r.range(1, 60));
		else { p.enable(FK_MALLOC, p.get("no_oom") ? 0 : r.pick({0, 30, 200})); p.enable(FK_OPEN, r.pick({0, 100, 500})); p.enable(FK_READ_EIO, r.pick({0, 50, 300})); p.enable(FK_SEEK, r.pick({0, 50, 300})); p.enable(FK_TELL, r.pick({0, 100})); p.enable(FK_WRITE_ENOSPC, r.pick({0, 300})); p.enable(FK_EARLY_EOF, r.pick({0, 100})); p.enable(FK_REMOVE, r.pick({0, 1000})); p.set("f_max", r.range(1, 6)); }
	}
}
void gen(Plan &p, Rng &r) { genD(p, r, false); }
void genF(Plan &p, Rng &r) { genD(p, r, true); oomOnly(p, r, 150); }
SIM_SCENARIO(dataset, gen, run, opn);
SIM_SCENARIO(dataset_fault, genF, run, opn);
}
