// Collections over every storage configuration (C07), with I/O and memory faults (C08), over truncated files (C19).
#include "img.h"
using namespace img;
extern "C" int sim_fclose(FILE *);
namespace {
enum { GET = 1, REL, CHK, OOR, INT, COUNT, TRUNC };
const char *opn(int c) { static const char *n[] = {"", "get", "release", "check", "get beyond the end", "get integer", "count", "truncate file"}; return n[c]; }
struct CC { int kind; bool isCount; fiftyoneDegreesCollectionConfig cfg; fiftyoneDegreesCollection *c = nullptr; };
struct Slot { fiftyoneDegreesCollectionItem it; int coll = -1; uint32_t idx = 0; bool held = false; const void *ptr = nullptr; };
struct Ctx { const Plan *p; Image im; std::vector<CC> cc; fiftyoneDegreesFilePool pool; uint8_t *mem = nullptr; size_t memLen = 0; int T, slots; uint64_t truncAt; bool cut = false, weak = false; int mode; } *C;
const char *PATH = "/data/file.dat";

const uint8_t *expect(int ci, uint32_t i, uint32_t &n) { Coll &k = C->im.c[ci]; n = k.size[i]; return C->im.b.data() + k.start + k.off[i]; }
// the item can be had at all from the (possibly cut) data
bool available(int ci, uint32_t i) { uint32_t n; const uint8_t *e = expect(ci, i, n); return (uint64_t)(e - C->im.b.data()) + n <= C->truncAt; }
void verify(Slot &s, const char *when) {
	NOP; uint32_t n; const uint8_t *e = expect(s.coll, s.idx, n); const CC &k = C->cc[s.coll];
	heapCheck(s.it.data.ptr, n, false, when);
	if (memcmp(s.it.data.ptr, e, n)) violation("wrong-data", "%s: item %u of the %s collection %d does not have the bytes of the file", when, s.idx, kindName(k.kind), s.coll);
	if (k.kind == MEM) SIM_CHECK(s.it.data.ptr == C->mem + (e - C->im.b.data()), "wrong-data", "%s: item outside the memory of the collection", when);
}
bool mayFail(int ci) { // limits the caller chose too small for the threads using them
	const CC &k = C->cc[ci]; const Plan &p = *C->p;
	if ((k.kind == STREAM || k.kind == PART_FILE || k.kind == CACHED || k.kind == PART_CACHE) && p.get("pool") < C->T) return true;
	if (k.kind == CACHED || k.kind == PART_CACHE) return k.cfg.capacity / k.cfg.concurrency < (uint32_t)(C->T * (C->slots + 1));
	return false;
}
void doGet(Slot &s, int ci, uint32_t i) {
	CC &k = C->cc[ci]; Coll &co = C->im.c[ci]; Ex e; uint64_t f0 = faultsFiredBy(tid()); s.coll = ci; s.idx = i;
	bool cutBefore = !available(ci, i);
	s.it.collection = nullptr; void *r = k.c->get(k.c, co.fixed ? i : co.off[i], &s.it, e.p);
	bool faulted = faultsFiredBy(tid()) != f0;
	{ NOP; eventf("get %d/%u: %s exception %d%s", ci, i, r ? "item" : "nothing", e.st(), faulted ? " (faulted)" : ""); state(mix(mix(ci, k.kind), mix(i, e.st()))); }
	if (!r) {
		s.held = false;
		SIM_CHECK(!e.ok(), "unreported", "getting item %u of the %s collection gave nothing and no error", i, kindName(k.kind));
		if (!faulted && available(ci, i) && !mayFail(ci) && !C->cut) violation("spurious-failure", "getting item %u of the %s collection failed with %d although nothing was wrong", i, kindName(k.kind), e.st());
		probe("get_failed"); return;
	}
	SIM_CHECK(e.ok(), "both", "getting item %u of the %s collection gave an item and the error %d", i, kindName(k.kind), e.st());
	s.held = true; s.ptr = r; SIM_CHECK(r == s.it.data.ptr, "wrong-data", "the returned pointer is not that of the item"); SIM_CHECK(s.it.collection, "wrong-data", "the item of the %s collection does not say what to release it with", kindName(k.kind));
	if (cutBefore) { // only what is in memory can be had
		bool loaded = k.kind == MEM || k.kind == LOADED || k.kind == PART_CACHE || k.kind == PART_FILE || k.kind == CACHED;
		SIM_CHECK(loaded || C->cut, "beyond-end", "item %u beyond the end of the cut file was returned", i);
		if (k.kind == MEM && !available(ci, i)) { NOP; SIM_CHECK((uint8_t *)r >= C->mem && (uint8_t *)r < C->mem + C->memLen, "beyond-end", "an item outside the memory was returned"); if (co.fixed) heapCheck(r, co.elem, false, "item"); s.held = false; relItem(k.c, &s.it); probe("variable_item_at_cut"); return; }
	}
	verify(s, "get");
}
void doRel(Slot &s) { verify(s, "release"); relItem(s.idx % 2 && s.it.collection ? s.it.collection : C->cc[s.coll].c, &s.it); s.held = false; eventf("release %d/%u", s.coll, s.idx); }
void oor(Slot &s, int ci, uint64_t extra) {
	CC &k = C->cc[ci]; Coll &co = C->im.c[ci]; Ex e; uint32_t key = (co.fixed ? co.n : co.len) + (uint32_t)std::min<uint64_t>(extra, 0xFFFFFFFFu - (co.fixed ? co.n : co.len));
	void *r = k.c->get(k.c, key, &s.it, e.p); eventf("get beyond %d/%u: %d", ci, key, e.st());
	SIM_CHECK(!r, "beyond-end", "key %u beyond the end of the %s collection (%u items, %u bytes) was returned", key, kindName(k.kind), co.n, co.len);
	SIM_CHECK(!e.ok(), "unreported", "key %u beyond the end of the %s collection was refused without an error", key, kindName(k.kind));
}
// creates the collections; false when it failed, with everything given back
bool create(Ctx &c, const Plan &p) {
	Ex e; bool mem = p.get("all_mem"); uint64_t f0 = faultsFired();
	if (mem) {
		fiftyoneDegreesMemoryReader rd; rd.startByte = rd.current = c.mem; rd.length = (long)c.memLen; rd.lastByte = c.mem + c.memLen;
		if (p.get("read_mem")) { // through the file reader of the library
			fiftyoneDegreesStatusCode st = fiftyoneDegreesFileReadToByteArray(PATH, &rd); eventf("read to memory %d", (int)st);
			if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) { SIM_CHECK(faultsFired() != f0 || c.memLen == 0, "spurious-failure", "reading the file into memory failed with %d", (int)st); return false; }
			c.mem = rd.startByte; c.memLen = (size_t)(rd.lastByte - rd.startByte);
		}
		for (size_t i = 0; i < c.cc.size(); i++) {
			fiftyoneDegreesCollectionHeader h = fiftyoneDegreesCollectionHeaderFromMemory(&rd, c.im.c[i].elem, c.cc[i].isCount);
			c.cc[i].c = fiftyoneDegreesCollectionCreateFromMemory(&rd, h);
			if (!c.cc[i].c) {
				eventf("collection %zu refused", i); SIM_CHECK(faultsFired() != f0 || c.im.c[i].start + c.im.c[i].len > c.truncAt, "spurious-failure", "collection %zu could not be created from memory", i);
				for (auto &x : c.cc) if (x.c) { x.c->freeCollection(x.c); x.c = nullptr; }
				if (p.get("read_mem")) { fiftyoneDegreesMemoryStandardFree(c.mem); c.mem = nullptr; }
				return false;
			}
		}
		return true;
	}
	fiftyoneDegreesStatusCode st = fiftyoneDegreesFilePoolInit(&c.pool, PATH, (uint16_t)p.get("pool"), e.p); eventf("file pool %d exception %d", (int)st, e.st());
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS || !e.ok()) { SIM_CHECK(faultsFired() != f0 || c.truncAt == 0, "spurious-failure", "the file pool was refused with %d, %d", (int)st, e.st()); fiftyoneDegreesFilePoolRelease(&c.pool); return false; }
	FILE *f = nullptr; bool ok = fiftyoneDegreesFileOpen(PATH, &f) == FIFTYONE_DEGREES_STATUS_SUCCESS;
	for (size_t i = 0; ok && i < c.cc.size(); i++) {
		fiftyoneDegreesCollectionHeader hd = fiftyoneDegreesCollectionHeaderFromFile(f, c.im.c[i].elem, c.cc[i].isCount);
		c.cc[i].c = fiftyoneDegreesCollectionCreateFromFile(f, &c.pool, &c.cc[i].cfg, hd, c.im.c[i].fixed ? fiftyoneDegreesCollectionReadFileFixed : fiftyoneDegreesStringRead);
		if (!c.cc[i].c) { eventf("collection %zu refused", i); ok = false; SIM_CHECK(faultsFired() != f0 || c.im.c[i].start + c.im.c[i].len > c.truncAt || c.cut, "spurious-failure", "collection %zu (%s) could not be created", i, kindName(c.cc[i].kind)); }
	}
	if (f) sim_fclose(f);
	if (!ok) { for (auto &x : c.cc) if (x.c) { x.c->freeCollection(x.c); x.c = nullptr; } fiftyoneDegreesFilePoolRelease(&c.pool); }
	return ok;
}
void run(const Plan &p) {
	Ctx c; C = &c; c.p = &p; c.T = (int)p.th.size() - 1; c.slots = (int)p.get("slots"); c.mode = (int)p.get("mode"); Rng r((uint64_t)p.get("img"));
	int nc = (int)p.get("colls"); char k[32];
	for (int i = 0; i < nc; i++) {
		auto g = [&](const char *f) { snprintf(k, sizeof k, "%s%d", f, i); return p.get(k); };
		img::add(c.im, r, (uint32_t)g("elem"), (uint32_t)g("n")); CC cc; cc.kind = (int)g("kind"); if (fiftyoneDegreesCollectionGetIsMemoryOnly() && cc.kind != MEM) cc.kind = LOADED; cc.isCount = g("count") && g("elem"); if (cc.isCount) img::set32(c.im.b, c.im.c.back().head, c.im.c.back().n); /* the header has the number of items instead of their bytes */ cc.cfg.loaded = (uint32_t)g("loaded"); cc.cfg.capacity = (uint32_t)g("cap"); cc.cfg.concurrency = (uint16_t)g("conc"); c.cc.push_back(cc);
	}
	c.truncAt = ~0ull;
	if (c.mode == 2 && p.get("corrupt")) for (int i = 0; i < nc; i++) { // sizes of items that are wrong, where items are read one by one
		Coll &k = c.im.c[(size_t)i]; if (k.fixed || !k.n || (c.cc[i].kind != CACHED && c.cc[i].kind != STREAM) || p.get("all_mem") || c.cc[i].cfg.loaded) continue;
		for (int j = 0; j < 3; j++) { uint32_t x = (uint32_t)r.below(k.n); int z = (int)r.pick<int64_t>({-1, -2, 0, 1, 2, 32767, (int)k.size[x] - 3, (int)k.size[x] - 1, (int)r.below(3000)}); c.im.b[k.start + k.off[x]] = (uint8_t)z; c.im.b[k.start + k.off[x] + 1] = (uint8_t)(z >> 8); k.size[x] = z < 0 ? 0xFFFFFFF0u : (uint32_t)z + 2; }
		c.truncAt = c.im.b.size(); probe("item_size_wrong");
	}
	Bytes disk = c.im.b;
	if (p.get("trunc") >= 0 && c.mode == 2) { c.truncAt = std::min<uint64_t>(c.truncAt, (uint64_t)p.get("trunc") % (c.im.b.size() + 1)); disk.resize(c.truncAt); c.weak = true; probe("file_cut"); }
	fs::put(PATH, disk);
	if (p.get("all_mem")) { c.memLen = disk.size(); if (!p.get("read_mem")) c.mem = (uint8_t *)heapData(disk.data(), disk.size()); }
	uint64_t mark = heapMark();
	if (!p.get("fault_create")) faultsOff();
	bool ok = create(c, p);
	if (!ok) {
		SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open after a failed creation", fs::openCount()); leakCheck(mark, "failed creation"); probe("create_failed");
		if (c.mode == 2) return;
		faultsOff(); ok = create(c, p); SIM_CHECK(ok, "spurious-failure", "creation fails although faults have stopped");
	}
	if (c.mode == 2 && c.truncAt < c.im.b.size() && !p.get("all_mem")) probe("cut_file_accepted");
	if (c.mode == 1) faultsOn(); else faultsOff();
	auto body = [&](int t) {
		Slot s[4]; for (auto &x : s) { memset(&x.it, 0, sizeof x.it); fiftyoneDegreesDataReset(&x.it.data); }
		for (auto &op : p.th[t]) {
			opBegin(op); Slot &x = s[op.a & 3]; int ci = (int)(op.b % nc); Coll &co = c.im.c[ci]; fiftyoneDegreesCollection *q = c.cc[ci].c;
			switch (op.code) {
			case GET: if (x.held || !co.n) break; if (op.d || (x.coll >= 0 && x.coll != ci)) fiftyoneDegreesDataReset(&x.it.data); doGet(x, ci, (uint32_t)(op.c % co.n)); break;
			case REL: if (x.held) doRel(x); break;
			case CHK: if (x.held) verify(x, "check"); break;
			case OOR: { Slot y; memset(&y.it, 0, sizeof y.it); fiftyoneDegreesDataReset(&y.it.data); oor(y, ci, (uint64_t)op.c); break; }
			case INT: if (co.elem >= 4 && co.n && available(ci, (uint32_t)(op.c % co.n))) {
				Ex e; uint64_t f0 = faultsFiredBy(tid()); int32_t v = fiftyoneDegreesCollectionGetInteger32(q, (uint32_t)(op.c % co.n), e.p); int32_t w; uint32_t n; memcpy(&w, expect(ci, (uint32_t)(op.c % co.n), n), 4);
				eventf("integer %d exception %d", v, e.st());
				if (e.ok()) SIM_CHECK(v == w, "wrong-data", "integer %d read as %d from the %s collection", w, v, kindName(c.cc[ci].kind));
				else if (faultsFiredBy(tid()) == f0 && !mayFail(ci) && !c.cut) violation("spurious-failure", "reading an integer failed with %d although nothing was wrong", e.st());
				} break;
			case COUNT: if (co.fixed) { uint32_t n = fiftyoneDegreesCollectionGetCount(q); SIM_CHECK(n == co.n, "wrong-count", "%s collection of %u items says it has %u", kindName(c.cc[ci].kind), co.n, n); } break;
			case TRUNC: if (c.mode == 2) { NOP; Bytes b; fs::get(PATH, b); size_t to = (size_t)(op.c % (int64_t)(b.size() + 1)); b.resize(to); c.truncAt = std::min<uint64_t>(c.truncAt, to); c.cut = true; fs::put(PATH, b); eventf("file cut to %zu", to); probe("cut_in_use"); } break;
			}
			opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e);
		for (auto &x : s) if (x.held) doRel(x);
	};
	for (size_t t = 1; t < p.th.size(); t++) spawn([&, t] { body((int)t); });
	joinAll(); faultsOff();
	Op fo; fo.id = 9500; opBegin(fo);
	if (c.mode != 2) { // everything works again, at full capacity
		c.T = 1; c.slots = 1; // nobody else uses them
		for (int ci = 0; ci < nc; ci++) {
			CC &q = c.cc[ci]; Coll &co = c.im.c[ci]; std::vector<Slot> hs; hs.reserve(co.n); std::map<uint32_t, uint32_t> per; uint32_t lim = q.cfg.capacity ? q.cfg.capacity / q.cfg.concurrency : 0; bool ca = q.kind == CACHED || q.kind == PART_CACHE;
			for (uint32_t i = 0; i < co.n; i++) {
				if (co.n > 2000 && i % 257 && i + 3 < co.n) continue;
				if (ca) { uint32_t key = co.fixed ? i : co.off[i]; if (q.kind == PART_CACHE && i < q.cfg.loaded) {} else if (per[key % q.cfg.concurrency]++ >= lim) continue; }
				Slot s; memset(&s.it, 0, sizeof s.it); fiftyoneDegreesDataReset(&s.it.data); Ex e; s.coll = ci; s.idx = i;
				void *v = q.c->get(q.c, co.fixed ? i : co.off[i], &s.it, e.p);
				SIM_CHECK(v && e.ok(), "capacity-lost", "item %u of the %s collection can not be had with %zu items held although faults have stopped (exception %d)", i, kindName(q.kind), hs.size(), e.st());
				s.held = true; hs.push_back(s); verify(hs.back(), "final get");
			}
			for (auto &s : hs) doRel(s);
		}
	}
	for (auto &x : c.cc) { x.c->freeCollection(x.c); }
	if (!p.get("all_mem")) {
		Ex e; std::vector<fiftyoneDegreesFileHandle *> hs; int P = (int)p.get("pool");
		for (int i = 0; i < P; i++) { auto h = fiftyoneDegreesFileHandleGet(&c.pool, e.p); SIM_CHECK(h && e.ok(), "handle-leak", "only %d of %d file handles were given back", i, P); hs.push_back(h); }
		for (auto h : hs) fiftyoneDegreesFileHandleRelease(h);
		fiftyoneDegreesFilePoolRelease(&c.pool);
	} else if (p.get("read_mem")) fiftyoneDegreesMemoryStandardFree(c.mem);
	SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams still open at the end", fs::openCount());
	leakCheck(mark, "after everything was freed");
}
void genC(Plan &p, Rng &r, int mode) {
	p.set("mode", mode); p.set("img", (int64_t)r.below(1u << 30)); int nc = (int)r.range(1, 3), T = (int)r.range(1, 4); p.set("colls", nc); p.set("trunc", -1);
	bool mem = r.chance(1, mode == 1 ? 12 : 6); p.set("all_mem", mem); p.set("read_mem", mem && r.chance(1, 2));
	int slots = (int)r.range(1, 3); p.set("slots", slots); p.set("pool", r.chance(1, 8) ? r.range(1, T) : T + (int)r.below(2)); char k[32]; uint32_t total = 0; bool big = mode == 0 && r.chance(1, 150); // more than 16 bits can count
	for (int i = 0; i < nc; i++) {
		auto s = [&](const char *f, int64_t v) { snprintf(k, sizeof k, "%s%d", f, i); p.set(k, v); };
		uint32_t elem = r.chance(1, 3) ? 0 : (uint32_t)r.pick({1, 2, 3, 4, 4, 8, 12, 16, 20, 64, 300}), n = r.chance(1, 10) ? (uint32_t)r.below(3) : (uint32_t)r.range(2, 40); if (r.chance(1, 40)) n = 700; bool huge = big && i == nc / 2; if (huge) { if (r.chance(1, 6)) { elem = 66000; n = 3; } else { elem = (uint32_t)r.pick({0, 1, 2, 4, 4, 8}); n = elem ? 65530 + (uint32_t)r.below(2000) : 6000; } }
		int kind = mem ? MEM : (int)r.range(LOADED, STREAM); uint32_t conc = (uint32_t)r.range(1, T), cap = conc * (uint32_t)r.range(std::max<int>(1, (int)conc), T * slots + 2), loaded = 0;
		if (cap / conc < conc) cap = conc * conc;
		if (huge && r.chance(1, 2)) { conc = (uint32_t)r.pick({256, 257, 300}); cap = conc * conc + (uint32_t)r.pick({0, 1, 1000}); kind = mem ? MEM : r.chance(1, 2) ? CACHED : kind; if (elem > 100) elem = 4; }
		if (kind == LOADED) loaded = r.chance(1, 2) ? n : n + (uint32_t)r.pick({1, 100, 1000000, 0x7fffffff - 2000}); else if (kind == PART_CACHE || kind == PART_FILE) loaded = n < 2 ? 1 : (uint32_t)r.range(1, n - 1);
		if (kind == CACHED || kind == STREAM) loaded = 0;
		s("elem", elem); s("n", n); s("count", r.chance(1, 3)); s("kind", kind); s("loaded", loaded);
		bool ca = kind == CACHED || kind == PART_CACHE || (kind == LOADED && r.chance(1, 2)); s("cap", ca ? cap : 0); s("conc", ca ? conc : r.below(2)); total += 4 + n * (elem ? elem : 22);
	}
	int per = (int)r.range(3, T == 1 ? 40 : 24);
	for (int t = 1; t <= T; t++) {
		p.th.resize((size_t)t + 1); bool u[4] = {0}; int hot = (int)r.range(1, 12);
		for (int i = 0; i < per; i++) {
			int sl = (int)r.below((uint64_t)slots), ci = (int)r.below((uint64_t)nc); int64_t key = r.chance(2, 3) ? (int64_t)r.below((uint64_t)hot) : (int64_t)r.below(big ? 1u << 30 : 1000);
			uint64_t x = r.below(20);
			if (x == 0) p.add(t, OOR, sl, ci, r.pick<int64_t>({0, 0, 1, 3, 100, 65536, 0x40000000, 0x7fffffff, 0xffffffffll}));
			else if (x == 1) p.add(t, INT, sl, ci, key);
			else if (x == 2) p.add(t, COUNT, sl, ci);
			else if (mode == 2 && x == 3) p.add(t, TRUNC, 0, 0, (int64_t)r.below(total + 1));
			else if (!u[sl]) { p.add(t, GET, sl, ci, key, (int64_t)r.below(2)); u[sl] = true; }
			else if (x == 4) p.add(t, CHK, sl);
			else { p.add(t, REL, sl); u[sl] = false; }
		}
	}
	if (mode == 1) {
		p.set("fault_create", r.below(2)); if (r.chance(1, 4)) p.set(r.pick({"fn_open", "fn_seek", "fn_tell", "fn_read_eio", "fn_early_eof", "fn_malloc"}), r.range(1, 25));
		else for (FaultKind k2 : {FK_SEEK, FK_READ_EIO, FK_EARLY_EOF, FK_MALLOC, FK_TELL, FK_OPEN}) if (r.chance(1, 2)) p.enable(k2, r.pick({50, 300, 1500, 4000}));
		if (p.get("no_oom")) { p.set("fn_malloc", 0); p.set("f_malloc", 0); }
		if (r.chance(1, 2)) p.enable(FK_READ_SHORT, 3000);
		if (r.chance(1, 3)) p.set("bufsz", r.pick({1, 2, 7, 16, 64}));
	}
	if (mode == 2) p.set("corrupt", r.chance(1, 4));
	if (mode == 2 && r.chance(2, 3)) p.set("trunc", (int64_t)r.below(total * 5 / 4 + 1));
	p.set("step_cap", big ? 1000000000 : 6000000);
}
void gen(Plan &p, Rng &r) { genC(p, r, 0); }
void genF(Plan &p, Rng &r) { genC(p, r, 1); oomOnly(p, r, 40); }
void genT(Plan &p, Rng &r) { genC(p, r, 2); }
SIM_SCENARIO(coll, gen, run, opn);
SIM_SCENARIO(coll_fault, genF, run, opn);
SIM_SCENARIO(coll_trunc, genT, run, opn);
}
