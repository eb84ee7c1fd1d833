// Lists of collection items over every storage configuration, shared with other threads (C17).
#include "img.h"
using namespace img;
extern "C" { int sim_fclose(FILE *); int sim_fseek(FILE *, long, int); }
namespace {
enum { INIT = 1, ADD, GET, RELEASE, FREE, TOUCH };
const char *opn(int c) { static const char *n[] = {"", "initialise", "add", "get", "release", "free", "get and release an item"}; return n[c]; }
enum { NC = 2, NL = 2 };
struct L { fiftyoneDegreesList l; bool live = false; int lim = 0; std::vector<std::pair<int, uint32_t>> m; };
struct Ctx { const Plan *p; Image im; int T, kind[NC], lim[NL]; fiftyoneDegreesCollectionConfig cfg[NC]; fiftyoneDegreesCollection *c[NC]; fiftyoneDegreesFilePool pool; uint8_t *mem = nullptr; } *C;
const char *PATH = "/data/list.dat";
bool cachedKind(int k) { return k == CACHED || k == PART_CACHE; }
void fresh(fiftyoneDegreesCollectionItem &i) { memset(&i, 0, sizeof i); fiftyoneDegreesDataReset(&i.data); }
void same(int ci, uint32_t i, const void *got, const char *what) { NOP; Coll &k = C->im.c[(size_t)ci]; heapCheck(got, k.size[i], false, what); SIM_CHECK(!memcmp(got, C->im.b.data() + k.start + k.off[i], k.size[i]), "changed", "%s: the bytes are not those of item %u of the %s collection", what, i, kindName(C->kind[ci])); }
bool createAll(Ctx &c) {
	Ex e; if (fiftyoneDegreesFilePoolInit(&c.pool, PATH, (uint16_t)C->p->get("pool"), e.p) != FIFTYONE_DEGREES_STATUS_SUCCESS) return false;
	FILE *f = nullptr; if (fiftyoneDegreesFileOpen(PATH, &f) != FIFTYONE_DEGREES_STATUS_SUCCESS) return false; bool ok = true;
	fiftyoneDegreesMemoryReader rd; rd.startByte = rd.current = c.mem; rd.length = (long)c.im.b.size(); rd.lastByte = c.mem + c.im.b.size();
	for (int i = 0; i < NC && ok; i++) {
		auto h = fiftyoneDegreesCollectionHeaderFromFile(f, 0, false); auto h2 = fiftyoneDegreesCollectionHeaderFromMemory(&rd, 0, false);
		if (c.kind[i] == MEM) { c.c[i] = fiftyoneDegreesCollectionCreateFromMemory(&rd, h2); if (sim_fseek(f, (long)(c.im.c[(size_t)i].start + c.im.c[(size_t)i].len), SEEK_SET)) return false; }
		else { rd.current = c.mem + c.im.c[(size_t)i].start + c.im.c[(size_t)i].len; c.c[i] = fiftyoneDegreesCollectionCreateFromFile(f, &c.pool, &c.cfg[i], h, fiftyoneDegreesStringRead); }
		ok = c.c[i];
	}
	sim_fclose(f); return ok;
}

void run(const Plan &p) {
	static Ctx c; C = &c; c.p = &p; c.T = (int)p.th.size() - 1; Rng r((uint64_t)p.get("img")); add(c.im, r, 0, (uint32_t)p.get("n0"), 20); add(c.im, r, 0, (uint32_t)p.get("n1"), 20);
	char k[32]; int need = 1; for (int i = 0; i < NL; i++) { snprintf(k, sizeof k, "lim%d", i); need += c.lim[i] = (int)p.get(k); }
	for (int i = 0; i < NC; i++) { auto g = [&](const char *f) { snprintf(k, sizeof k, "%s%d", f, i); return p.get(k); }; c.kind[i] = (int)g("kind"); uint32_t n = c.im.c[(size_t)i].n; bool ca = cachedKind(c.kind[i]); c.cfg[i].loaded = c.kind[i] == LOADED ? n : c.kind[i] == PART_CACHE || c.kind[i] == PART_FILE ? 1 + (uint32_t)g("loaded") % (n - 1) : 0; c.cfg[i].concurrency = ca ? (uint16_t)g("conc") : 1; c.cfg[i].capacity = ca ? (uint32_t)(std::max(need * c.T, (int)g("conc")) + (int)g("extra")) * c.cfg[i].concurrency : 0; }
	fs::put(PATH, c.im.b); c.mem = (uint8_t *)heapData(c.im.b.data(), c.im.b.size());
	uint64_t mark = heapMark(); faultsOff(); SIM_CHECK(createAll(c), "spurious-failure", "the collections could not be created"); faultsOn();
	auto body = [&](int t) {
		L ls[NL]; for (int i = 0; i < NL; i++) { memset(&ls[i].l, 0xA5, sizeof ls[i].l); if (t & 1) fiftyoneDegreesListReset(&ls[i].l); ls[i].lim = c.lim[i]; }
		auto verify = [&](L &l, const char *when) { SIM_CHECK(l.l.count == l.m.size(), "lost", "the list has %u items instead of the %zu added (%s)", l.l.count, l.m.size(), when); for (size_t i = 0; i < l.m.size(); i++) { const void *s = fiftyoneDegreesListGetAsString(&l.l, (int)i); SIM_CHECK(s, "lost", "item %zu of the list is NULL", i); same(l.m[i].first, l.m[i].second, s, when); } };
		auto get = [&](int ci, uint32_t i, fiftyoneDegreesCollectionItem &it) { Ex e; uint64_t f0 = faultsFiredBy(tid()); fresh(it); void *q = c.c[ci]->get(c.c[ci], c.im.c[(size_t)ci].off[i], &it, e.p); if (!q || !e.ok()) { SIM_CHECK(!q && !e.ok(), "both", "item %p and exception %d", q, e.st()); SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "getting item %u of the %s collection failed with %d although nothing was wrong", i, kindName(c.kind[ci]), e.st()); return false; } same(ci, i, q, "item just read"); return true; };
		auto release = [&](L &l, bool free_) { if (free_) fiftyoneDegreesListFree(&l.l); else fiftyoneDegreesListRelease(&l.l); l.m.clear(); verify(l, "after release"); if (free_) l.live = false; };
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); L &l = ls[(size_t)op.a % NL]; fiftyoneDegreesCollectionItem it; int ci = (int)(op.b % NC); uint32_t i = (uint32_t)op.c % c.im.c[(size_t)ci].n; uint64_t f0 = faultsFiredBy(tid());
			switch (op.code) {
			case INIT: if (!l.live) { fiftyoneDegreesList *q = fiftyoneDegreesListInit(&l.l, (uint32_t)l.lim); if (q) { SIM_CHECK(q == &l.l && l.l.count == 0 && l.l.capacity >= (uint32_t)l.lim, "wrong-init", "initialised list %p has %u items and room for %u of %d", (void *)q, l.l.count, l.l.capacity, l.lim); heapCheck(l.l.items, sizeof(fiftyoneDegreesCollectionItem) * (size_t)l.lim, true, "room of the list"); l.live = true; } else { SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "the list could not be initialised"); fiftyoneDegreesListFree(&l.l); probe("init_failed"); } } break;
			case ADD: if (l.live && l.m.size() < (size_t)l.lim && get(ci, i, it)) { fiftyoneDegreesListAdd(&l.l, &it); l.m.push_back({ci, i}); memset(&it, 0xEE, sizeof it); if (l.m.size() == (size_t)l.lim) probe("list_full"); } break;
			case GET: if (l.live) verify(l, "item of the list"); break;
			case RELEASE: if (l.live) { verify(l, "item of the list before release"); if (l.m.size()) probe("released_items"); release(l, false); } break;
			case FREE: if (l.live) { verify(l, "item of the list before free"); if (l.m.size()) probe("freed_items"); release(l, true); if (op.d % 3 == 0) fiftyoneDegreesListFree(&l.l); } break;
			case TOUCH: if (get(ci, i, it)) FIFTYONE_DEGREES_COLLECTION_RELEASE(c.c[ci], &it); break;
			}
			eventf("%s: list %d with %zu items%s", opn(op.code), (int)(op.a % NL), l.m.size(), faultsFiredBy(tid()) != f0 ? " (faulted)" : ""); state(mix((uint64_t)op.code, mix(l.m.size(), mix(ls[0].m.size(), (uint64_t)c.kind[ci])))); opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e); for (auto &l : ls) if (l.live) { verify(l, "item of the list at the end"); release(l, true); }
	};
	for (int t = 1; t <= c.T; t++) spawn([&, t] { body(t); });
	joinAll(); faultsOff(); Op fo; fo.id = 9500; opBegin(fo);
	for (int ci = 0; ci < NC; ci++) { // all the room of each cache is free again
		Coll &co = c.im.c[(size_t)ci]; std::vector<fiftyoneDegreesCollectionItem> hs; hs.reserve(co.n); std::map<uint32_t, uint32_t> per; bool ca = cachedKind(c.kind[ci]); uint32_t lim = ca ? c.cfg[ci].capacity / c.cfg[ci].concurrency : 0;
		for (uint32_t i = co.n; i-- > 0;) { uint32_t key = co.off[i]; if (ca && per[key % c.cfg[ci].concurrency]++ >= lim) continue; fiftyoneDegreesCollectionItem it; fresh(it); Ex e; void *q = c.c[ci]->get(c.c[ci], key, &it, e.p); SIM_CHECK(q && e.ok(), "not-released", "only %zu items of the %s collection can be held at the end: a list did not release an item (exception %d)", hs.size(), kindName(c.kind[ci]), e.st()); same(ci, i, q, "final get"); hs.push_back(it); }
		for (auto &h : hs) FIFTYONE_DEGREES_COLLECTION_RELEASE(c.c[ci], &h);
	}
	for (int i = 0; i < NC; i++) c.c[i]->freeCollection(c.c[i]);
	{ Ex e; std::vector<fiftyoneDegreesFileHandle *> hs; int n = (int)p.get("pool"); for (int i = 0; i < n; i++) { auto h = fiftyoneDegreesFileHandleGet(&c.pool, e.p); SIM_CHECK(h && e.ok(), "handle-leak", "only %d of %d file handles were given back", i, n); hs.push_back(h); } for (auto h : hs) fiftyoneDegreesFileHandleRelease(h); fiftyoneDegreesFilePoolRelease(&c.pool); }
	SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open at the end", fs::openCount()); leakCheck(mark, "after everything was freed");
}
void gen(Plan &p, Rng &r) {
	int T = r.chance(1, 3) ? 1 : (int)r.range(2, 3); p.set("img", (int64_t)r.below(1u << 30)); p.set("n0", r.range(2, 14)); p.set("n1", r.chance(1, 4) ? r.range(20, 40) : r.range(2, 8)); p.set("lim0", r.range(1, 3)); p.set("lim1", r.chance(1, 4) ? r.range(4, 8) : r.range(1, 3)); p.set("pool", T + (int)r.below(2)); char k[32];
	for (int i = 0; i < NC; i++) { auto s = [&](const char *f, int64_t v) { snprintf(k, sizeof k, "%s%d", f, i); p.set(k, v); }; s("kind", r.pick({MEM, LOADED, PART_CACHE, PART_CACHE, PART_FILE, CACHED, CACHED, CACHED, STREAM, STREAM})); s("loaded", (int64_t)r.below(100)); s("conc", r.pick({1, 1, 1, 2, 3})); s("extra", r.pick({0, 0, 0, 2})); }
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); for (int l = 0; l < NL; l++) p.add(t, INIT, l); int n = (int)r.range(3, T == 1 ? 30 : 14); for (int i = 0; i < n; i++) p.add(t, r.pick({INIT, ADD, ADD, ADD, ADD, ADD, ADD, GET, GET, RELEASE, FREE, TOUCH, TOUCH, TOUCH}), (int64_t)r.below(100), (int64_t)r.below(100), (int64_t)r.below(1000), (int64_t)r.below(100)); }
	if (r.chance(1, 3)) { if (r.chance(1, 2)) p.set(r.pick({"fn_seek", "fn_read_eio", "fn_early_eof", "fn_malloc", "fn_malloc"}), r.range(1, 20)); else for (FaultKind f : {FK_SEEK, FK_READ_EIO, FK_EARLY_EOF, FK_MALLOC}) if (r.chance(1, 2)) p.enable(f, r.pick({30, 300, 2000})); if (p.get("no_oom")) { p.set("fn_malloc", 0); p.set("f_malloc", 0); } if (r.chance(1, 3)) p.set("bufsz", r.pick({1, 7, 16, 64})); p.set("f_max", 2000); }
	p.set("step_cap", 6000000); oomOnly(p, r, 30);
}
SIM_SCENARIO(list, gen, run, opn);
}
