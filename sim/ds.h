// A data set implementation over common-cxx, written as dataset.h documents; shared by the scenarios that need one.
#pragma once
#include "img.h"
using namespace img;
extern "C" { size_t sim_fread(void *, size_t, size_t, FILE *); int sim_fseek(FILE *, long, int); int sim_fclose(FILE *); }
namespace {
const char *MASTER = "/data/master.dat";
struct Ver { Image im; std::vector<std::string> props, heads; uint32_t nProp, nHead, nItems; };
struct DS { fiftyoneDegreesDataSetBase b; fiftyoneDegreesConfigBase cfg; fiftyoneDegreesCollection *c[4]; int ver; bool readFailed; Bytes *content; };
struct DsCtx { // what the data sets of a run share
	int T; std::vector<Ver> v; std::vector<std::pair<void *, int>> alive; int nds = 0; int kind[4]; fiftyoneDegreesCollectionConfig cc[4]; fiftyoneDegreesConfigBase cfg; size_t pad; /* bytes ahead of the collections, at least 8 */ long cmp; int lastVer[16]; std::map<const void *, std::vector<std::string>> req; std::vector<std::string> initReq; bool baseFirst;
	void kinds(const Plan &p) { baseFirst = p.get("img") & 1; char k[16]; for (int i = 0; i < 4; i++) { snprintf(k, sizeof k, "kind%d", i); kind[i] = (int)p.get(k); auto &q = cc[i]; q.loaded = kind[i] == LOADED ? 1000 : kind[i] == PART_CACHE || kind[i] == PART_FILE ? 1 : 0; bool ca = kind[i] == CACHED || kind[i] == PART_CACHE; q.concurrency = ca ? (uint16_t)(1 + (p.get("conc") % T)) : 0; q.capacity = ca ? (uint32_t)(q.concurrency * (24 + 2 * T)) : 0; } }
} *D;
Ver mkVer(Rng &r, int v, uint32_t np = 0, int same = 0) { // with 'same' all versions have np properties of the same names
	Ver x; x.nProp = (uint32_t)r.range(1, 5); if (np) x.nProp = np; x.nHead = (uint32_t)r.range(1, 4); x.nItems = (uint32_t)r.range(2, 20);
	std::vector<std::string> st; st.push_back("version" + std::to_string(v));
	static const char *P[] = {"Alpha", "Beta", "Gamma", "Delta", "Epsilon"}, *H[] = {"User-Agent", "Sec-CH-UA", "Device-Stock-UA", "Accept\x1FLanguage"};
	for (uint32_t i = 0; i < x.nProp; i++) x.props.push_back(i ? P[1 + (i + (same ? 0u : (uint32_t)v)) % 4] : P[0]);
	for (uint32_t i = 0; i < x.nHead; i++) x.heads.push_back(H[i]);
	st.insert(st.end(), x.props.begin(), x.props.end()); st.insert(st.end(), x.heads.begin(), x.heads.end()); while (st.size() < 14) st.push_back(std::string(r.below(30), (char)('a' + v % 26)));
	if (D->pad > 8) x.im.b.assign(D->pad, 0xAB); else x.im.b.assign(8, (uint8_t)v);
	Coll s = addStrings(x.im, st); Bytes b;
	for (uint32_t i = 0; i < x.nProp; i++) { put32(b, s.off[1 + i]); put32(b, (uint32_t)r.below(3)); } addFixed(x.im, 8, b); b.clear();
	for (uint32_t i = 0; i < x.nHead; i++) put32(b, s.off[1 + x.nProp + i]); addFixed(x.im, 4, b); b.clear();
	for (uint32_t i = 0; i < x.nItems; i++) { put32(b, (uint32_t)v); put32(b, (uint32_t)r.next()); put32(b, i); } addFixed(x.im, 12, b); if (D->pad > 8) x.im.b.resize(D->pad + 4096); set32(x.im.b, 0, (uint32_t)x.im.b.size());
	return x;
}
int versionOf(const Bytes &b) { for (size_t i = 0; i < D->v.size(); i++) if (D->v[i].im.b == b) return (int)i; return -1; }
// ---- a data set implementation written as the library's documentation asks
fiftyoneDegreesString *getName(DS *d, uint32_t off, fiftyoneDegreesCollectionItem *it) { Ex e; void *s = d->c[0]->get(d->c[0], off, it, e.p); if (!s || !e.ok()) { d->readFailed = true; return nullptr; } return (fiftyoneDegreesString *)s; }
fiftyoneDegreesString *propName(void *st, uint32_t i, fiftyoneDegreesCollectionItem *it) {
	DS *d = (DS *)st; Ex e; fiftyoneDegreesCollectionItem pi; fiftyoneDegreesDataReset(&pi.data); it->collection = nullptr; if (i >= fiftyoneDegreesCollectionGetCount(d->c[1])) return nullptr;
	uint32_t *q = (uint32_t *)d->c[1]->get(d->c[1], i, &pi, e.p); if (!q || !e.ok()) { d->readFailed = true; return nullptr; }
	uint32_t off = q[0]; fiftyoneDegreesString *s = getName(d, off, it); relItem(d->c[1], &pi); return s;
}
uint32_t evidence(void *st, fiftyoneDegreesPropertyAvailable *pr, fiftyoneDegreesEvidenceProperties *ev) {
	DS *d = (DS *)st; Ex e; fiftyoneDegreesCollectionItem pi; fiftyoneDegreesDataReset(&pi.data); uint32_t *q = (uint32_t *)d->c[1]->get(d->c[1], pr->propertyIndex, &pi, e.p); if (!q || !e.ok()) { d->readFailed = true; return 0; }
	uint32_t n = q[1]; relItem(d->c[1], &pi); if (ev) for (uint32_t i = 0; i < n && i < ev->capacity; i++) ev->items[i] = i; return n;
}
long header(void *st, uint32_t i, fiftyoneDegreesCollectionItem *it) {
	DS *d = (DS *)st; Ex e; fiftyoneDegreesCollectionItem pi; fiftyoneDegreesDataReset(&pi.data); it->collection = nullptr; if (i >= fiftyoneDegreesCollectionGetCount(d->c[2])) return -1;
	uint32_t *q = (uint32_t *)d->c[2]->get(d->c[2], i, &pi, e.p); if (!q || !e.ok()) { d->readFailed = true; return -1; }
	uint32_t off = q[0]; fiftyoneDegreesString *s = getName(d, off, it); relItem(d->c[2], &pi); return s ? (long)i : -1;
}
uint32_t size32(const uint8_t *p) { uint32_t v; memcpy(&v, p, 4); return v; }
void freeInside(DS *d) { for (int i = 0; i < 4; i++) if (d->c[i]) { d->c[i]->freeCollection(d->c[i]); d->c[i] = nullptr; } fiftyoneDegreesDataSetFree(&d->b); }
// the names held by `available` belong to the collections: the library's part goes first, as a whole or in parts
void closeDS(DS *d) {
	if (D->baseFirst) { fiftyoneDegreesDataSetFree(&d->b); for (int i = 0; i < 4; i++) if (d->c[i]) { d->c[i]->freeCollection(d->c[i]); d->c[i] = nullptr; } return; }
	if (d->b.overridable) { fiftyoneDegreesOverridePropertiesFree(d->b.overridable); d->b.overridable = nullptr; } fiftyoneDegreesHeadersFree(d->b.uniqueHeaders); d->b.uniqueHeaders = nullptr; fiftyoneDegreesPropertiesFree(d->b.available); d->b.available = nullptr; freeInside(d); }
void freeDS(void *v) {
	DS *d = (DS *)v; { NOP; bool f = false; for (auto &a : D->alive) if (a.first == v) { SIM_CHECK(a.second == 0, "freed-while-held", "a data set of version %d was freed while %d users have it", d->ver, a.second); f = true; a.first = nullptr; } SIM_CHECK(f, "double-free", "a data set was freed that is not alive"); eventf("data set of version %d freed", d->ver); }
	closeDS(d); fiftyoneDegreesMemoryStandardFree(d);
}
// the properties a data set is asked for: those of the data set it replaces, or the ones given for the first
void required(DS *d, fiftyoneDegreesPropertiesRequired *q) {
	NOP; auto &o = D->req[d]; o.clear();
	if (!q) return;
	if (q->existing) { bool known = false; for (auto &a : D->alive) known |= a.first && ((DS *)a.first)->b.available == q->existing; SIM_CHECK(known, "wrong-data", "a reload takes its properties from a data set that is not alive"); for (uint32_t i = 0; i < q->existing->count; i++) o.push_back(&((fiftyoneDegreesString *)q->existing->items[i].name.data.ptr)->value); }
	else if (q->array) for (int i = 0; i < q->count; i++) o.push_back(q->array[i]);
	else if (q->string) { std::string w; for (const char *c = q->string;; c++) if (!*c || strchr("|, ", *c)) { if (!w.empty()) o.push_back(w); w.clear(); if (!*c) break; } else w += *c; }
}
bool among(const std::vector<std::string> &l, const char *s) { for (auto &x : l) if (!strcasecmp(x.c_str(), s)) return true; return l.empty(); }
void offered(DS *d) {
	auto &o = D->req[d]; auto &v = D->v[(size_t)d->ver]; auto *av = d->b.available; size_t n = 0; for (auto &s : v.props) n += among(o, s.c_str());
	SIM_CHECK(av && av->count == n, "wrong-properties", "a data set of version %d has %u properties, %zu of the required ones are in it", d->ver, av ? av->count : 0, n);
	for (uint32_t i = 0; i < av->count; i++) { const char *s = &((fiftyoneDegreesString *)av->items[i].name.data.ptr)->value; SIM_CHECK(among(o, s) && among(D->initReq, s), "wrong-properties", "a data set of version %d has property \"%s\" which was not required", d->ver, s); }
}
void born(DS *d, const Bytes &b) { D->alive.push_back({d, 0}); D->nds++; d->ver = versionOf(b); SIM_CHECK(d->ver >= 0, "accepted-bad", "a data set was made from %zu bytes which are not those of any version", b.size()); offered(d); D->lastVer[tid()] = d->ver; }
fiftyoneDegreesStatusCode build(DS *d, fiftyoneDegreesMemoryReader *rd, fiftyoneDegreesPropertiesRequired *props, fiftyoneDegreesException *exception) {
	static const uint32_t el[4] = {0, 8, 4, 12}; fiftyoneDegreesStatusCode st = FIFTYONE_DEGREES_STATUS_SUCCESS;
	if (rd) {
		if (rd->lastByte - rd->current < 8 || size32(rd->current) != (uint32_t)(rd->lastByte - rd->current)) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; rd->current += std::max<size_t>(8, D->pad);
		for (int i = 0; i < 4; i++) { auto h = fiftyoneDegreesCollectionHeaderFromMemory(rd, el[i], false); d->c[i] = fiftyoneDegreesCollectionCreateFromMemory(rd, h); if (!d->c[i]) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; }
		d->b.isInMemory = true;
	} else {
		st = fiftyoneDegreesFilePoolInit(&d->b.filePool, d->b.fileName, (uint16_t)(D->T * 2 + 3), exception); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS || exception->status != FIFTYONE_DEGREES_STATUS_NOT_SET) return st == FIFTYONE_DEGREES_STATUS_SUCCESS ? exception->status : st;
		fiftyoneDegreesFileHandle *h = fiftyoneDegreesFileHandleGet(&d->b.filePool, exception); if (!h) return FIFTYONE_DEGREES_STATUS_FILE_FAILURE;
		uint8_t head[8]; if (sim_fseek(h->file, 0, SEEK_SET) || sim_fread(head, 8, 1, h->file) != 1 || size32(head) != (uint32_t)d->b.filePool.length) { fiftyoneDegreesFileHandleRelease(h); return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; }
		if (d->content) { NOP; FaultMask fm(false); d->content->resize((size_t)d->b.filePool.length); sim_fseek(h->file, 0, SEEK_SET); if (sim_fread(d->content->data(), 1, d->content->size(), h->file) != d->content->size()) harnessError("can't read the data file back"); sim_fseek(h->file, 8, SEEK_SET); } if (D->pad > 8 && sim_fseek(h->file, (long)D->pad, SEEK_SET)) { fiftyoneDegreesFileHandleRelease(h); return FIFTYONE_DEGREES_STATUS_FILE_READ_ERROR; }
		for (int i = 0; i < 4; i++) { auto hd = fiftyoneDegreesCollectionHeaderFromFile(h->file, el[i], false); d->c[i] = fiftyoneDegreesCollectionCreateFromFile(h->file, &d->b.filePool, &D->cc[i], hd, el[i] ? fiftyoneDegreesCollectionReadFileFixed : fiftyoneDegreesStringRead); if (!d->c[i]) { fiftyoneDegreesFileHandleRelease(h); return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; } }
		fiftyoneDegreesFileHandleRelease(h);
	}
	required(d, props);
	st = fiftyoneDegreesDataSetInitProperties(&d->b, props, d, propName, evidence);
	if (d->readFailed) return FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE;
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) return st;
	d->b.overridable = fiftyoneDegreesOverridePropertiesCreate(d->b.available, true, nullptr, [](void *, uint32_t i) { return i < 4; });
	if (!d->b.overridable) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	st = fiftyoneDegreesDataSetInitHeaders(&d->b, d, header);
	return d->readFailed ? FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE : st;
}
void begin(DS *d, const void *config) { fiftyoneDegreesDataSetReset(&d->b); d->cfg = *(const fiftyoneDegreesConfigBase *)config; d->b.config = &d->cfg; for (auto &c : d->c) c = nullptr; d->content = nullptr; d->ver = -1; d->readFailed = false; }
fiftyoneDegreesStatusCode initFile(void *ds, const void *config, fiftyoneDegreesPropertiesRequired *props, const char *file, fiftyoneDegreesException *exception) {
	DS *d = (DS *)ds; begin(d, config); fiftyoneDegreesMemoryReader rd; Bytes content; d->content = &content;
	fiftyoneDegreesStatusCode st = fiftyoneDegreesDataSetInitFromFile(&d->b, file, D->cmp);
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		if (d->cfg.allInMemory) { st = fiftyoneDegreesDataSetInitInMemory(&d->b, &rd); if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) st = build(d, &rd, props, exception); }
		else st = build(d, nullptr, props, exception);
	}
	{ NOP; eventf("init from file: status %d exception %d", (int)st, (int)exception->status); }
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS || exception->status != FIFTYONE_DEGREES_STATUS_NOT_SET) { closeDS(d); fiftyoneDegreesMemoryStandardFree(d); return st == FIFTYONE_DEGREES_STATUS_SUCCESS ? exception->status : st; }
	Bytes b; if (d->b.memoryToFree) b.assign((uint8_t *)d->b.memoryToFree, (uint8_t *)d->b.memoryToFree + heapSizeOf(d->b.memoryToFree)); else b = content; d->content = nullptr;
	born(d, b); return st;
}
fiftyoneDegreesStatusCode initMem(void *ds, const void *config, fiftyoneDegreesPropertiesRequired *props, void *mem, long size, fiftyoneDegreesException *exception) {
	DS *d = (DS *)ds; begin(d, config); d->cfg.useTempFile = false; fiftyoneDegreesMemoryReader rd; rd.startByte = rd.current = (uint8_t *)mem; rd.length = size; rd.lastByte = rd.startByte + size;
	if (d->cfg.freeData) d->b.memoryToFree = mem;
	fiftyoneDegreesStatusCode st = build(d, &rd, props, exception);
	{ NOP; eventf("init from memory: status %d exception %d", (int)st, (int)exception->status); }
	d->cfg.useTempFile = ((const fiftyoneDegreesConfigBase *)config)->useTempFile; // the next reload takes it from here
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS || exception->status != FIFTYONE_DEGREES_STATUS_NOT_SET) { d->b.memoryToFree = nullptr; closeDS(d); return st == FIFTYONE_DEGREES_STATUS_SUCCESS ? exception->status : st; }
	born(d, Bytes((uint8_t *)mem, (uint8_t *)mem + size)); return st;
}
// ---- using a data set
void use(DS *d, int ver, uint64_t seed) {
	SIM_CHECK(d->ver == ver, "changed", "a held data set changed from version %d to %d", ver, d->ver); Ver &v = D->v[(size_t)ver]; Rng r(seed);
	for (int k = 0; k < 3; k++) {
		int col = k == 0 ? 3 : (int)r.below(4); uint32_t i = (uint32_t)r.below(v.im.c[(size_t)col].n); Coll &c = v.im.c[(size_t)col]; Ex e; uint64_t f0 = faultsFiredBy(tid());
		fiftyoneDegreesCollectionItem it; memset(&it, 0, sizeof it); fiftyoneDegreesDataReset(&it.data);
		void *x = d->c[col]->get(d->c[col], c.fixed ? i : c.off[i], &it, e.p);
		if (!x) { SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "item %u of collection %d of a held data set of version %d could not be read: %d", i, col, ver, e.st()); continue; }
		heapCheck(x, c.size[i], false, "item"); SIM_CHECK(!memcmp(x, v.im.b.data() + c.start + c.off[i], c.size[i]), "wrong-data", "item %u of collection %d of a held data set is not that of version %d", i, col, ver);
		relItem(d->c[col], &it);
	}
	auto *av = d->b.available; SIM_CHECK(av && av->count <= v.nProp, "wrong-data", "available properties of version %d", ver); heapCheck(av, sizeof *av, false, "available properties");
	for (uint32_t i = 0; i < av->count; i++) {
		fiftyoneDegreesString *s = (fiftyoneDegreesString *)av->items[i].name.data.ptr; heapCheck(s, 2, false, "property name"); heapCheck(s, (size_t)s->size + 2, false, "property name"); uint32_t pi = av->items[i].propertyIndex;
		SIM_CHECK(pi < v.nProp && v.props[pi] == &s->value, "wrong-data", "property %u of a held data set is \"%s\", not that of version %d", i, &s->value, ver);
		if (i) SIM_CHECK(strcasecmp(&((fiftyoneDegreesString *)av->items[i - 1].name.data.ptr)->value, &s->value) < 0, "wrong-data", "properties not in order");
	}
	auto *ov = d->b.overridable; SIM_CHECK(ov, "wrong-data", "no overridable properties in a held data set of version %d", ver); heapCheck(ov, sizeof *ov, false, "overridable properties"); heapCheck(ov->items, ov->count * sizeof *ov->items, false, "overridable properties"); uint32_t ovn = 0; for (uint32_t i = 0; i < av->count; i++) ovn += i < 4;
	SIM_CHECK(ov->count == ovn, "wrong-data", "%u overridable properties in a data set of version %d, expected %u", ov->count, ver, ovn);
	uint32_t want = 0; for (auto &h : v.heads) want += h.find('\x1F') != std::string::npos ? 3 : 1;
	auto *hs = d->b.uniqueHeaders; SIM_CHECK(hs && hs->count == want, "wrong-data", "%u headers in a data set of version %d, expected %u", hs ? hs->count : 0, ver, want);
	for (uint32_t i = 0; i < v.nHead; i++) { heapCheck(hs->items[i].name, v.heads[i].size() + 1, false, "header name"); SIM_CHECK(v.heads[i] == hs->items[i].name, "wrong-data", "header %u is not that of version %d", i, ver); }
}
void hold(DS *d, int delta) { for (auto &a : D->alive) if (a.first == d) { a.second += delta; return; } violation("freed-while-held", "a data set in use has been freed"); }
}
