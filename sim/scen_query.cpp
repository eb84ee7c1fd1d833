// Look-ups over profiles, properties, values and components in every storage configuration (C16) and lists of items (C17).
#include "img.h"
#include <stddef.h>
using namespace img;
extern "C" int sim_fclose(FILE *);
namespace {
enum { BYID = 1, BYINDEX, OFFSET, PROP, VINDEX, VALUE, ITERV, ITERP, COMPS, STRS, HOLD, DROP };
const char *opn(int c) { static const char *n[] = {"", "profile by id", "profile by index", "profile offset", "property by name", "value index by name", "value by name", "values of a profile", "profiles with a value", "list of components", "strings", "hold", "drop"}; return n[c]; }
typedef std::vector<uint8_t> Raw;
enum { S, V, P, PR, PO, CO, NC };
const char *collName[] = {"strings", "values", "properties", "profiles", "profile offsets", "components"};
struct MVal { std::string name /* as stored: text, or a type byte and its payload */, desc, url; int prop; std::string text; };
struct MProp { std::string name, desc, cat, url; uint32_t first, last; uint8_t type; int form = 0; /* 0 text, else the type of its strings */ };
struct MProf { uint32_t id; uint8_t comp; std::vector<uint32_t> vals; uint32_t off; };
struct MComp { uint8_t id; std::string name; int def; std::vector<std::pair<uint32_t, uint32_t>> kv; uint32_t off; };
struct Held { fiftyoneDegreesCollectionItem it; int coll = -1; uint32_t key = 0, n = 0; const uint8_t *want = nullptr; };
struct Ctx {
	const Plan *p; Image im; std::vector<std::string> str; std::map<std::string, uint32_t> strOff; std::vector<MVal> vals; std::map<std::string, std::string> forms; /* text: stored form */  std::vector<MProp> props; std::vector<MProf> profs /* by id */; std::vector<MComp> comps;
	int kind[NC]; fiftyoneDegreesCollectionConfig cfg[NC]; fiftyoneDegreesCollection *c[NC] = {nullptr}; fiftyoneDegreesFilePool pool; uint8_t *mem = nullptr; int T; bool allMem, faulty;
} *C;
const char *PATH = "/data/query.dat";
Coll &addVar(Image &im, const std::vector<Raw> &v) { Coll c; c.fixed = false; c.elem = 0; c.n = (uint32_t)v.size(); c.head = (uint32_t)im.b.size(); put32(im.b, 0); c.start = (uint32_t)im.b.size(); for (auto &x : v) { c.off.push_back((uint32_t)im.b.size() - c.start); c.size.push_back((uint32_t)x.size()); im.b.insert(im.b.end(), x.begin(), x.end()); } c.len = (uint32_t)im.b.size() - c.start; set32(im.b, c.head, c.len); im.c.push_back(c); return im.c.back(); }
template <class T> void put(Raw &b, size_t at, T v) { if (b.size() < at + sizeof v) b.resize(at + sizeof v); memcpy(b.data() + at, &v, sizeof v); }
bool typed(const std::string &s) { return s.size() && (s[0] == FIFTYONE_DEGREES_STRING_COORDINATE || s[0] == FIFTYONE_DEGREES_STRING_IP_ADDRESS); }
// a value stored as an IP address or as a coordinate, and a text for it
std::pair<std::string, std::string> typedValue(Rng &r, int form) {
	char t[80]; std::string raw(1, (char)form), x;
	if (form == FIFTYONE_DEGREES_STRING_COORDINATE) { for (int i = 0; i < 2; i++) { float f = (float)r.range(-400, 400) / (float)r.pick({1, 2, 4, 8}); if (f == 0) f = 0; raw.append((const char *)&f, sizeof f); snprintf(t, sizeof t, r.chance(1, 4) ? "%.6f" : "%g", (double)f); if (i) x += ','; x += t; } return {raw, x}; }
	bool v6 = r.chance(1, 3), same = r.chance(1, 2); for (int i = 0; i < (v6 ? 16 : 4); i++) raw += (char)(same && i < 2 ? 1 + i : (int)r.below(r.chance(1, 3) ? 3 : 256)); auto b = [&](int i) { return (int)(uint8_t)raw[(size_t)i + 1]; };
	if (!v6) for (int i = 0; i < 4; i++) { snprintf(t, sizeof t, "%s%d", i ? "." : "", b(i)); x += t; } else for (int i = 0; i < 16; i += 2) { snprintf(t, sizeof t, r.chance(1, 4) ? "%s%04X" : "%s%x", i ? ":" : "", b(i) << 8 | b(i + 1)); x += t; }
	return {raw, x};
}
// like addStrings, typed strings have no terminator
Coll &addNames(Image &im, const std::vector<std::string> &v) { std::vector<Raw> rs; for (auto &q : v) { Raw x; uint16_t n = (uint16_t)(q.size() + !typed(q)); x.push_back((uint8_t)n); x.push_back((uint8_t)(n >> 8)); for (char ch : q) x.push_back((uint8_t)ch); if (!typed(q)) x.push_back(0); rs.push_back(x); } return addVar(im, rs); }
std::string word(Rng &r, int lo, int hi) { std::string s((size_t)r.range(lo, hi), ' '); for (auto &c : s) c = (char)('a' + r.below(r.chance(1, 2) ? 3 : 26)); return s; }
void build(Ctx &c, Rng &r) {
	const Plan &p = *C->p; int big = (int)p.get("big"), np = (int)p.get("props"), nf = (int)p.get("profs"), nc = (int)p.get("comps"); std::set<std::string> used;
	auto uniq = [&]() { std::string s; do s = word(r, 1, r.chance(1, 8) ? 60 : 8); while (!used.insert(s).second); return s; };
	auto any = [&]() { return word(r, 0, 20); };
	uint32_t vi = 0;
	for (int i = 0; i < np; i++) {
		MProp m; m.name = uniq(); if (big == 2 && i % 50) m.desc = m.cat = m.url = ""; else { m.desc = any(); m.cat = any(); m.url = any(); } m.type = (uint8_t)r.below(9); bool many = big == 1 && i == np / 2; int nv = many ? 65530 + (int)r.below(300) : big == 2 ? (int)r.below(3) : r.chance(1, 8) ? 0 : (int)r.range(1, r.chance(1, 6) ? 25 : 6); m.form = !many && r.chance(1, 4) ? r.pick({(int)FIFTYONE_DEGREES_STRING_COORDINATE, (int)FIFTYONE_DEGREES_STRING_IP_ADDRESS}) : 0; std::set<std::string> ns; std::map<std::string, std::string> texts; if (many) for (int j = 0; j < nv; j++) { char t[8]; for (int q = 0, v = j; q < 4; q++, v /= 17) t[3 - q] = (char)('a' + v % 17); t[4] = 0; ns.insert(t); } while ((int)ns.size() < nv) { if (!m.form) { ns.insert(word(r, 1, 6)); continue; } auto t = typedValue(r, m.form); if (ns.insert(t.first).second) { texts[t.first] = t.second; c.forms[t.second] = t.first; } }
		if (nv) { m.first = vi; m.last = vi + (uint32_t)nv - 1; } else m.first = m.last = 0xFFFFFFFF;
		for (auto &s : ns) { c.vals.push_back({s, many ? "" : any(), many ? "" : any(), i, m.form ? texts[s] : s}); vi++; } c.props.push_back(m);
	}
	std::set<uint32_t> ids; while ((int)ids.size() < nf) ids.insert(r.chance(1, 2) ? 1 + (uint32_t)r.below(60) : 1 + (uint32_t)r.below(0xFFFFFFFEu)); if (big == 3) while (ids.size() < 65600) ids.insert(1 + (uint32_t)r.below(0xFFFFFFFEu));
	for (auto id : ids) { MProf f; f.id = id; f.comp = (uint8_t)r.below(3); int den = big == 3 ? 16 : (int)r.pick({1, 2, 4}); for (uint32_t v = 0; v < vi; v++) if (r.chance(1, (uint64_t)den)) f.vals.push_back(v); if (r.chance(1, 10)) f.vals.clear(); c.profs.push_back(f); }
	for (int i = 0; i < nc; i++) { MComp m; m.id = (uint8_t)(i + 1); m.name = uniq(); m.def = nf ? (int)r.below((uint64_t)nf) : -1; int k = (int)r.below(4); if (big == 4 && i < 2) k = r.pick({8192, 9000, 32768, 65535}); for (int j = 0; j < k; j++) m.kv.push_back({(uint32_t)r.next(), (uint32_t)r.next()}); c.comps.push_back(m); }
	// strings, in any order
	for (auto &x : c.vals) for (auto s : {&x.name, &x.desc, &x.url}) c.str.push_back(*s);
	for (auto &x : c.props) for (auto s : {&x.name, &x.desc, &x.cat, &x.url}) c.str.push_back(*s);
	for (auto &x : c.comps) c.str.push_back(x.name);
	for (size_t i = c.str.size(); i > 1; i--) std::swap(c.str[i - 1], c.str[r.below(i)]); if (c.str.empty()) c.str.push_back("");
	Image &im = c.im; { auto &k = addNames(im, c.str); for (size_t i = 0; i < c.str.size(); i++) c.strOff[c.str[i]] = k.off[i]; }
	Raw b; auto off = [&](const std::string &s) { return (int32_t)c.strOff[s]; };
	for (size_t i = 0; i < c.vals.size(); i++) { Raw x(sizeof(fiftyoneDegreesValue)); put(x, offsetof(fiftyoneDegreesValue, propertyIndex), (int16_t)c.vals[i].prop); put(x, offsetof(fiftyoneDegreesValue, nameOffset), off(c.vals[i].name)); put(x, offsetof(fiftyoneDegreesValue, descriptionOffset), off(c.vals[i].desc)); put(x, offsetof(fiftyoneDegreesValue, urlOffset), off(c.vals[i].url)); b.insert(b.end(), x.begin(), x.end()); }
	addFixed(im, sizeof(fiftyoneDegreesValue), b); b.clear();
	typedef fiftyoneDegreesProperty FP; for (auto &q : c.props) { Raw x(sizeof(FP)); for (auto &y : x) y = (uint8_t)r.below(256); put(x, offsetof(FP, valueType), q.type); put(x, offsetof(FP, nameOffset), off(q.name)); put(x, offsetof(FP, descriptionOffset), off(q.desc)); put(x, offsetof(FP, categoryOffset), off(q.cat)); put(x, offsetof(FP, urlOffset), off(q.url)); put(x, offsetof(FP, firstValueIndex), q.first); put(x, offsetof(FP, lastValueIndex), q.last); b.insert(b.end(), x.begin(), x.end()); }
	addFixed(im, sizeof(FP), b); b.clear();
	std::vector<size_t> ord; for (size_t i = 0; i < c.profs.size(); i++) ord.push_back(i); for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[r.below(i)]);
	std::vector<Raw> vr; for (auto i : ord) { Raw x(sizeof(fiftyoneDegreesProfile)); put(x, offsetof(fiftyoneDegreesProfile, componentIndex), c.profs[i].comp); put(x, offsetof(fiftyoneDegreesProfile, profileId), c.profs[i].id); put(x, offsetof(fiftyoneDegreesProfile, valueCount), (uint32_t)c.profs[i].vals.size()); for (auto v : c.profs[i].vals) put(x, x.size(), v); vr.push_back(x); }
	{ auto &k = addVar(im, vr); for (size_t i = 0; i < ord.size(); i++) c.profs[ord[i]].off = k.off[i]; } vr.clear();
	for (auto &f : c.profs) { Raw x(sizeof(fiftyoneDegreesProfileOffset)); put(x, offsetof(fiftyoneDegreesProfileOffset, profileId), f.id); put(x, offsetof(fiftyoneDegreesProfileOffset, offset), f.off); b.insert(b.end(), x.begin(), x.end()); }
	addFixed(im, sizeof(fiftyoneDegreesProfileOffset), b);
	typedef fiftyoneDegreesComponent FC; for (auto &m : c.comps) { Raw x(offsetof(FC, firstKeyValuePair)); put(x, offsetof(FC, componentId), m.id); put(x, offsetof(FC, nameOffset), off(m.name)); put(x, offsetof(FC, defaultProfileOffset), (int32_t)(m.def >= 0 ? c.profs[(size_t)m.def].off : 0)); put(x, offsetof(FC, keyValuesCount), (uint16_t)m.kv.size()); for (auto &q : m.kv) { put(x, x.size(), q.first); put(x, x.size(), q.second); } vr.push_back(x); }
	auto &k = addVar(im, vr); for (size_t i = 0; i < c.comps.size(); i++) c.comps[i].off = k.off[i];
}
const uint8_t *bytesOf(int ci, uint32_t i) { Coll &k = C->im.c[(size_t)ci]; return C->im.b.data() + k.start + k.off[i]; }
uint32_t varIndex(int ci, uint32_t off) { Coll &k = C->im.c[(size_t)ci]; auto i = std::lower_bound(k.off.begin(), k.off.end(), off); if (i != k.off.end() && *i == off) return (uint32_t)(i - k.off.begin()); harnessError("no item at the offset"); }
void same(int ci, uint32_t i, const void *got, const char *what) { NOP; uint32_t n = C->im.c[(size_t)ci].size[i]; heapCheck(got, n, false, what); SIM_CHECK(!memcmp(got, bytesOf(ci, i), n), "wrong-answer", "%s: the bytes are not those of item %u of the %s", what, i, collName[ci]); }
void sameStr(const fiftyoneDegreesString *s, const std::string &w, const char *what) { NOP; if (typed(w)) { heapCheck(s, 2 + w.size(), false, what); SIM_CHECK(s->size == (int16_t)w.size() && !memcmp(&s->value, w.data(), w.size()), "wrong-answer", "%s is not the stored typed string", what); return; } heapCheck(s, 2 + w.size() + 1, false, what); SIM_CHECK(s->size == (int16_t)(w.size() + 1) && w == &s->value, "wrong-answer", "%s is \"%s\" instead of \"%s\"", what, &s->value, w.c_str()); }
void fresh(fiftyoneDegreesCollectionItem &i) { memset(&i, 0, sizeof i); fiftyoneDegreesDataReset(&i.data); }
void rel(int ci, fiftyoneDegreesCollectionItem &i) { FIFTYONE_DEGREES_COLLECTION_RELEASE(C->c[ci], &i); }
struct It { std::vector<uint32_t> seen; int stopAfter; int coll; bool release; const std::vector<uint32_t> *want; bool bad = false; };
bool onItem(void *s, fiftyoneDegreesCollectionItem *i) {
	It *t = (It *)s; SIM_CHECK(t->seen.size() < t->want->size(), "wrong-answer", "more than the %zu matching items were passed to the callback", t->want->size());
	uint32_t idx = (*t->want)[t->seen.size()]; same(t->coll, idx, i->data.ptr, t->coll == V ? "value passed to the callback" : "profile passed to the callback"); t->seen.push_back(idx); yieldPoint();
	if (t->release) rel(t->coll, *i); return (int)t->seen.size() < t->stopAfter;
}
bool createAll(Ctx &c) {
	if (c.allMem) { fiftyoneDegreesMemoryReader rd; rd.startByte = rd.current = c.mem; rd.length = (long)c.im.b.size(); rd.lastByte = c.mem + c.im.b.size(); for (int i = 0; i < NC; i++) { auto h = fiftyoneDegreesCollectionHeaderFromMemory(&rd, c.im.c[(size_t)i].elem, false); c.c[i] = fiftyoneDegreesCollectionCreateFromMemory(&rd, h); if (!c.c[i]) return false; } return true; }
	Ex e; if (fiftyoneDegreesFilePoolInit(&c.pool, PATH, (uint16_t)C->p->get("pool"), e.p) != FIFTYONE_DEGREES_STATUS_SUCCESS) return false;
	FILE *f = nullptr; if (fiftyoneDegreesFileOpen(PATH, &f) != FIFTYONE_DEGREES_STATUS_SUCCESS) return false; bool ok = true;
	for (int i = 0; i < NC && ok; i++) { auto h = fiftyoneDegreesCollectionHeaderFromFile(f, c.im.c[(size_t)i].elem, false); c.c[i] = fiftyoneDegreesCollectionCreateFromFile(f, &c.pool, &c.cfg[i], h, i == S ? fiftyoneDegreesStringRead : i == PR ? fiftyoneDegreesProfileReadFromFile : i == CO ? fiftyoneDegreesComponentReadFromFile : fiftyoneDegreesCollectionReadFileFixed); ok = c.c[i]; eventf("%s, %s, elements of %u, %u bytes in %u items from %u: %s", collName[i], kindName(c.kind[i]), c.im.c[(size_t)i].elem, h.length, h.count, h.startPosition, ok ? "created" : "not created"); }
	sim_fclose(f); return ok;
}
void run(const Plan &p) {
	static Ctx c; C = &c; c.p = &p; c.T = (int)p.th.size() - 1; c.allMem = p.get("all_mem"); Rng r((uint64_t)p.get("img")); build(c, r);
	char k[32]; for (int i = 0; i < NC; i++) { auto g = [&](const char *f) { snprintf(k, sizeof k, "%s%d", f, i); return p.get(k); }; c.kind[i] = c.allMem ? MEM : (int)g("kind"); uint32_t n = c.im.c[(size_t)i].n; bool ca = c.kind[i] == CACHED || c.kind[i] == PART_CACHE; int need = i == CO ? (int)c.comps.size() + 1 : 3; // items one thread may hold at once, plus one
		c.cfg[i].loaded = c.kind[i] == LOADED ? n : c.kind[i] == PART_CACHE || c.kind[i] == PART_FILE ? (n < 2 ? 1 : 1 + (uint32_t)g("loaded") % (n - 1)) : 0; c.cfg[i].concurrency = ca ? (uint16_t)g("conc") : 1; c.cfg[i].capacity = ca ? (uint32_t)(std::max(need * c.T, (int)g("conc")) + (int)g("extra")) * c.cfg[i].concurrency : 0; }
	for (int i = 0; i < NC; i++) if (!c.im.c[(size_t)i].n && !c.allMem) c.kind[i] = STREAM;
	fs::put(PATH, c.im.b); if (c.allMem) c.mem = (uint8_t *)heapData(c.im.b.data(), c.im.b.size());
	uint64_t mark = heapMark(); faultsOff(); SIM_CHECK(createAll(c), "spurious-failure", "the collections could not be created"); faultsOn();
	auto body = [&](int t) {
		Held held; fresh(held.it);
		auto drop = [&] { if (held.coll >= 0) { NOP; heapCheck(held.it.data.ptr, held.n, false, "held item"); SIM_CHECK(!memcmp(held.it.data.ptr, held.want, held.n), "changed", "a held item of the %s changed", collName[held.coll]); } if (held.coll >= 0) { rel(held.coll, held.it); held.coll = -1; } };
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); Ex e; uint64_t f0 = faultsFiredBy(tid()); auto faulted = [&] { return faultsFiredBy(tid()) != f0; }; fiftyoneDegreesCollectionItem it; fresh(it);
			auto failed = [&](const char *what) { SIM_CHECK(faulted(), "spurious-failure", "%s failed with %d although nothing was wrong", what, e.st()); probe("query_failed"); };
			auto none = [&](const void *x, const char *what) { SIM_CHECK(!x, "both", "%s gave a result and the error %d", what, e.st()); };
			size_t np = c.props.size(), nf = c.profs.size(); const char *what = opn(op.code);
			uint32_t id = nf && op.b % 4 ? c.profs[(size_t)op.a % nf].id : op.b % 8 == 4 ? 0xFFFFFFFFu : op.b % 8 == 0 ? 0 : (uint32_t)op.a; int fi = -1; for (size_t i = 0; i < nf; i++) if (c.profs[i].id == id) fi = (int)i;
			// a value name: one of the property's, or of another, or one that does not exist
			auto vname = [&](size_t pi) -> std::string { auto &q = c.props[pi]; if (q.first != 0xFFFFFFFF && op.c % 3) return c.vals[q.first + (size_t)op.d % (q.last - q.first + 1)].text; if (c.vals.size() && op.c % 2) { auto &o = c.vals[(size_t)op.d % c.vals.size()]; if (q.form != FIFTYONE_DEGREES_STRING_IP_ADDRESS || c.props[(size_t)o.prop].form == q.form) return o.text; } return op.d % 3 == 0 ? "" : op.d % 3 == 1 ? "zzzzzzz" : "m"; };
			auto vindex = [&](size_t pi, std::string n) { auto &q = c.props[pi]; if (q.form) { auto f = c.forms.find(n); if (f == c.forms.end()) return -1l; n = f->second; probe(q.form == FIFTYONE_DEGREES_STRING_IP_ADDRESS ? "ip_value" : "coordinate_value"); } if (q.first != 0xFFFFFFFF) for (uint32_t i = q.first; i <= q.last; i++) if (c.vals[i].name == n) return (long)i; return -1l; };
			auto getProp = [&](size_t pi, fiftyoneDegreesCollectionItem &x) { fresh(x); fiftyoneDegreesProperty *q = fiftyoneDegreesPropertyGet(c.c[P], (uint32_t)pi, &x, e.p); if (!q) { SIM_CHECK(!e.ok(), "unreported", "getting a property gave nothing and no error"); failed("getting a property"); } else { SIM_CHECK(e.ok(), "both", "property and error"); same(P, (uint32_t)pi, q, "property"); } return q; };
			switch (op.code) {
			case BYID: {
				fiftyoneDegreesProfile *f = fiftyoneDegreesProfileGetByProfileId(c.c[PO], c.c[PR], id, &it, e.p);
				if (!e.ok()) { none(f, what); if (id == 0) SIM_CHECK(e.st() == FIFTYONE_DEGREES_STATUS_PROFILE_EMPTY, "wrong-answer", "the empty profile id gave %d", e.st()); else failed(what); }
				else { SIM_CHECK(id != 0, "unreported", "the empty profile id gave no error"); SIM_CHECK(!!f == (fi >= 0), faulted() ? "unreported" : "wrong-answer", "profile %u, which %s, was %s", id, fi >= 0 ? "exists" : "does not exist", f ? "found" : "not found"); if (f) { same(PR, varIndex(PR, c.profs[(size_t)fi].off), f, what); rel(PR, it); probe("profile_found"); } }
				break; }
			case OFFSET: {
				uint32_t o = 0xdeadbeef, *q = fiftyoneDegreesProfileGetOffsetForProfileId(c.c[PO], id, &o, e.p);
				if (!e.ok()) { none(q, what); if (id) failed(what); }
				else { SIM_CHECK(id != 0, "unreported", "the empty profile id gave no error"); SIM_CHECK(!!q == (fi >= 0), faulted() ? "unreported" : "wrong-answer", "the offset of profile %u, which %s, was %s", id, fi >= 0 ? "exists" : "does not exist", q ? "found" : "not found"); if (q) SIM_CHECK(q == &o && o == c.profs[(size_t)fi].off, "wrong-answer", "the offset of profile %u is %u instead of %u", id, o, c.profs[(size_t)fi].off); }
				break; }
			case BYINDEX: {
				uint32_t i = op.b % 5 == 0 ? (uint32_t)nf + (uint32_t)op.a % 3 : nf ? (uint32_t)((size_t)op.a % nf) : 0; fiftyoneDegreesProfile *f = fiftyoneDegreesProfileGetByIndex(c.c[PO], c.c[PR], i, &it, e.p);
				if (!e.ok()) { none(f, what); if (i < nf) failed(what); } else { SIM_CHECK(f && i < nf, faulted() ? "unreported" : "wrong-answer", "profile %u of %zu was %s", i, nf, f ? "found" : "not found"); same(PR, varIndex(PR, c.profs[i].off), f, what); rel(PR, it); }
				break; }
			case PROP: {
				size_t pi = np ? (size_t)op.a % np : 0; std::string n = np && op.b % 4 ? c.props[pi].name : "No such property"; int want = -1; for (size_t i = 0; i < np; i++) if (c.props[i].name == n) want = (int)i;
				fiftyoneDegreesProperty *q = fiftyoneDegreesPropertyGetByName(c.c[P], c.c[S], n.c_str(), &it, e.p);
				if (!e.ok()) { none(q, what); failed(what); } else { SIM_CHECK(!!q == (want >= 0), faulted() ? "unreported" : "wrong-answer", "property %s, which %s, was %s", n.c_str(), want >= 0 ? "exists" : "does not exist", q ? "found" : "not found"); if (q) { same(P, (uint32_t)want, q, what); rel(P, it); probe("property_found"); } }
				break; }
			case VINDEX: case VALUE: if (np) {
				size_t pi = (size_t)op.a % np; std::string n = vname(pi); long want = vindex(pi, n); fiftyoneDegreesCollectionItem x; fiftyoneDegreesProperty *q = getProp(pi, x); if (!q) break;
				if (op.code == VINDEX) {
					long i = fiftyoneDegreesValueGetIndexByName(c.c[V], c.c[S], q, n.c_str(), e.p);
					if (!e.ok()) failed(what); else { SIM_CHECK(i == want, faulted() ? "unreported" : "wrong-answer", "value \"%s\" of property %zu has index %ld instead of %ld", n.c_str(), pi, i, want); probe(i >= 0 ? "value_found" : "value_absent"); }
				} else {
					fiftyoneDegreesValue *v = fiftyoneDegreesValueGetByName(c.c[V], c.c[S], q, n.c_str(), &it, e.p);
					if (!e.ok()) { none(v, what); failed(what); } else { SIM_CHECK(!!v == (want >= 0), faulted() ? "unreported" : "wrong-answer", "value \"%s\" of property %zu, which %s, was %s", n.c_str(), pi, want >= 0 ? "exists" : "does not exist", v ? "found" : "not found"); if (v) { same(V, (uint32_t)want, v, what); rel(V, it); } }
				}
				rel(P, x); } break;
			case ITERV: if (np && nf) {
				size_t pi = (size_t)op.a % np, fx = (size_t)op.b % nf; fiftyoneDegreesCollectionItem x, y; fiftyoneDegreesProperty *q = getProp(pi, x); if (!q) break; fresh(y);
				fiftyoneDegreesProfile *f = fiftyoneDegreesProfileGetByIndex(c.c[PO], c.c[PR], (uint32_t)fx, &y, e.p); if (!f) { SIM_CHECK(!e.ok(), "unreported", "no profile and no error"); failed("getting a profile"); rel(P, x); break; }
				std::vector<uint32_t> want; for (auto v : c.profs[fx].vals) if (c.props[pi].first != 0xFFFFFFFF && v >= c.props[pi].first && v <= c.props[pi].last) want.push_back(v);
				It s; s.stopAfter = op.c % 4 == 0 ? 1 + (int)op.d % 3 : p.get("big") ? 1000000 : 1000; s.coll = V; s.release = true; s.want = &want; size_t expect = std::min(want.size(), (size_t)s.stopAfter);
				uint32_t n = fiftyoneDegreesProfileIterateValuesForProperty(c.c[V], f, q, &s, onItem, e.p); SIM_CHECK(n == s.seen.size(), "wrong-answer", "%u values reported, %zu passed to the callback", n, s.seen.size());
				if (!e.ok()) failed(what); else SIM_CHECK(n == expect, faulted() ? "unreported" : "wrong-answer", "%u of the %zu values of the profile for the property were iterated", n, expect); if (n) probe("values_iterated"); rel(PR, y); rel(P, x); } break;
			case ITERP: {
				size_t pi = np ? (size_t)op.a % np : 0; bool none_ = !np || op.b % 8 == 0; std::string pn = none_ ? "absent" : c.props[pi].name, vn = none_ ? "x" : vname(pi); long vi = none_ ? -1 : vindex(pi, vn); if (vn.empty()) vn = "x", vi = none_ ? -1 : vindex(pi, vn); std::vector<uint32_t> want; size_t count = 0;
				if (vi >= 0) for (auto &f : c.profs) if (std::find(f.vals.begin(), f.vals.end(), (uint32_t)vi) != f.vals.end()) { want.push_back(varIndex(PR, f.off)); count++; }
				It s; s.stopAfter = op.c % 4 == 0 ? 1 + (int)op.d % 3 : p.get("big") ? 1000000 : 1000; s.coll = PR; s.release = false; s.want = &want; size_t expect = std::min(count, (size_t)s.stopAfter);
				uint32_t n = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(c.c[S], c.c[P], c.c[V], c.c[PR], c.c[PO], pn.c_str(), vn.c_str(), &s, onItem, e.p); SIM_CHECK(n == s.seen.size(), "wrong-answer", "%u profiles reported, %zu passed to the callback", n, s.seen.size());
				if (!e.ok()) failed(what); else SIM_CHECK(n == expect, faulted() ? "unreported" : "wrong-answer", "%u of the %zu profiles with the value were iterated", n, expect); if (n) probe("profiles_iterated"); break; }
			case COMPS: {
				fiftyoneDegreesList l; memset(&l, 0xA5, sizeof l); fiftyoneDegreesListReset(&l); uint32_t want = (uint32_t)c.comps.size(); if (!want) break; fiftyoneDegreesComponentInitList(c.c[CO], &l, want, e.p);
				if (!e.ok()) failed(what); else {
					SIM_CHECK(l.count == want, faulted() ? "unreported" : "wrong-answer", "%u of %u components are in the list", l.count, want);
					for (uint32_t i = 0; i < want; i++) { auto *m = (fiftyoneDegreesComponent *)fiftyoneDegreesListGetAsString(&l, (int)i); same(CO, i, m, "component in the list");
						if (op.a % 2) { Ex e2; uint64_t f1 = faultsFiredBy(tid()); fresh(it); auto *s = fiftyoneDegreesComponentGetName(c.c[S], m, &it, e2.p); if (s) { SIM_CHECK(e2.ok(), "both", "name and error"); sameStr(s, c.comps[i].name, "component name"); rel(S, it); } else SIM_CHECK(!e2.ok() && faultsFiredBy(tid()) != f1, "spurious-failure", "no component name"); }
						if (op.a % 3 && c.comps[i].def >= 0) { Ex e2; uint64_t f1 = faultsFiredBy(tid()); uint32_t d = fiftyoneDegreesComponentGetDefaultProfileId(c.c[PR], m, e2.p); if (e2.ok()) SIM_CHECK(d == c.profs[(size_t)c.comps[i].def].id, faultsFiredBy(tid()) != f1 ? "unreported" : "wrong-answer", "default profile %u instead of %u", d, c.profs[(size_t)c.comps[i].def].id); else SIM_CHECK(faultsFiredBy(tid()) != f1, "spurious-failure", "no default profile"); }
						for (size_t j = 0; j <= c.comps[i].kv.size(); j++) { Ex e2; auto *kv = fiftyoneDegreesComponentGetKeyValuePair(m, (uint16_t)j, e2.p); if (j < c.comps[i].kv.size()) { SIM_CHECK(kv && e2.ok(), "wrong-answer", "pair %zu of %zu refused", j, c.comps[i].kv.size()); heapCheck(kv, 8, false, "key value pair"); SIM_CHECK(kv->key == c.comps[i].kv[j].first && kv->value == c.comps[i].kv[j].second, "wrong-answer", "key value pair %zu differs", j); } else SIM_CHECK(!kv && !e2.ok(), "beyond-end", "key value pair %zu of %zu was given", j, c.comps[i].kv.size()); } }
					probe("components_listed");
				}
				fiftyoneDegreesListFree(&l); break; }
			case STRS: if (np) {
				size_t pi = (size_t)op.a % np; fiftyoneDegreesCollectionItem x; fiftyoneDegreesProperty *q = getProp(pi, x); if (!q) break; MProp &m = c.props[pi]; fiftyoneDegreesString *s; const std::string *w;
				switch (op.b % 4) { case 0: s = fiftyoneDegreesPropertyGetName(c.c[S], q, &it, e.p); w = &m.name; break; case 1: s = fiftyoneDegreesPropertyGetDescription(c.c[S], q, &it, e.p); w = &m.desc; break; case 2: s = fiftyoneDegreesPropertyGetCategory(c.c[S], q, &it, e.p); w = &m.cat; break; default: s = fiftyoneDegreesPropertyGetUrl(c.c[S], q, &it, e.p); w = &m.url; }
				if (s) { SIM_CHECK(e.ok(), "both", "string and error"); sameStr(s, *w, "string of a property"); rel(S, it); } else { SIM_CHECK(!e.ok(), "unreported", "no string and no error"); failed("getting a string"); }
				rel(P, x); Ex e3; uint64_t f3 = faultsFiredBy(tid()); uint8_t ty = fiftyoneDegreesPropertyGetValueType(c.c[P], (uint32_t)pi, e3.p); if (e3.ok()) SIM_CHECK(ty == m.type, faultsFiredBy(tid()) != f3 ? "unreported" : "wrong-answer", "value type %d instead of %d", ty, m.type); else SIM_CHECK(faultsFiredBy(tid()) != f3, "spurious-failure", "value type refused with %d", e3.st());
				if (c.vals.size()) { size_t vi = (size_t)op.c % c.vals.size(); Ex e2; uint64_t f1 = faultsFiredBy(tid()); fresh(x); auto *v = fiftyoneDegreesValueGet(c.c[V], (uint32_t)vi, &x, e2.p); if (!v) { SIM_CHECK(!e2.ok() && faultsFiredBy(tid()) != f1, "spurious-failure", "no value (%d)", e2.st()); break; } MVal &mv = c.vals[vi]; fresh(it); Ex e4; uint64_t f2 = faultsFiredBy(tid());
					switch (op.d % 3) { case 0: s = fiftyoneDegreesValueGetName(c.c[S], v, &it, e4.p); w = &mv.name; break; case 1: s = fiftyoneDegreesValueGetDescription(c.c[S], v, &it, e4.p); w = &mv.desc; break; default: s = fiftyoneDegreesValueGetUrl(c.c[S], v, &it, e4.p); w = &mv.url; }
					if (s) { SIM_CHECK(e4.ok(), "both", "string and error"); sameStr(s, *w, "string of a value"); rel(S, it); } else SIM_CHECK(!e4.ok() && faultsFiredBy(tid()) != f2, "spurious-failure", "no string (%d)", e4.st()); rel(V, x); } } break;
			case HOLD: if (held.coll < 0) { int ci = (int)(op.a % CO); Coll &co = c.im.c[(size_t)ci]; if (!co.n) break; uint32_t i = (uint32_t)op.b % co.n; fresh(held.it); void *q = c.c[ci]->get(c.c[ci], co.fixed ? i : co.off[i], &held.it, e.p); if (q) { held.coll = ci; held.key = i; held.n = co.size[i]; held.want = bytesOf(ci, i); } else failed("getting an item"); } break;
			case DROP: drop(); break;
			}
			eventf("%s: exception %d%s", what, e.st(), faulted() ? " (faulted)" : ""); state(mix((uint64_t)op.code, mix((uint64_t)e.st(), mix((uint64_t)op.a, (uint64_t)op.b)))); opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e); drop();
	};
	for (int t = 1; t <= c.T; t++) spawn([&, t] { body(t); });
	joinAll(); faultsOff(); Op fo; fo.id = 9500; opBegin(fo);
	for (int ci = 0; ci < NC; ci++) { // all the room of each cache is free again
		Coll &co = c.im.c[(size_t)ci]; std::vector<fiftyoneDegreesCollectionItem> hs; hs.reserve(co.n); std::map<uint32_t, uint32_t> per; bool ca = c.kind[ci] == CACHED || c.kind[ci] == PART_CACHE; uint32_t lim = ca ? c.cfg[ci].capacity / c.cfg[ci].concurrency : 0;
		for (uint32_t i = co.n; i-- > 0;) { if (p.get("big") && i % 257 && co.n > 2000 && i + 3 < co.n) continue; uint32_t key = co.fixed ? i : co.off[i]; if (ca && per[key % c.cfg[ci].concurrency]++ >= lim) continue; fiftyoneDegreesCollectionItem it; fresh(it); Ex e; void *q = c.c[ci]->get(c.c[ci], key, &it, e.p); SIM_CHECK(q && e.ok(), "not-released", "only %zu items of the %s (%s) can be held at the end: an item was not released (exception %d)", hs.size(), collName[ci], kindName(c.kind[ci]), e.st()); same(ci, i, q, "final get"); hs.push_back(it); }
		for (auto &h : hs) rel(ci, h);
	}
	for (int i = 0; i < NC; i++) c.c[i]->freeCollection(c.c[i]);
	if (!c.allMem) { Ex e; std::vector<fiftyoneDegreesFileHandle *> hs; int n = (int)p.get("pool"); for (int i = 0; i < n; i++) { auto h = fiftyoneDegreesFileHandleGet(&c.pool, e.p); SIM_CHECK(h && e.ok(), "handle-leak", "only %d of %d file handles were given back", i, n); hs.push_back(h); } for (auto h : hs) fiftyoneDegreesFileHandleRelease(h); fiftyoneDegreesFilePoolRelease(&c.pool); }
	SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open at the end", fs::openCount()); leakCheck(mark, "after everything was freed");
}
void genQ(Plan &p, Rng &r, bool fault) {
	int T = r.chance(1, 2) ? 1 : (int)r.range(2, 3); bool mem = r.chance(1, 8); p.set("img", (int64_t)r.below(1u << 30)); p.set("all_mem", mem); p.set("props", r.chance(1, 12) ? 0 : r.range(1, 5)); p.set("profs", r.chance(1, 10) ? 0 : r.range(1, r.chance(1, 5) ? 25 : 7)); p.set("comps", r.range(1, 4)); p.set("pool", T + (int)r.below(2)); char k[32];
	int all = r.chance(1, 2) ? (int)r.range(LOADED, STREAM) : -1; for (int i = 0; i < NC; i++) { auto s = [&](const char *f, int64_t v) { snprintf(k, sizeof k, "%s%d", f, i); p.set(k, v); }; s("kind", all >= 0 ? all : r.range(LOADED, STREAM)); s("loaded", (int64_t)r.below(100)); s("conc", r.pick({1, 1, 1, 2, 3})); s("extra", r.pick({0, 0, 0, 3})); }
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = (int)r.range(2, T == 1 ? 14 : 8); for (int i = 0; i < n; i++) p.add(t, r.pick({BYID, BYID, BYINDEX, OFFSET, PROP, PROP, VINDEX, VINDEX, VALUE, ITERV, ITERV, ITERP, ITERP, ITERP, COMPS, STRS, HOLD, DROP}), (int64_t)r.below(1000), (int64_t)r.below(1000), (int64_t)r.below(1000), (int64_t)r.below(1000)); }
	if (fault) { if (r.chance(1, 2)) p.set(r.pick({"fn_seek", "fn_read_eio", "fn_read_eio", "fn_early_eof", "fn_malloc"}), r.range(1, 40)); else for (FaultKind f : {FK_SEEK, FK_READ_EIO, FK_EARLY_EOF, FK_MALLOC}) if (r.chance(1, 2)) p.enable(f, r.pick({30, 150, 600})); if (p.get("no_oom")) { p.set("fn_malloc", 0); p.set("f_malloc", 0); } if (r.chance(1, 3)) p.set("bufsz", r.pick({1, 7, 16, 64})); if (r.chance(1, 3)) p.set("f_read_short", 2000); p.set("f_max", 2000); }
	p.set("step_cap", 10000000);
	if (!fault && r.chance(1, 200)) { // more than 16 bits can count
		p.set("big", r.range(1, 4)); p.set("step_cap", 2000000000); p.th.resize(2); p.set("profs", r.range(1, 3)); p.set("comps", p.get("big") == 4 ? r.range(1, 4) : 1); p.set("props", p.get("big") == 2 ? r.pick({130, 260, 300}) : r.range(1, 3)); p.set("pool", 1 + (int)r.below(2)); p.th[1].clear(); int n = (int)r.range(2, 4);
		for (int i = 0; i < n; i++) p.add(1, p.get("big") == 4 && i % 2 == 0 ? COMPS : r.pick({BYID, BYINDEX, OFFSET, PROP, VINDEX, VINDEX, VALUE, VALUE, ITERV, ITERP, STRS, HOLD, DROP}), (int64_t)r.below(1u << 30), (int64_t)r.below(1u << 30), (int64_t)r.below(1u << 30), (int64_t)r.below(1u << 30));
	}
}
void gen(Plan &p, Rng &r) { genQ(p, r, false); }
void genF(Plan &p, Rng &r) { genQ(p, r, true); oomOnly(p, r, 60); }
SIM_SCENARIO(query, gen, run, opn);
SIM_SCENARIO(query_fault, genF, run, opn);
}
