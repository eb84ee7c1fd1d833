// Requests of several threads over shared headers, properties and overridable properties (C26).
#include "names.h"
namespace {
enum { REQ = 1, LOOK, FRESH };
const char *opn(int c) { static const char *n[] = {"", "request", "look up shared data", "new storage"}; return n[c]; }
typedef fiftyoneDegreesEvidenceKeyValuePairArray Ev;
const fiftyoneDegreesEvidencePrefix PF[] = {FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_SERVER};
struct Pair { fiftyoneDegreesEvidencePrefix p; std::string f, v; char *hf, *hv; };
struct Ctx {
	Names hn, pn; fiftyoneDegreesHeaders *h; std::vector<HM> hm; bool upper, pre; fiftyoneDegreesPropertiesAvailable *av; std::vector<uint32_t> m; fiftyoneDegreesOverridePropertyArray *op; uint32_t only; size_t buf; uint32_t ovCap;
	std::vector<int> pseudo; // headers that are pseudo headers
} *C;
struct Store { Ev *ps = nullptr; fiftyoneDegreesOverrideValueArray *ov = nullptr; }; // kept by a thread from request to request
bool failed(const void *q, uint64_t f0, const char *what) { if (!q) SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "%s failed although nothing was wrong", what); return !q; }
void drop(Store &s) { if (s.ps) { for (uint32_t i = 0; i < s.ps->capacity; i++) fiftyoneDegreesFree((void *)s.ps->items[i].originalValue); fiftyoneDegreesEvidenceFree(s.ps); } fiftyoneDegreesOverrideValuesFree(s.ov); s = Store(); }
bool make(Store &s) {
	uint64_t f0 = faultsFiredBy(tid()); uint32_t n = C->h->pseudoHeadersCount; s.ps = fiftyoneDegreesEvidenceCreate(n); if (failed(s.ps, f0, "EvidenceCreate")) return false;
	for (uint32_t i = 0; i < n; i++) { s.ps->items[i].originalValue = fiftyoneDegreesMalloc(C->buf); if (!s.ps->items[i].originalValue) { drop(s); return false; } memset((void *)s.ps->items[i].originalValue, 0, C->buf); }
	s.ov = fiftyoneDegreesOverrideValuesCreate(C->ovCap); if (failed(s.ov, f0, "OverrideValuesCreate")) { drop(s); return false; } return true;
}
bool same(const char *a, const std::string &b) { return ci(a, b); }
// the pseudo evidence documented for the pairs: for each pseudo header that was not given, the values of its segments from the first prefix that has all of them
struct PE { int h; fiftyoneDegreesEvidencePrefix p; std::string v; };
std::vector<PE> pseudoModel(const std::vector<Pair> &e, const std::vector<fiftyoneDegreesEvidencePrefix> &order) {
	std::vector<PE> o; for (int x : C->pseudo) {
		auto &name = C->hm[(size_t)x].s; bool given = false; for (auto &q : e) for (auto p : order) given |= q.p == p && ci(q.f, name); if (given) continue;
		for (auto p : order) { std::string v; bool all = true, first = true; for (auto &sg : split(name, '\x1F')) { const Pair *hit = nullptr; for (auto &q : e) if (!hit && q.p == p && ci(q.f, sg)) hit = &q; if (!hit) { all = false; break; } if (!first) v += '\x1F'; v += hit->v; first = false; } if (all && v.size()) { if (v.size() >= C->buf) { v.resize(C->buf - 1); probe("pseudo_truncated"); } o.push_back({x, p, v}); break; } }
	}
	return o;
}
struct It { std::vector<fiftyoneDegreesEvidenceKeyValuePair *> got; size_t stop; };
bool visit(void *s, fiftyoneDegreesEvidenceKeyValuePair *p) { It *i = (It *)s; SIM_CHECK(p->parsedValue == p->originalValue, "wrong-result", "evidence '%s' was not parsed", p->field); i->got.push_back(p); return i->got.size() != i->stop; }
void overrideId(void *s, uint32_t id) { ((std::vector<uint32_t> *)s)->push_back(id); }
std::vector<Pair> pairs(Rng &r) {
	std::vector<Pair> o; int n = (int)r.below(9); std::set<std::string> segs; auto val = [&] { std::string v; size_t z = r.chance(1, 3) ? r.below(C->buf + 4) : r.below(6); for (size_t i = 0; i < z; i++) v += (char)r.range(32, r.chance(1, 20) ? 255 : 126); return v; };
	std::vector<fiftyoneDegreesEvidencePrefix> main{r.pick({PF[0], PF[1]}), r.pick({PF[0], PF[1], PF[2]})};
	if (C->pseudo.size() && r.chance(2, 3)) { auto &name = C->hm[(size_t)C->pseudo[r.below(C->pseudo.size())]].s; auto sg = split(name, '\x1F'); for (int k = 0, c = (int)r.range(1, 2); k < c; k++) { auto p = main[r.below(2)]; for (auto &s : sg) if (!r.chance(1, 8)) o.push_back({p, vary(r, s), val(), nullptr, nullptr}); } if (r.chance(1, 6)) o.push_back({r.pick({PF[0], PF[1], PF[2], PF[3]}), vary(r, name), val(), nullptr, nullptr}); }
	for (int i = 0; i < n; i++) { Pair q{PF[r.below(4)], "", val(), nullptr, nullptr}; switch (r.below(5)) {
		case 0: if (C->hm.size()) { q.f = vary(r, C->hm[r.below(C->hm.size())].s); if (C->upper && r.chance(1, 2)) q.f = "HTTP_" + q.f; break; } /* fall through */
		case 1: q.f = r.pick({"Other", "x", "HTTP_", "HTTP_A", "51D_", ""}); break;
		case 2: { q.f = std::string(r.chance(1, 2) ? "51D_" : "") + vary(r, "ProfileIds"); q.v.clear(); int k = (int)r.below(5); for (int j = 0; j < k; j++) { if (r.chance(1, 8)) q.v += r.pick({"x", "-", "|", "\xe9", "-1-"}); q.v += std::to_string(r.below(r.pick({10, 1000, 2000000000}))); q.v += r.pick({"-", "|", " ", "-"}); } if (q.v.size() && r.chance(1, 2)) q.v.pop_back(); break; }
		default: { auto &nm = C->pn.n[C->m[r.below(C->m.size())]]; q.f = std::string(r.chance(1, 2) ? "51D_" : "") + vary(r, nm); } }
		o.push_back(q); }
	for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.below(i)]);
	return o;
}
// an address in a request's evidence, complete or cut short, means the same whatever requests came before
void address(Rng &r) {
	uint64_t f0 = faultsFiredBy(tid()); bool v6 = r.chance(1, 3); int n = r.chance(1, 2) ? (v6 ? 8 : 4) : (int)r.range(2, v6 ? 8 : 4); std::string s; uint8_t b[16] = {0}; char t[16];
	for (int i = 0; i < n; i++) { int x = (int)r.below(v6 ? 0x10000 : 256); if (i) s += v6 ? ':' : '.'; snprintf(t, sizeof t, v6 ? "%x" : "%d", x); s += t; if (v6) { b[2 * i] = (uint8_t)(x >> 8); b[2 * i + 1] = (uint8_t)x; } else b[i] = (uint8_t)x; }
	char *h; { NOP; h = (char *)heapData(s.c_str(), s.size() + 1); } auto a = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, h, h + s.size()); { NOP; heapFree(h); } if (failed(a, f0, "IpParseAddress")) { probe("no_address"); return; }
	size_t z = v6 ? 16 : 4; heapCheck(a->address, z, false, "address"); SIM_CHECK(a->type == (v6 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) && !memcmp(a->address, b, z), "wrong-result", "'%s' is parsed to other bytes", s.c_str());
	uint8_t o[16]; size_t eq = r.below(z + 1); for (size_t i = 0; i < 16; i++) o[i] = i < eq ? b[i] : (uint8_t)r.below(256); uint8_t *ho; { NOP; ho = (uint8_t *)heapData(o, z); } int w = memcmp(b, o, z), g = fiftyoneDegreesCompareIpAddresses(a->address, ho, a->type); SIM_CHECK((w < 0) == (g < 0) && (w > 0) == (g > 0), "wrong-result", "'%s' compared to an address with %zu equal bytes gives %d", s.c_str(), eq, g); { NOP; heapFree(ho); }
	fiftyoneDegreesFree(a); probe("addresses");
}
void lookups(Rng &r) {
	if (r.chance(1, 2)) address(r);
	if (r.chance(1, 2)) checkHeaders(C->h, C->hm, C->upper, r); if (r.chance(1, 2)) checkAvailable(C->av, C->pn, C->m, r);
	int i = (int)r.below(C->m.size()); auto &nm = C->pn.n[C->m[(size_t)i]]; int want = -1; for (size_t k = 0; k < C->m.size() && want < 0; k++) { auto &o = C->pn.n[C->m[k]]; if ((int)k != i && o.size() > nm.size() && !o.compare(0, nm.size(), nm)) want = (int)k; }
	SIM_CHECK(fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex(C->av, (uint32_t)i) == want, "wrong-result", "'%s' is overridden by another property than %d", nm.c_str(), want);
	static const char *pre[] = {"header.", "query.", "cookie.", "server."}; int k = (int)r.below(4); std::string key = pre[k]; bool known = !r.chance(1, 4); if (known) key += "abc"; else if (r.chance(1, 2)) key[0] = 'X'; auto mp = fiftyoneDegreesEvidenceMapPrefix(key.c_str()); static const int en[] = {0, 1, 2, 3};
	SIM_CHECK(known ? mp && mp->prefixEnum == PF[en[k]] && mp->prefixLength == strlen(pre[k]) : !mp, "wrong-result", "the prefix of '%s' is %s", key.c_str(), mp ? mp->prefix : "unknown"); SIM_CHECK(!strcmp(fiftyoneDegreesEvidencePrefixString(PF[en[k]]), pre[k]), "wrong-result", "the text of prefix %d differs", k);
}
void request(Store &s, Rng r) {
	uint64_t f0 = faultsFiredBy(tid()); if (!s.ps && !make(s)) { probe("no_storage"); return; }
	std::vector<Pair> e = pairs(r); uint32_t cap = (uint32_t)e.size() - (e.size() && r.chance(1, 10) ? 1 : 0); Ev *ev = fiftyoneDegreesEvidenceCreate(cap); if (failed(ev, f0, "EvidenceCreate")) { probe("no_evidence"); return; }
	for (size_t i = 0; i < e.size(); i++) { auto &q = e[i]; { NOP; q.hf = (char *)heapData(q.f.c_str(), q.f.size() + 1); q.hv = (char *)heapData(q.v.c_str(), q.v.size() + 1); } auto a = fiftyoneDegreesEvidenceAddString(ev, q.p, q.hf, q.hv); SIM_CHECK(!!a == (i < cap), "wrong-result", "pair %zu of %u added: %d", i, cap, !!a); }
	auto full = e; e.resize(cap); ev->pseudoEvidence = s.ps;
	// pseudo evidence from this request's values
	std::vector<fiftyoneDegreesEvidencePrefix> order; int on = (int)r.range(1, 3); for (int i = 0; i < on; i++) { auto p = PF[r.below(3)]; if (std::find(order.begin(), order.end(), p) == order.end()) order.push_back(p); }
	std::vector<PE> pm; bool did = r.chance(5, 6); if (did) { Ex x; auto ho = (fiftyoneDegreesEvidencePrefix *)heapData(order.data(), order.size() * sizeof order[0]); fiftyoneDegreesPseudoHeadersAddEvidence(ev, C->h, C->buf, ho, order.size(), x.p); { NOP; heapFree(ho); } pm = pseudoModel(e, order); SIM_CHECK(x.ok(), "spurious-failure", "adding pseudo evidence failed with exception %d", x.st()); }
	SIM_CHECK(s.ps->count == pm.size(), "wrong-result", "%u pieces of pseudo evidence instead of %zu", s.ps->count, pm.size());
	for (size_t i = 0; i < pm.size(); i++) { auto &q = s.ps->items[i]; auto &w = pm[i]; SIM_CHECK(q.field == C->h->items[w.h].name && q.prefix == w.p && w.v == (const char *)q.originalValue, "wrong-result", "pseudo evidence %zu is '%s' (%d) '%s' instead of '%s' (%d) '%s'", i, q.field, (int)q.prefix, (const char *)q.originalValue, C->hm[(size_t)w.h].s.c_str(), (int)w.p, w.v.c_str()); }
	if (pm.size()) probe("pseudo_evidence"); state(mix(e.size(), pm.size()));
	// iteration in order, by prefix, stopping when asked
	for (int t = 0; t < 2; t++) { int mask = 0; for (int i = 0; i < 4; i++) if (r.chance(1, 2)) mask |= PF[i]; It it; it.stop = r.chance(1, 3) ? (size_t)r.range(1, 4) : 0; std::vector<fiftyoneDegreesEvidenceKeyValuePair *> w; for (uint32_t i = 0; i < ev->count; i++) if (ev->items[i].prefix & mask) w.push_back(&ev->items[i]); for (uint32_t i = 0; i < s.ps->count; i++) if (s.ps->items[i].prefix & mask) w.push_back(&s.ps->items[i]); if (it.stop && w.size() > it.stop) w.resize(it.stop);
		uint32_t n = fiftyoneDegreesEvidenceIterate(ev, mask, &it, visit); SIM_CHECK(n == w.size() && it.got == w, "wrong-result", "%u pairs iterated and %zu seen instead of %zu", n, it.got.size(), w.size()); }
	for (uint32_t i = 0; i < ev->count; i++) { auto &q = ev->items[i]; SIM_CHECK(e[i].p == q.prefix && q.field == e[i].hf && q.originalValue == e[i].hv && e[i].v == e[i].hv && e[i].f == e[i].hf, "evidence-changed", "evidence %u was changed", i); std::string f = e[i].f; if (C->upper && f.size() > 6 && !strncasecmp(f.c_str(), "HTTP_", 5)) f = f.substr(5); int w = -1; for (size_t k = 0; k < C->hm.size() && w < 0; k++) if (ci(C->hm[k].s, f)) w = (int)k; SIM_CHECK(fiftyoneDegreesHeaderGetIndex(C->h, q.field, e[i].f.size()) == w && fiftyoneDegreesHeadersIsHttp(C->h, &q) == (w >= 0), "wrong-result", "'%s' is not found as header %d", q.field, w); }
	// overrides of this request
	{ uint64_t f1 = faultsFiredBy(tid()); uint32_t n = fiftyoneDegreesOverridesExtractFromEvidence(C->op, s.ov, ev); bool fl = faultsFiredBy(tid()) != f1; std::vector<std::pair<int, std::string>> m; uint32_t cnt = 0; bool more = true;
		auto one = [&](int p, const std::string &f, const std::string &v) { if (!more || !(p & (FIFTYONE_DEGREES_EVIDENCE_QUERY | FIFTYONE_DEGREES_EVIDENCE_COOKIE))) return; cnt++; std::string nm = f; if (C->pre && nm.size() > 4 && !strncasecmp(nm.c_str(), "51D_", 4)) nm = nm.substr(4); int ix = -1; for (size_t k = 0; k < C->m.size() && ix < 0; k++) if ((C->only >> k & 1) && ci(C->pn.n[C->m[k]], nm)) ix = (int)k; if (ix >= 0 && m.size() < C->ovCap) { bool hit = false; for (auto &x : m) if (x.first == ix) { x.second = v; hit = true; } if (!hit) m.push_back({ix, v}); } more = m.size() < C->ovCap; };
		if (C->op) { for (auto &q : e) one(q.p, q.f, q.v); for (auto &q : pm) one(q.p, C->hm[(size_t)q.h].s, q.v); }
		if (!fl) { SIM_CHECK(n == cnt, "wrong-result", "%u pieces of evidence extracted instead of %u", n, cnt); SIM_CHECK(s.ov->count == m.size(), "wrong-result", "%u overrides instead of %zu", s.ov->count, m.size()); } else probe("overrides_failed");
		for (int i = 0; i < (int)C->m.size(); i++) { fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); auto q = fiftyoneDegreesOverrideValuesGetFirst(s.ov, (uint32_t)i, &it); bool has = fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(s.ov, (uint32_t)i); SIM_CHECK(has == !!q, "wrong-result", "override of property %d: %d, value %d", i, has, !!q); const std::string *w = nullptr; for (auto &x : m) if (x.first == i) w = &x.second; bool any = false; if (q && fl) for (auto &x : e) any |= x.v == &q->value; /* an earlier value of the request when the later one found no memory */ SIM_CHECK(fl ? !q || any : !!q == !!w && (!w || *w == &q->value), "wrong-result", "property %d is overridden by '%s' instead of '%s'", i, q ? &q->value : "(nothing)", w ? w->c_str() : "(nothing)"); }
		if (m.size()) probe("overrides");
		if (!fl) { // the values as a list, however much room it has
			FaultMask fm(false); fiftyoneDegreesList l; uint32_t lc = (uint32_t)r.range(1, 2); fiftyoneDegreesListInit(&l, lc); uint32_t in = 0; for (int k = 0; k < 3; k++) { int ix = (int)r.below(C->m.size()); const std::string *w = nullptr; for (auto &x : m) if (x.first == ix) w = &x.second; uint32_t a = fiftyoneDegreesOverrideValuesAdd(s.ov, (uint32_t)ix, &l), want = w && in < lc; SIM_CHECK(a == want && l.count == in + want, "wrong-result", "%u overrides of property %d added to a list of %u with %u taken, which has %u", a, ix, lc, in, l.count); if (want) { auto q = fiftyoneDegreesListGetAsString(&l, (int)in++); SIM_CHECK(*w == &q->value && !l.items[in - 1].data.allocated, "wrong-result", "the list has the override '%s' instead of '%s'", &q->value, w->c_str()); } } fiftyoneDegreesListFree(&l);
			fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); SIM_CHECK(!fiftyoneDegreesOverridesExtractFromEvidence(C->op, nullptr, ev) && !fiftyoneDegreesOverrideValuesGetFirst(nullptr, 0, &it) && !fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(nullptr, 0) && !fiftyoneDegreesOverrideValuesAdd(nullptr, 0, &l), "wrong-result", "there are overrides without storage for them");
			for (auto &x : m) { auto q = fiftyoneDegreesOverrideValuesGetFirst(s.ov, (uint32_t)x.first, &it); SIM_CHECK(q && x.second == &q->value && it.data.ptr == (unsigned char *)q && !it.data.allocated && !it.data.used, "wrong-result", "an overridden value is handed out as the caller's own memory"); FIFTYONE_DEGREES_COLLECTION_RELEASE(it.collection, &it); }
		} }
	{ std::vector<uint32_t> got, w; for (auto &q : e) if (q.p & (FIFTYONE_DEGREES_EVIDENCE_QUERY | FIFTYONE_DEGREES_EVIDENCE_COOKIE)) { std::string nm = q.f; if (nm.size() > 5 && !strncasecmp(nm.c_str(), "51D_", 4)) nm = nm.substr(4); if (!ci(nm, "ProfileIds")) continue; std::string d; for (char c : q.v + "-") if (c >= '0' && c <= '9') d += c; else { if (d.size()) w.push_back((uint32_t)strtoul(d.c_str(), nullptr, 10)); d.clear(); } }
		fiftyoneDegreesOverrideProfileIds(ev, &got, overrideId); SIM_CHECK(got == w, "wrong-result", "%zu profile ids are overridden instead of %zu", got.size(), w.size()); if (w.size()) probe("profile_ids"); }
	{ Ex x; fiftyoneDegreesPseudoHeadersAddEvidence(r.chance(1, 2) ? nullptr : ev, nullptr, C->buf, order.data(), order.size(), x.p); SIM_CHECK(x.st() == FIFTYONE_DEGREES_STATUS_NULL_POINTER, "unreported", "pseudo evidence for nothing reported %d", x.st()); fiftyoneDegreesPseudoHeadersRemoveEvidence(nullptr, C->buf); }
	lookups(r);
	fiftyoneDegreesPseudoHeadersRemoveEvidence(ev, C->buf); SIM_CHECK(s.ps->count == 0, "wrong-result", "pseudo evidence is left after its removal"); fiftyoneDegreesOverrideValuesReset(s.ov); SIM_CHECK(s.ov->count == 0, "wrong-result", "overrides are left after a reset");
	fiftyoneDegreesEvidenceFree(ev); for (auto &q : full) { NOP; heapFree(q.hf); heapFree(q.hv); }
}
void run(const Plan &p) {
	Ctx c{}; C = &c; uint64_t mark = heapMark(); Rng r((uint64_t)p.get("img")); c.buf = (size_t)p.get("buf"); c.ovCap = (uint32_t)p.get("ovcap"); c.upper = p.get("upper"); c.pre = p.get("prefix"); c.only = (uint32_t)p.get("only");
	{ FaultMask fm(false); headerNames(r, c.hn); propertyNames(r, c.pn); makeNames(c.hn, false); makeNames(c.pn, false); bool nul, empty; Req q; do { q = Req(); c.m = requirement(r, c.pn, q, nul, empty); } while (empty || c.m.empty());
		c.h = fiftyoneDegreesHeadersCreate(c.upper, &c.hn, headerGet); c.av = fiftyoneDegreesPropertiesCreate(nul ? nullptr : &q.q, &c.pn, nameGet, evidenceGet); SIM_CHECK(c.h && c.av, "spurious-failure", "no shared data"); c.hm = headerModel(c.hn); checkHeaders(c.h, c.hm, c.upper, r); checkAvailable(c.av, c.pn, c.m, r); c.op = fiftyoneDegreesOverridePropertiesCreate(c.av, c.pre, &c.only, [](void *s, uint32_t i) { return (*(uint32_t *)s >> i & 1) != 0; });
		for (size_t i = 0; i < c.hm.size(); i++) if (split(c.hm[i].s, '\x1F').size() > 1) c.pseudo.push_back((int)i); }
	for (size_t t = 1; t < p.th.size(); t++) spawn([&, t] { Store s; for (auto &op : p.th[t]) { opBegin(op); if (op.code == FRESH) drop(s); else if (op.code == LOOK) { Rng q((uint64_t)op.a); lookups(q); } else request(s, Rng((uint64_t)op.a)); opEnd(); } Op e; e.id = 9000 + (int)t; opBegin(e); { FaultMask fm(false); request(s, Rng(7 + t)); } drop(s); });
	joinAll(); checkHeaders(c.h, c.hm, c.upper, r); checkAvailable(c.av, c.pn, c.m, r); fiftyoneDegreesOverridePropertiesFree(c.op); fiftyoneDegreesPropertiesFree(c.av); fiftyoneDegreesHeadersFree(c.h); SIM_CHECK(c.pn.f.out == 0 && c.hn.f.out == 0, "release", "names were not given back"); leakCheck(mark, "after all requests");
}
void gen(Plan &p, Rng &r) {
	int T = (int)r.range(1, 4); p.set("img", (int64_t)r.below(1u << 30)); p.set("buf", r.pick({2, 3, 5, 12, 40})); p.set("ovcap", r.pick({1, 2, 6, 10})); p.set("upper", r.chance(1, 3)); p.set("prefix", r.chance(1, 2)); p.set("only", r.chance(1, 6) ? 0 : r.chance(1, 2) ? 1023 : (int64_t)r.range(1, 1023));
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = (int)r.range(1, 4); for (int i = 0; i < n; i++) p.add(t, r.chance(1, 10) ? FRESH : r.chance(1, 6) ? LOOK : REQ, (int64_t)r.below(1u << 30)); }
	if (r.chance(1, 2) && !p.get("no_oom")) { if (r.chance(1, 2)) p.set("fn_malloc", r.range(1, 25)); else { p.enable(FK_MALLOC, r.pick({50, 300, 1500})); p.set("f_max", r.pick({1, 3, 100})); } } p.set("step_cap", 10000000);
}
SIM_SCENARIO(request, gen, run, opn);
}
