// Library operations while allocation fails: evidence, headers, lists, overrides, properties, messages, addresses, caches, signals (C13).
#include "names.h"
namespace {
enum { EVIDENCE = 1, HEADERS, LIST, OVERRIDES, PROPERTIES, STATUSMSG, EXCMSG, IP, CACHE, DATA, SIGNAL, NOPS };
const char *opn(int c) { static const char *n[] = {"", "evidence", "headers", "list", "overrides", "properties", "status message", "exception message", "addresses", "cache", "data buffer", "signal"}; return n[c]; }
uint64_t F0; bool faulted() { return faultsFiredBy(tid()) != F0; }
bool failedIfFaulted(const void *q, const char *what) { if (!q) SIM_CHECK(faulted(), "spurious-failure", "%s failed although no allocation did", what); return !q; }

bool evidence(Rng r) {
	uint32_t cap = (uint32_t)r.below(7); auto e = fiftyoneDegreesEvidenceCreate(cap); if (failedIfFaulted(e, "EvidenceCreate")) return false;
	SIM_CHECK(e->count == 0 && e->capacity == cap, "wrong-result", "new evidence has %u of %u pairs instead of 0 of %u", e->count, e->capacity, cap); if (cap) heapCheck(e->items, sizeof(fiftyoneDegreesEvidenceKeyValuePair) * cap, true, "room for evidence");
	std::vector<std::string> f; int n = (int)r.below(9); for (int i = 0; i < n; i++) f.push_back("field" + std::to_string(i)); static const fiftyoneDegreesEvidencePrefix pf[] = {FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE};
	for (int i = 0; i < n; i++) { auto q = fiftyoneDegreesEvidenceAddString(e, pf[i % 3], f[(size_t)i].c_str(), "v"); SIM_CHECK((q != nullptr) == ((uint32_t)i < cap), "wrong-result", "adding pair %d to evidence for %u gave %p", i, cap, (void *)q); }
	uint32_t want = 0; for (uint32_t i = 0; i < cap && i < (uint32_t)n; i++) want += i % 3 != 0; uint32_t seen = 0; uint32_t got = fiftyoneDegreesEvidenceIterate(e, FIFTYONE_DEGREES_EVIDENCE_QUERY | FIFTYONE_DEGREES_EVIDENCE_COOKIE, &seen, [](void *s, fiftyoneDegreesEvidenceKeyValuePair *p) { (*(uint32_t *)s)++; return p->parsedValue == p->originalValue; });
	SIM_CHECK(got == want && seen == want, "wrong-result", "%u pairs iterated, %u seen, instead of %u", got, seen, want); fiftyoneDegreesEvidenceFree(e); return true;
}
bool headers(Rng r) {
	Names n; headerNames(r, n);
	bool own = r.chance(1, 3), upper = r.chance(1, 3); makeNames(n, own); auto h = fiftyoneDegreesHeadersCreate(upper, &n, headerGet);
	SIM_CHECK(n.f.out == 0, "release", "%d header name items were not given back", n.f.out); if (failedIfFaulted(h, "HeadersCreate")) return false;
	if (own && faulted()) { for (uint32_t i = 0; i < h->count; i++) { heapCheck(h->items[i].name, h->items[i].nameLength + 1, false, "header name"); SIM_CHECK(fiftyoneDegreesHeaderGetIndex(h, h->items[i].name, h->items[i].nameLength) == (int)i, "wrong-result", "header %u is not found by its name", i); } fiftyoneDegreesHeadersFree(h); return false; } // a name could not be read, which the get method can only report as the end
	checkHeaders(h, headerModel(n), upper, r); fiftyoneDegreesHeadersFree(h); return true;
}
bool list(Rng r) {
	fiftyoneDegreesList l; memset(&l, 0xA5, sizeof l); if (r.chance(1, 2)) fiftyoneDegreesListReset(&l); uint32_t cap = (uint32_t)r.range(1, 6); auto q = fiftyoneDegreesListInit(&l, cap); if (failedIfFaulted(q, "ListInit")) { fiftyoneDegreesListFree(&l); return false; }
	Names n; for (int i = 0; i < 6; i++) n.n.push_back("item" + std::to_string(i)); bool own = r.chance(1, 2), bad = false; makeNames(n, own); uint32_t in = 0;
	for (uint32_t i = 0; i < cap; i++) { fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); if (!nameGet(&n, i % 6, &it)) { bad = true; continue; } it.handle = n.blk[0]; fiftyoneDegreesListAdd(&l, &it); in++; }
	SIM_CHECK(l.count == in, "wrong-result", "%u of %u items are in the list", l.count, in); if (r.chance(1, 2)) fiftyoneDegreesListRelease(&l); fiftyoneDegreesListFree(&l); SIM_CHECK(n.f.out == 0, "release", "%d items of the list were not released", n.f.out); return !bad;
}
// properties made when names could not always be read: some may be missing, those that are there are right
void checkSome(fiftyoneDegreesPropertiesAvailable *a, Names &n) {
	bool sh = false; for (uint32_t i = 0; i < a->count; i++) { auto &x = a->items[i]; SIM_CHECK(x.name.data.ptr && x.propertyIndex < n.n.size() && n.n[x.propertyIndex] == &fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, (int)i)->value, "unreported", "available property %u, index %u, has %s although properties were created", i, x.propertyIndex, x.name.data.ptr ? "another name" : "no name"); auto &s = n.n[x.propertyIndex]; sh |= s.size() >= 9 && !strncasecmp(s.c_str(), "SetHeader", 9); SIM_CHECK(!i || strcasecmp(n.n[a->items[i - 1].propertyIndex].c_str(), s.c_str()) <= 0, "wrong-result", "available properties are not in the order of their names"); }
	for (uint32_t k = 0; k < n.n.size(); k++) { bool in = false; for (uint32_t i = 0; i < a->count; i++) in |= a->items[i].propertyIndex == k; SIM_CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, n.n[k].c_str()) == (in ? (int)k : -1), "wrong-result", "property '%s', which is %savailable, is %sfound", n.n[k].c_str(), in ? "" : "not ", in ? "not " : ""); }
	SIM_CHECK(fiftyoneDegreesPropertiesIsSetHeaderAvailable(a) == sh, "wrong-result", "SetHeader properties are %sreported", sh ? "not " : "");
}
bool properties(Rng r) {
	Names n; propertyNames(r, n); bool own = r.chance(1, 3), nul, empty; makeNames(n, own); Req q; auto m = requirement(r, n, q, nul, empty);
	auto a = fiftyoneDegreesPropertiesCreate(nul ? nullptr : &q.q, &n, nameGet, evidenceGet); uint64_t f = faultsFiredBy(tid());
	if (!a) { SIM_CHECK(empty || f != F0, "spurious-failure", "PropertiesCreate failed although no allocation did"); SIM_CHECK(n.f.out == 0, "release", "%d property names were not given back", n.f.out); return empty && f == F0; }
	bool relaxed = own && f != F0; if (!relaxed) { SIM_CHECK(!empty, "wrong-result", "properties were created although none matched"); checkAvailable(a, n, m, r); SIM_CHECK(n.f.out == (int)m.size(), "release", "%d names are held for %zu properties", n.f.out, m.size()); }
	else checkSome(a, n);
	bool ok = !relaxed;
	if (!relaxed && r.chance(1, 2)) { // the same properties from an existing set
		Req e; e.q = fiftyoneDegreesPropertiesDefault; e.q.existing = a; uint64_t g = faultsFiredBy(tid()); auto b = fiftyoneDegreesPropertiesCreate(&e.q, &n, nameGet, evidenceGet); bool fl = faultsFiredBy(tid()) != g;
		if (!b) { SIM_CHECK(fl, "spurious-failure", "PropertiesCreate from existing properties failed although no allocation did"); ok = false; } else if (!(own && fl)) checkAvailable(b, n, m, r); else { checkSome(b, n); ok = false; } if (b) fiftyoneDegreesPropertiesFree(b);
	}
	fiftyoneDegreesPropertiesFree(a); SIM_CHECK(n.f.out == 0, "release", "%d property names were not given back", n.f.out); return ok;
}
bool overrides(Rng r) {
	Names n; propertyNames(r, n); makeNames(n, false); fiftyoneDegreesPropertiesAvailable *av; { FaultMask fm(false); av = fiftyoneDegreesPropertiesCreate(nullptr, &n, nameGet, evidenceGet); } uint32_t cap = (uint32_t)r.range(1, 5); bool ok = true; int P = (int)n.n.size();
	auto v = fiftyoneDegreesOverrideValuesCreate(cap); if (failedIfFaulted(v, "OverrideValuesCreate")) { FaultMask fm(false); fiftyoneDegreesPropertiesFree(av); return false; }
	uint32_t only = r.chance(1, 5) ? 0 : (uint32_t)r.range(1, 1023); bool pre = r.chance(1, 2); uint64_t f = faultsFiredBy(tid()); auto op = fiftyoneDegreesOverridePropertiesCreate(av, pre, &only, [](void *s, uint32_t i) { return ((*(uint32_t *)s >> i) & 1) != 0; }); uint32_t cnt = 0; for (int i = 0; i < P; i++) cnt += (only >> i) & 1;
	if (!op) { SIM_CHECK(!cnt || faultsFiredBy(tid()) != f, "spurious-failure", "OverridePropertiesCreate failed although no allocation did"); if (cnt) ok = false; } else SIM_CHECK(cnt && op->count == cnt && op->prefix == pre, "wrong-result", "%u overridable properties instead of %u", op->count, cnt);
	std::vector<std::pair<int, std::string>> m; auto find = [&](int i) { for (size_t k = 0; k < m.size(); k++) if (m[k].first == i) return (int)k; return -1; };
	auto check = [&](const char *when) { for (int i = 0; i < P; i++) { fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); auto s = fiftyoneDegreesOverrideValuesGetFirst(v, (uint32_t)i, &it); bool has = fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(v, (uint32_t)i); int k = find(i); SIM_CHECK(has == (k >= 0) && (s != nullptr) == has, "wrong-result", "property %d: has value %d, value %p, expected %d (%s)", i, has, (void *)s, k >= 0, when); if (s) { heapCheck(s, m[(size_t)k].second.size() + 3, false, "overridden value"); SIM_CHECK(m[(size_t)k].second == &s->value && s->size == (int)m[(size_t)k].second.size() + 1, "wrong-result", "property %d is overridden by '%s' instead of '%s' (%s)", i, &s->value, m[(size_t)k].second.c_str(), when); FIFTYONE_DEGREES_COLLECTION_RELEASE(it.collection, &it); } } };
	auto sync = [&](int i, const std::string &nv) { int k = find(i); fiftyoneDegreesCollectionItem it; auto s = fiftyoneDegreesOverrideValuesGetFirst(v, (uint32_t)i, &it); bool has = fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex(v, (uint32_t)i); SIM_CHECK(has == (s != nullptr), "unreported", "after a failed allocation property %d has an override without a value", i); if (!s) { if (k >= 0) m.erase(m.begin() + k); } else { SIM_CHECK((k >= 0 && m[(size_t)k].second == &s->value) || nv == &s->value, "wrong-result", "after a failed allocation property %d has a value nobody gave", i); if (k >= 0) m[(size_t)k].second = &s->value; else m.push_back({i, &s->value}); } };
	int steps = (int)r.range(1, 12);
	for (int s = 0; s < steps; s++) switch (r.below(8)) {
	default: { int i = r.chance(1, 10) ? -1 : (int)r.below((uint64_t)P); std::string val((size_t)r.pick({0, 1, 5, 20, 60}), (char)('a' + s)); f = faultsFiredBy(tid()); char *hv = (char *)heapData(val.c_str(), val.size() + 1); bool got = fiftyoneDegreesOverridesAdd(v, i, hv); heapFree(hv); bool fl = faultsFiredBy(tid()) != f; bool room = m.size() < cap; if (i >= 0 && room) { if (fl) { SIM_CHECK(!got, "unreported", "OverridesAdd reported success although it could not allocate"); sync(i, val); ok = false; } else { int k = find(i); if (k >= 0) m[(size_t)k].second = val; else m.push_back({i, val}); } } if (!fl) SIM_CHECK(got == (m.size() < cap), "wrong-result", "OverridesAdd returned %d with %zu of %u values", got, m.size(), cap); check("after adding"); break; }
	case 5: fiftyoneDegreesOverrideValuesReset(v); m.clear(); check("after reset"); break;
	case 6: { fiftyoneDegreesList l; uint32_t lc = (uint32_t)r.range(1, 3); int i = (int)r.below((uint64_t)P); f = faultsFiredBy(tid()); if (!fiftyoneDegreesListInit(&l, lc)) { SIM_CHECK(faultsFiredBy(tid()) != f, "spurious-failure", "ListInit failed"); ok = false; fiftyoneDegreesListFree(&l); break; } uint32_t a = fiftyoneDegreesOverrideValuesAdd(v, (uint32_t)i, &l); int k = find(i); SIM_CHECK(a == (k >= 0 ? 1u : 0u) && l.count == a, "wrong-result", "%u values of property %d added to the list", a, i); if (a) SIM_CHECK(m[(size_t)k].second == &fiftyoneDegreesListGetAsString(&l, 0)->value, "wrong-result", "the listed value differs"); fiftyoneDegreesListFree(&l); check("after listing"); break; }
	case 7: { if (!op || m.size() >= cap) break; fiftyoneDegreesEvidenceKeyValuePairArray *e; { FaultMask fm(false); e = fiftyoneDegreesEvidenceCreate(4); } std::vector<std::string> fs, vs; std::vector<int> ix; for (int j = 0; j < 4; j++) { int i = (int)r.below((uint64_t)P); auto nm = n.n[av->items[i].propertyIndex]; bool px = r.chance(1, 2); fs.push_back((px ? "51D_" : "") + vary(r, nm)); vs.push_back("e" + std::to_string(s) + std::to_string(j)); ix.push_back(((only >> i) & 1) && (!px || pre) ? i : -1); }
		for (size_t j = 0; j < 4; j++) fiftyoneDegreesEvidenceAddString(e, j & 1 ? FIFTYONE_DEGREES_EVIDENCE_COOKIE : FIFTYONE_DEGREES_EVIDENCE_QUERY, fs[j].c_str(), vs[j].c_str()); f = faultsFiredBy(tid()); fiftyoneDegreesOverridesExtractFromEvidence(op, v, e); bool fl = faultsFiredBy(tid()) != f;
		if (!fl) { for (size_t j = 0; j < 4 && m.size() < cap; j++) if (ix[j] >= 0) { int k = find(ix[j]); if (k >= 0) m[(size_t)k].second = vs[j]; else m.push_back({ix[j], vs[j]}); } check("after extraction"); probe("extracted"); } else { ok = false; fiftyoneDegreesOverrideValuesReset(v); m.clear(); check("after a failed extraction and a reset"); } fiftyoneDegreesEvidenceFree(e); break; }
	}
	fiftyoneDegreesOverrideValuesFree(v); if (op) fiftyoneDegreesOverridePropertiesFree(op); FaultMask fm(false); fiftyoneDegreesPropertiesFree(av); return ok && !faulted();
}
std::string clean(std::function<const char *()> fn) { FaultMask fm(false); const char *m = fn(); SIM_CHECK(m, "spurious-failure", "no message although no allocation failed"); std::string s = m; fiftyoneDegreesFree((void *)m); return s; }
bool statusmsg(Rng r) {
	auto st = (fiftyoneDegreesStatusCode)r.below(36); const char *fn = r.chance(1, 4) ? nullptr : r.pick({"a", "/data/51Degrees.dat", ""}); std::string want = clean([&] { return fiftyoneDegreesStatusGetMessage(st, fn); });
	const char *m = fiftyoneDegreesStatusGetMessage(st, fn); if (failedIfFaulted(m, "StatusGetMessage")) return false; std::string got = m; heapCheck(m, got.size() + 1, false, "message"); fiftyoneDegreesFree((void *)m);
	if (faulted()) { SIM_CHECK(got == want || got.find("does not have any message text") != std::string::npos, "wrong-result", "message '%s' for status %d", got.c_str(), (int)st); return false; } SIM_CHECK(got == want && got.size() && (got.back() == '.' || (got.size() > 5 && !got.compare(got.size() - 5, 5, ".html"))), "wrong-result", "message '%s' for status %d", got.c_str(), (int)st); if (st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND && fn) SIM_CHECK(got.find(fn) != std::string::npos, "wrong-result", "the message '%s' does not name the file '%s'", got.c_str(), fn); return true;
}
bool excmsg(Rng r) {
	Ex e; auto st = (fiftyoneDegreesStatusCode)r.below(36); if (r.chance(3, 4)) { e.v.file = r.pick({"x.c", "a/rather/long/path/of/a/source/file.c"}); e.v.func = r.pick({"f", "fiftyoneDegreesSomething"}); } e.v.line = (int)r.pick({1, 99999, 1000000, -1}); e.v.status = st; std::string sm = clean([&] { return fiftyoneDegreesStatusGetMessage(st, nullptr); });
	const char *m = fiftyoneDegreesExceptionGetMessage(e.p); if (failedIfFaulted(m, "ExceptionGetMessage")) return false; std::string got = m; heapCheck(m, got.size() + 1, false, "message"); fiftyoneDegreesFree((void *)m); if (faulted()) return false;
	SIM_CHECK(got.find(sm) != std::string::npos, "wrong-result", "the exception message '%s' lacks '%s'", got.c_str(), sm.c_str()); if (e.v.file) SIM_CHECK(got.find(e.v.file) != std::string::npos && got.find(e.v.func) != std::string::npos && got.find(std::to_string(e.v.line)) != std::string::npos, "wrong-result", "the exception message '%s' lacks file, function or line", got.c_str()); return true;
}
struct A { std::string s; bool known; bool v6; uint8_t b[16]; };
A address(Rng &r) {
	A a; a.known = r.chance(3, 4); a.v6 = r.chance(1, 2); char t[8]; memset(a.b, 0, 16);
	if (!a.known) { int n = (int)r.range(1, 24); for (int i = 0; i < n; i++) { if (i) a.s += r.chance(1, 8) ? r.pick({'.', ':'}) : a.v6 ? ':' : '.'; if (!r.chance(1, 8)) { snprintf(t, sizeof t, a.v6 ? "%x" : "%d", (int)r.below(a.v6 ? 0x10000 : 300)); a.s += t; } } if (a.s.empty()) a.s = "x"; probe(n > (a.v6 ? 8 : 4) ? "address_too_long" : "address_odd"); return a; }
	if (!a.v6) { for (int i = 0; i < 4; i++) { a.b[i] = (uint8_t)r.below(256); snprintf(t, sizeof t, "%s%d", i ? "." : "", a.b[i]); a.s += t; } return a; }
	int g = -1, gl = 0; if (r.chance(1, 2)) { g = (int)r.range(1, 5); gl = (int)r.range(2, 7 - g); } // an abbreviation in the middle
	for (int i = 0; i < 8; i++) { if (i) a.s += ':'; if (i == g) { i += gl - 1; continue; } int x = (int)r.below(0x10000); a.b[2 * i] = (uint8_t)(x >> 8); a.b[2 * i + 1] = (uint8_t)x; snprintf(t, sizeof t, "%x", x); a.s += t; }
	return a;
}
void sameAddress(const A &a, fiftyoneDegreesEvidenceIpAddress *i) { heapCheck(i->address, a.v6 ? 16 : 4, false, "address"); SIM_CHECK(i->type == (a.v6 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) && !memcmp(i->address, a.b, a.v6 ? 16 : 4), "wrong-result", "'%s' is parsed to other bytes", a.s.c_str()); }
bool ip(Rng r) {
	if (r.chance(1, 2)) { A a = address(r); char *s = (char *)heapData(a.s.c_str(), a.s.size() + 1); auto i = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, s, s + a.s.size()); heapFree(s); if (failedIfFaulted(i, "IpParseAddress")) return false; if (a.known) sameAddress(a, i); else { // what a text means does not depend on what the memory held before
			FaultMask fm(false); size_t z = i->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 ? 4 : i->type == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 ? 16 : 0; std::vector<uint8_t> b(i->address, i->address + z); std::vector<void *> bs; for (int k = 0; k < 3; k++) for (size_t w : {4u, 16u}) { size_t y = sizeof *i + w; void *q = fiftyoneDegreesMalloc(y); memset(q, 0x5A + k, y); bs.push_back(q); } for (auto q : bs) fiftyoneDegreesFree(q);
			char *s2 = (char *)heapData(a.s.c_str(), a.s.size() + 1); auto j = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, s2, s2 + a.s.size()); heapFree(s2); SIM_CHECK(j && j->type == i->type && !memcmp(j->address, b.data(), z), "wrong-result", "'%s' is parsed to other bytes the second time", a.s.c_str()); fiftyoneDegreesFree(j); probe("parsed_twice"); }
		SIM_CHECK(!i->next, "wrong-result", "one address has a successor"); if (r.chance(1, 2)) fiftyoneDegreesFree(i); else fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, i); return true; }
	std::vector<A> as; std::string all; int n = (int)r.range(1, 4); bool known = true; for (int k = 0; k < n; k++) { as.push_back(address(r)); known &= as.back().known; if (k) all += ','; all += as.back().s; }
	char *s = (char *)heapData(all.c_str(), all.size() + 1); auto h = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, s); heapFree(s); size_t got = 0, at = 0;
	for (auto i = h; i; i = i->next) { heapCheck(i, sizeof *i, false, "parsed address"); got++; SIM_CHECK(got <= 100, "wrong-result", "the addresses never end"); if (known) { if (faulted()) { while (at < as.size() && !(i->type == (as[at].v6 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4) && !memcmp(i->address, as[at].b, as[at].v6 ? 16 : 4))) at++; SIM_CHECK(at < as.size(), "wrong-result", "parsed address %zu was never given", got); at++; } else { SIM_CHECK(at < as.size(), "wrong-result", "more addresses than given"); sameAddress(as[at++], i); } } }
	if (known && !faulted()) SIM_CHECK(got == as.size(), "wrong-result", "%zu of %zu addresses parsed", got, as.size()); fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, h); return !faulted();
}
uint32_t seed; const void *loadK(const void *, fiftyoneDegreesData *d, const void *k, fiftyoneDegreesException *exception) { uint32_t v = *(const uint32_t *)k; uint32_t *q = (uint32_t *)fiftyoneDegreesDataMalloc(d, 8 + v % 3 * 8); if (!q) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY); return nullptr; } q[0] = v; q[1] = ~v; d->used = 8; return q; }
void loadC(const void *s, fiftyoneDegreesData *d, const void *k, fiftyoneDegreesException *e) { loadK(s, d, k, e); }
bool cache(Rng r) {
	uint16_t conc = (uint16_t)r.range(1, 3); uint32_t cap = (uint32_t)conc * conc + (uint32_t)r.below(5); bool ok = true; auto c = fiftyoneDegreesCacheCreate(cap, conc, loadC, fiftyoneDegreesCacheHash32, &seed); if (failedIfFaulted(c, "CacheCreate")) return false;
	int n = (int)r.range(1, 15); for (int i = 0; i < n; i++) { uint32_t k = (uint32_t)r.below(8); Ex e; uint64_t f = faultsFiredBy(tid()); auto q = fiftyoneDegreesCacheGet(c, &k, e.p); bool fl = faultsFiredBy(tid()) != f; if (!q || !e.ok()) { SIM_CHECK(fl && e.st() == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY && !q, "spurious-failure", "CacheGet gave %p and exception %d%s", (void *)q, e.st(), fl ? " after a failed allocation" : ""); ok = false; continue; } auto d = (uint32_t *)q->data.ptr; heapCheck(d, 8, false, "cached data"); SIM_CHECK(d[0] == k && d[1] == ~k, "wrong-result", "key %u gave the data of %u", k, d[0]); fiftyoneDegreesCacheRelease(q); }
	fiftyoneDegreesCacheFree(c); return ok;
}
bool data(Rng r) {
	fiftyoneDegreesData d; fiftyoneDegreesDataReset(&d); bool ok = true; int n = (int)r.range(1, 8); uint32_t was = 0;
	for (int i = 0; i < n; i++) { size_t z = (size_t)r.range(1, 60); uint64_t f = faultsFiredBy(tid()); void *q = fiftyoneDegreesDataMalloc(&d, z); if (!q) { SIM_CHECK(faultsFiredBy(tid()) != f, "spurious-failure", "DataMalloc failed although no allocation did"); SIM_CHECK(!d.ptr && !d.allocated, "wrong-result", "after a failed allocation the data is %p of %u bytes", (void *)d.ptr, d.allocated); ok = false; was = 0; continue; } SIM_CHECK(q == d.ptr && d.allocated >= z && d.allocated >= was, "wrong-result", "room for %u of %zu bytes", d.allocated, z); heapCheck(q, z, true, "data"); was = d.allocated; memset(q, (int)i, z); }
	if (d.allocated) fiftyoneDegreesFree(d.ptr); return ok;
}
bool signal_(Rng) { auto s = fiftyoneDegreesSignalCreate(); if (failedIfFaulted(s, "SignalCreate")) return false; fiftyoneDegreesSignalSet(s); fiftyoneDegreesSignalWait(s); fiftyoneDegreesSignalClose(s); return true; }

bool doOp(int code, uint64_t s) { Rng r(s); F0 = faultsFiredBy(tid()); switch (code) { case EVIDENCE: return evidence(r); case HEADERS: return headers(r); case LIST: return list(r); case OVERRIDES: return overrides(r); case PROPERTIES: return properties(r); case STATUSMSG: return statusmsg(r); case EXCMSG: return excmsg(r); case IP: return ip(r); case CACHE: return cache(r); case DATA: return data(r); default: return signal_(r); } }
void run(const Plan &p) {
	spawn([&] { for (auto &op : p.th[1]) { opBegin(op); uint64_t m = heapMark(), f = faultsFired(); bool ok = doOp(op.code, (uint64_t)op.a); leakCheck(m, ok ? "after a library operation and freeing its result" : "after a library operation that could not allocate and freeing what it gave"); bool fl = faultsFired() != f; SIM_CHECK(ok || fl, "spurious-failure", "%s failed although no allocation did", opn(op.code)); if (!ok || fl) { probe("failed_and_repeated"); state(mix((uint64_t)op.code, faultsFired() - f)); FaultMask fm(false); SIM_CHECK(doOp(op.code, (uint64_t)op.a), "not-recovered", "%s still fails when memory is available again", opn(op.code)); leakCheck(m, "after repeating the operation"); } eventf("%s: %s", opn(op.code), ok ? "done" : "out of memory, then done"); opEnd(); } });
	joinAll();
}
void gen(Plan &p, Rng &r) {
	int n = (int)r.range(1, 12), one = r.chance(1, 3) ? (int)r.range(1, NOPS - 1) : 0; p.th.resize(2); for (int i = 0; i < n; i++) p.add(1, one ? one : r.pick({EVIDENCE, HEADERS, HEADERS, HEADERS, LIST, OVERRIDES, OVERRIDES, OVERRIDES, PROPERTIES, PROPERTIES, PROPERTIES, STATUSMSG, EXCMSG, IP, IP, CACHE, CACHE, DATA, SIGNAL}), (int64_t)r.below(1u << 30));
	if (r.chance(2, 5)) p.set("fn_malloc", r.chance(1, 2) ? r.range(1, 12) : r.range(1, 80)); else { p.enable(FK_MALLOC, r.pick({100, 500, 2000, 5000})); if (r.chance(1, 3)) p.set("f_max", r.range(1, 3)); } if (!p.get("f_max")) p.set("f_max", 1 << 20); p.set("step_cap", 6000000);
}
SIM_SCENARIO(oom, gen, run, opn);
}
