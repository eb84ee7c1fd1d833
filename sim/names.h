// Names in collections that count what is taken, and the properties and requirements made from them.
#pragma once
#include "scn.h"
namespace {
// a collection that counts the items taken and not given back
struct Fake { fiftyoneDegreesCollection c; int out; bool own; };
void fakeRelease(fiftyoneDegreesCollectionItem *i) { Fake *f = (Fake *)i->collection; SIM_CHECK(f && f->c.release == fakeRelease && f->out > 0, "release", "an item that is not held was released"); f->out--; if (i->data.allocated) fiftyoneDegreesFree(i->data.ptr); fiftyoneDegreesDataReset(&i->data); }
struct Names { std::vector<std::string> n; std::vector<uint8_t *> blk; Fake f; };
void makeNames(Names &n, bool own) { memset(&n.f, 0, sizeof n.f); n.f.c.release = fakeRelease; n.f.own = own; n.blk.clear(); NOP; for (auto &s : n.n) { std::vector<uint8_t> b(2); int16_t z = (int16_t)(s.size() + 1); memcpy(b.data(), &z, 2); b.insert(b.end(), s.begin(), s.end()); b.push_back(0); n.blk.push_back((uint8_t *)heapData(b.data(), b.size())); } }
fiftyoneDegreesString *nameGet(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) {
	Names *n = (Names *)state; if (i >= n->n.size()) return nullptr;
	if (n->f.own) { size_t z = n->n[i].size() + 3; uint8_t *q = (uint8_t *)fiftyoneDegreesDataMalloc(&item->data, z); if (!q) return nullptr; memcpy(q, n->blk[i], z); item->data.used = (uint32_t)z; }
	else { item->data.ptr = n->blk[i]; item->data.allocated = 0; item->data.used = (uint32_t)n->n[i].size() + 3; }
	item->collection = &n->f.c; item->handle = nullptr; n->f.out++; return (fiftyoneDegreesString *)item->data.ptr;
}
long headerGet(void *state, uint32_t i, fiftyoneDegreesCollectionItem *item) { return nameGet(state, i, item) ? 100 + (long)i : -1; }
uint32_t evidenceGet(void *, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) { uint32_t n = p->propertyIndex % 4; if (e) for (uint32_t i = 0; i < n; i++) e->items[i] = p->propertyIndex * 10 + i; return n; }
bool ci(const std::string &a, const std::string &b) { return a.size() == b.size() && !strcasecmp(a.c_str(), b.c_str()); }
std::string vary(Rng &r, std::string s) { if (r.chance(1, 2)) for (auto &c : s) if (isalpha((unsigned char)c) && r.chance(1, 2)) c ^= 32; return s; }
std::vector<std::string> split(const std::string &s, char sep) { std::vector<std::string> o; std::string c; for (char x : s + sep) if (x == sep) { if (c.size()) o.push_back(c); c.clear(); } else c += x; return o; }
struct Req { fiftyoneDegreesPropertiesRequired q; std::string s; std::vector<std::string> a; std::vector<const char *> p; };
std::vector<uint32_t> requirement(Rng &r, Names &n, Req &q, bool &nul, bool &empty) { // the matching property indexes in order of name
	q.q = fiftyoneDegreesPropertiesDefault; nul = empty = false; std::set<uint32_t> m; size_t k = n.n.size(); std::vector<std::string> l; int want = (int)r.below(6);
	for (int i = 0; i < want; i++) { if (r.chance(1, 6)) { l.push_back(r.pick({"Unknown", "Is", "IsMobileX", ""})); continue; } uint32_t x = (uint32_t)r.below(k); l.push_back(vary(r, n.n[x])); m.insert(x); }
	switch (r.below(4)) {
	case 0: for (auto &s : l) { if (q.s.size() || r.chance(1, 10)) q.s += r.pick({'|', ',', ' '}); q.s += s; } q.q.string = q.s.c_str(); if (q.s.empty()) { m.clear(); for (uint32_t i = 0; i < k; i++) m.insert(i); } else empty = m.empty(); break;
	case 1: q.a = l; for (auto &s : q.a) q.p.push_back(s.c_str()); q.q.array = q.p.data(); q.q.count = (int)q.p.size(); if (!q.q.count) { m.clear(); for (uint32_t i = 0; i < k; i++) m.insert(i); } break;
	case 2: nul = true; /* fall through */
	default: m.clear(); for (uint32_t i = 0; i < k; i++) m.insert(i);
	}
	std::vector<uint32_t> o(m.begin(), m.end()); std::sort(o.begin(), o.end(), [&](uint32_t a, uint32_t b) { return strcasecmp(n.n[a].c_str(), n.n[b].c_str()) < 0; }); return o;
}
void propertyNames(Rng &r, Names &n) { static const char *base[] = {"IsMobile", "HardwareName", "BrowserName", "BrowserVersion", "PlatformName", "ScreenPixelsWidth", "ScreenPixelsWidthJavaScript", "SetHeaderBrowserAccept-CH", "Javascript", "DeviceId", "Set", "Se", "ResetHeader", "SETHEADERPlatform", "X", "q"}; const int B = sizeof base / sizeof *base; std::vector<int> ix; for (int i = 0; i < B; i++) ix.push_back(i); size_t k = 1 + r.below(10); for (size_t i = 0; i < k; i++) { std::swap(ix[i], ix[i + r.below((size_t)B - i)]); n.n.push_back(base[ix[i]]); } }
void checkAvailable(fiftyoneDegreesPropertiesAvailable *a, Names &n, const std::vector<uint32_t> &m, Rng &r) {
	SIM_CHECK(a->count == m.size(), "wrong-result", "%u properties available instead of %zu", a->count, m.size()); bool sh = false;
	for (size_t i = 0; i < m.size(); i++) {
		auto &x = a->items[i]; auto &s = n.n[m[i]]; sh |= s.size() >= 9 && !strncasecmp(s.c_str(), "SetHeader", 9); SIM_CHECK(x.propertyIndex == m[i] && fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, (int)i) == (int)m[i] && x.name.data.ptr && s == &fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, (int)i)->value, "wrong-result", "available property %zu is %u '%s' instead of %u '%s'", i, x.propertyIndex, x.name.data.ptr ? &((fiftyoneDegreesString *)x.name.data.ptr)->value : "?", m[i], s.c_str());
		std::string q = vary(r, s); SIM_CHECK(fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, q.c_str()) == (int)i && fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, q.c_str()) == (int)m[i], "wrong-result", "property '%s' is not found by name", q.c_str());
		SIM_CHECK(x.evidenceProperties && x.evidenceProperties->count == m[i] % 4, "unreported", "property '%s' has %s instead of %u although properties were created", s.c_str(), x.evidenceProperties ? "other evidence properties" : "no evidence properties", m[i] % 4); for (uint32_t j = 0; j < m[i] % 4; j++) SIM_CHECK(x.evidenceProperties->items[j] == m[i] * 10 + j, "wrong-result", "evidence property %u of '%s' differs", j, s.c_str());
	}
	SIM_CHECK(fiftyoneDegreesPropertiesIsSetHeaderAvailable(a) == sh, "wrong-result", "SetHeader properties are %sreported", sh ? "not " : ""); SIM_CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, "Zzz") == -1 && fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, (int)m.size()) == -1, "wrong-result", "an unknown property was found");
}
void headerNames(Rng &r, Names &n) {
	static const char *base[] = {"User-Agent", "Sec-CH-UA", "Sec-CH-UA-Mobile", "Sec-CH-UA-Platform", "Device-Stock-UA", "X-OperaMini-Phone-UA", "Accept", "A", "B", "Accent", "Sec-CH-UB"};
	int k = (int)r.below(7); for (int i = 0; i < k; i++) { std::string s; int sg = r.chance(1, 2) ? 1 : (int)r.range(2, 4); for (int j = 0; j < sg; j++) { if (j) s += '\x1F'; s += vary(r, base[r.below(11)]); } if (r.chance(1, 12)) s += '\x1F'; if (r.chance(1, 12)) s = "\x1F" + s; if (r.chance(1, 20)) s = r.pick({"", "\x1F"}); n.n.push_back(s); }
}
struct HM { std::string s; bool ds; uint32_t id; };
std::vector<HM> headerModel(Names &n) { // the data set's headers followed by the segments that are no headers yet
	std::vector<HM> m; auto has = [&](const std::string &s) { for (auto &x : m) if (ci(x.s, s)) return true; return false; };
	for (size_t i = 0; i < n.n.size(); i++) if (split(n.n[i], '\x1F').size() && !has(n.n[i])) m.push_back({n.n[i], true, 100 + (uint32_t)i});
	size_t mx = m.size(); for (size_t i = 0; i < mx; i++) for (auto &s : split(m[i].s, '\x1F')) if (!has(s)) m.push_back({s, false, 0});
	return m;
}
void checkHeaders(fiftyoneDegreesHeaders *h, const std::vector<HM> &m, bool upper, Rng &r) {
	SIM_CHECK(h->count == m.size() && h->expectUpperPrefixedHeaders == upper, "wrong-result", "%u headers instead of %zu", h->count, m.size()); uint32_t ps = 0;
	SIM_CHECK(!fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, 4242), "wrong-result", "an id of no header was found");
	for (size_t i = 0; i < m.size(); i++) {
		auto &x = h->items[i]; auto sg = split(m[i].s, '\x1F'); ps += sg.size() > 1; SIM_CHECK(x.nameLength == m[i].s.size() && m[i].s == x.name && x.isDataSet == m[i].ds && x.uniqueId == m[i].id, "wrong-result", "header %zu is '%s' (%d, %u) instead of '%s' (%d, %u)", i, x.name, x.isDataSet, x.uniqueId, m[i].s.c_str(), m[i].ds, m[i].id);
		SIM_CHECK(x.segments && x.segments->count == sg.size(), "wrong-result", "header '%s' has %u segments instead of %zu", x.name, x.segments ? x.segments->count : 0, sg.size()); for (size_t j = 0; j < sg.size(); j++) SIM_CHECK(sg[j] == std::string(x.segments->items[j].segment, x.segments->items[j].length), "wrong-result", "segment %zu of '%s' differs", j, x.name);
		std::string q = vary(r, m[i].s); if (upper && r.chance(1, 2)) q = "HTTP_" + q; if (!(upper && q.size() <= 6 && q.size() > 5)) SIM_CHECK(fiftyoneDegreesHeaderGetIndex(h, q.c_str(), q.size()) == (int)i, "wrong-result", "'%s' is not found as header %zu", q.c_str(), i);
		if (m[i].ds) SIM_CHECK(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, m[i].id) == &x, "wrong-result", "header %zu is not found by its id", i);
	}
	SIM_CHECK(h->pseudoHeadersCount == ps, "wrong-result", "%u pseudo headers counted instead of %u", h->pseudoHeadersCount, ps); SIM_CHECK(fiftyoneDegreesHeaderGetIndex(h, "Nowhere", 7) == -1, "wrong-result", "an unknown header was found"); if (ps) probe("pseudo_headers");
}
}
