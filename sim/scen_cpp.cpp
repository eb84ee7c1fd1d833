// The C++ interface: engines, results, metadata and their collections over a reloadable data set (C18); configuration objects (C25).
#include "Exceptions.hpp"
#include "ds.h"
#include "EngineBase.hpp"
#include "CollectionConfig.hpp"
#include "IpAddress.hpp"
#include "lin.h"
namespace FC = FiftyoneDegrees::Common;
using std::string; using std::vector; using std::shared_ptr; using std::unique_ptr; using std::stringstream;
typedef fiftyoneDegreesResourceManager RM;
std::string unitString(fiftyoneDegreesCollection *c, uint32_t offset);
extern "C" size_t sim_strlen(const char *);
namespace {
enum { PROCESS = 1, USE, DEL, COLL, COLLUSE, COLLDEL, META, RELOAD, RBAD, PRODUCT, DROP, CODES, CONF, EVID, SMALL };
const char *opn(int c) { static const char *n[] = {"", "process", "use results", "delete results", "get collection", "use collection", "delete collection", "metadata string", "reload", "reload from bad file", "product", "delete engine", "exceptions", "configuration", "evidence", "small objects"}; return n[c]; }
struct Ctx : DsCtx { const Plan *p; string required; vector<string> reqList; bool upper; int metas = 0, users = 0, nbad = 0; bool gone = false; } *C;
string valueText(uint32_t w) { static const char *t[] = {"False", "True", "Truth", "True", "T", "False", "true", "True"}; return w % 5 ? std::to_string(w % 1000) : t[w / 5 % 8]; }
string msgOf(fiftyoneDegreesStatusCode c, const char *f) { FaultMask fm(false); const char *m = fiftyoneDegreesStatusGetMessage(c, f); string s = m; fiftyoneDegreesFree((void *)m); return s; }
// the data set a dependent object holds, taken and given back as the language bindings do
struct Hold { DS *d; Hold(RM *m) { d = (DS *)fiftyoneDegreesDataSetGet(m); SIM_CHECK(d, "refused", "no data set"); hold(d, 1); } ~Hold() { hold(d, -1); fiftyoneDegreesDataSetRelease(&d->b); } };
struct Build { static string str(fiftyoneDegreesCollection *c, uint32_t o) { return unitString(c, o); } };
struct Item32 { fiftyoneDegreesCollection *c; fiftyoneDegreesCollectionItem it; uint32_t w[3] = {0, 0, 0}; }; // a fixed width item, read or thrown
void read32(fiftyoneDegreesCollection *c, uint32_t i, int n, uint32_t *w) { FIFTYONE_DEGREES_EXCEPTION_CREATE; fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); void *q = c->get(c, i, &it, exception); FIFTYONE_DEGREES_EXCEPTION_THROW; memcpy(w, q, 4 * (size_t)n); FIFTYONE_DEGREES_COLLECTION_RELEASE(c, &it); }

bool pbit(const string &n, int b) { unsigned h = 7; for (char ch : n) h = h * 31 + (unsigned char)ch; return (h >> b) & 1; }
string samePm(FC::PropertyMetaData &q, const string &n, uint32_t i, uint32_t nev) { // what a property says, compared with what it was made from
	vector<uint32_t> ev; for (uint32_t k = 0; k < nev; k++) ev.push_back(k);
	if (q.getName() != n || q.getKey() != n) return "name"; if (q.getType() != "t" + n) return "type"; if (q.getCategory() != n + "c") return "category"; if (q.getUrl() != "u" + n) return "url"; if (q.getDescription() != "d" + n) return "description"; if (q.getDefaultValue() != "v" + n) return "default value"; if (q.getDataFilesWherePresent() != vector<string>{n, "f" + n}) return "data files"; if (q.getDisplayOrder() != (int)i) return "display order"; if (q.getComponentId() != (unsigned char)(i + 3)) return "component"; if (q.getEvidenceProperties() != ev) return "evidence properties";
	const bool b[] = {q.getAvailable(), q.getIsMandatory(), q.getIsList(), q.getIsObsolete(), q.getShow(), q.getShowValues()}; static const char *w[] = {"available", "mandatory", "list", "obsolete", "show", "show values"}; for (int k = 0; k < 6; k++) if (b[k] != pbit(n, k)) return w[k]; return "";
}
struct TProps : FC::Collection<string, FC::PropertyMetaData> {
	shared_ptr<RM> m; Hold h; TProps(shared_ptr<RM> m_) : m(m_), h(m.get()) {}
	FC::PropertyMetaData *getByIndex(uint32_t i) const override { uint32_t w[2]; read32(h.d->c[1], i, 2, w); string n = Build::str(h.d->c[0], w[0]); vector<uint32_t> ev; for (uint32_t k = 0; k < w[1]; k++) ev.push_back(k); return new FC::PropertyMetaData(n, {n, "f" + n}, "t" + n, n + "c", "u" + n, pbit(n, 0), (unsigned char)i, pbit(n, 1), pbit(n, 2), pbit(n, 3), pbit(n, 4), pbit(n, 5), "d" + n, "v" + n, (unsigned char)(i + 3), ev); }
	FC::PropertyMetaData *getByKey(string k) const override { for (uint32_t i = 0; i < getSize(); i++) { unique_ptr<FC::PropertyMetaData> q(getByIndex(i)); if (q->getName() == k) return q.release(); } return nullptr; }
	uint32_t getSize() const override { return fiftyoneDegreesCollectionGetCount(h.d->c[1]); }
};
struct TMeta : FC::MetaData {
	TMeta(shared_ptr<RM> m) : FC::MetaData(m) { C->metas++; } ~TMeta() { C->metas--; }
	FC::Collection<string, FC::PropertyMetaData> *getProperties() const override { return new TProps(manager); }
	string text(uint32_t i, int &ver) const { Hold h(manager.get()); ver = h.d->ver; auto &k = C->v[(size_t)ver].im.c[0]; return i % 2 ? Build::str(h.d->c[0], k.off[i % k.n]) : const_cast<TMeta *>(this)->getString(h.d->c[0], k.off[i % k.n]); }
	FC::Collection<unsigned char, FC::ComponentMetaData> *getComponents() const override { return nullptr; }
	FC::Collection<uint32_t, FC::ProfileMetaData> *getProfiles() const override { return nullptr; }
	FC::Collection<FC::ValueMetaDataKey, FC::ValueMetaData> *getValues() const override { return nullptr; }
	FC::Collection<FC::ValueMetaDataKey, FC::ValueMetaData> *getValuesForProperty(FC::PropertyMetaData *) const override { return nullptr; }
	FC::Collection<FC::ValueMetaDataKey, FC::ValueMetaData> *getValuesForProfile(FC::ProfileMetaData *) const override { return nullptr; }
	FC::ComponentMetaData *getComponentForProfile(FC::ProfileMetaData *) const override { return nullptr; }
	FC::ComponentMetaData *getComponentForProperty(FC::PropertyMetaData *) const override { return nullptr; }
	FC::ProfileMetaData *getDefaultProfileForComponent(FC::ComponentMetaData *) const override { return nullptr; }
	FC::ValueMetaData *getDefaultValueForProperty(FC::PropertyMetaData *) const override { return nullptr; }
	FC::Collection<string, FC::PropertyMetaData> *getPropertiesForComponent(FC::ComponentMetaData *) const override { return nullptr; }
	FC::PropertyMetaData *getPropertyForValue(FC::ValueMetaData *) const override { return nullptr; }
	FC::Collection<string, FC::PropertyMetaData> *getEvidencePropertiesForProperty(FC::PropertyMetaData *) const override { return nullptr; }
};
int nval(uint32_t pi) { return (int)((pi + 1) % 3); } // values of a property
const char *const NOTEXT = "nothing here"; const char *NOVAL = NOTEXT; // what results say about missing values, or nothing
struct TResults : FC::ResultsBase {
	fiftyoneDegreesResultsBase *r; DS *d;
	TResults(fiftyoneDegreesResultsBase *r_, shared_ptr<RM> m) : FC::ResultsBase(r_, m), r(r_), d((DS *)r_->dataSet) {}
	~TResults() { hold(d, -1); fiftyoneDegreesDataSetRelease(&d->b); fiftyoneDegreesFree(r); }
	bool valid(int i) { return i >= 0 && i < (int)available->count; }
	void getValuesInternal(int i, vector<string> &v) override { uint32_t pi = available->items[i].propertyIndex; for (int k = 0; k < nval(pi); k++) { uint32_t w[3]; read32(d->c[3], (pi + (uint32_t)k) % fiftyoneDegreesCollectionGetCount(d->c[3]), 3, w); v.push_back(valueText(w[1])); } }
	bool hasValuesInternal(int i) override { return valid(i) && (C->p->get("lazy") || nval(available->items[i].propertyIndex) > 0); }
	const char *getNoValueMessageInternal(fiftyoneDegreesResultsNoValueReason) override { return NOVAL; }
	fiftyoneDegreesResultsNoValueReason getNoValueReasonInternal(int i) override { return valid(i) ? FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_RESULT_FOR_PROPERTY : FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY; }
};
struct TEngine : FC::EngineBase {
	TEngine(FC::ConfigBase *cf, FC::RequiredPropertiesConfig *rq, const char *file) : FC::EngineBase(cf, rq) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE;
		DS *d = (DS *)fiftyoneDegreesMalloc(sizeof(DS)); if (!d) throw FC::StatusCodeException(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, file);
		auto st = initFile(d, &C->cfg, rq->getConfig(), file, exception); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) throw FC::StatusCodeException(st, file);
		fiftyoneDegreesResourceManagerInit(manager.get(), d, &d->b.handle, freeDS); if (!d->b.handle) { freeDS(d); throw FC::StatusCodeException(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, file); }
		FIFTYONE_DEGREES_EXCEPTION_THROW;
		metaData = new TMeta(manager); Hold h(manager.get()); initHttpHeaderKeys(h.d->b.uniqueHeaders); if (C->p->get("arr")) initHttpHeaderKeys(h.d->b.uniqueHeaders); initOverrideKeys(nullptr);
		uint32_t dummy = 0; auto ov = fiftyoneDegreesOverridePropertiesCreate(h.d->b.available, !C->p->get("plain"), &dummy, [](void *, uint32_t) { return true; }); if (!ov) throw FC::StatusCodeException(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, file);
		struct F { fiftyoneDegreesOverridePropertyArray *o; ~F() { fiftyoneDegreesOverridePropertiesFree(o); } } f{ov}; initOverrideKeys(ov); if (C->p->get("arr")) initOverrideKeys(ov);
	}
	FC::ResultsBase *processBase(FC::EvidenceBase *e) const override {
		if (e && !e->get()) throw FC::StatusCodeException(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY);
		auto r = (fiftyoneDegreesResultsBase *)fiftyoneDegreesMalloc(sizeof(fiftyoneDegreesResultsBase)); if (!r) throw FC::StatusCodeException(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY);
		DS *d = (DS *)fiftyoneDegreesDataSetGet(manager.get()); hold(d, 1); fiftyoneDegreesResultsInit(r, d);
		try { return new TResults(r, manager); } catch (...) { hold(d, -1); fiftyoneDegreesDataSetRelease(&d->b); fiftyoneDegreesFree(r); throw; }
	}
	void refreshData(const char *f) const override { FIFTYONE_DEGREES_EXCEPTION_CREATE; auto st = fiftyoneDegreesDataSetReloadManagerFromFile(manager.get(), f, sizeof(DS), initFile, exception); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) throw FC::StatusCodeException(st, f); FIFTYONE_DEGREES_EXCEPTION_THROW; }
	void refreshData() const override { refreshData(MASTER); } void refreshData(void *, long) const override {} void refreshData(unsigned char[], long) const override {}
	string product(uint32_t i, int &ver) const { Hold h(manager.get()); ver = h.d->ver; stringstream s; appendString(s, h.d->c[0], C->v[(size_t)ver].im.c[0].off[i % C->v[(size_t)ver].im.c[0].n]); return s.str(); }
	string getDataFilePath() const override { return ""; } string getDataFileTempPath() const override { return ""; } FC::Date getPublishedTime() const override { return FC::Date(); } FC::Date getUpdateAvailableTime() const override { return FC::Date(); } string getProduct() const override { return "p"; } string getType() const override { return "t"; }
	long shares() const { return manager.use_count(); }
};
// runs fn; failures must be those of the C++ interface, only under faults, with a code and the message of that code
bool guarded(const char *what, std::function<void()> fn, bool mayFail = false, const char *file = nullptr) {
	uint64_t f0 = faultsFiredBy(tid()), m0 = faultsFired(FK_MALLOC); string err; int code = -1; bool status = false, any = false;
	try { fn(); } catch (FC::StatusCodeException &e) { any = status = true; err = e.what(); code = (int)e.getCode(); } catch (std::bad_alloc &) { any = true; err = "bad_alloc"; } catch (std::exception &e) { violation("wrong-exception", "%s threw '%s' which is not the documented exception", what, e.what()); }
	if (!any) return true; bool faulted = faultsFiredBy(tid()) != f0; NOP; eventf("%s failed: code %d", what, code);
	SIM_CHECK(faulted || mayFail, "spurious-failure", "%s failed although nothing was wrong: code %d, %s", what, code, err.c_str());
	if (status) { SIM_CHECK(code > 0 && code != FIFTYONE_DEGREES_STATUS_NOT_SET && code <= FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR, "wrong-exception", "%s failed with the code %d, which is no failure (%s)", what, code, err.c_str()); auto sc = (fiftyoneDegreesStatusCode)code; bool om = faultsFired(FK_MALLOC) != m0; SIM_CHECK(err.find(msgOf(sc, nullptr)) != string::npos || (file && err.find(msgOf(sc, file)) != string::npos) || (om && (err.empty() || err.find("does not have any message") != string::npos)), "wrong-exception", "%s failed with code %d but says '%s'", what, code, err.c_str()); probe("status_exceptions"); }
	return false;
}
vector<string> expectProps(const Ver &v) { vector<string> o; for (auto &s : v.props) { bool in = C->reqList.empty(); for (auto &q : C->reqList) in |= !strcasecmp(q.c_str(), s.c_str()); if (in) o.push_back(s); } std::sort(o.begin(), o.end(), [](const string &a, const string &b) { return strcasecmp(a.c_str(), b.c_str()) < 0; }); return o; }
vector<string> expectValues(const Ver &v, const string &prop) { uint32_t pi = 0; while (v.props[pi] != prop) pi++; vector<string> o; auto &c = v.im.c[3]; for (int k = 0; k < nval(pi); k++) { uint32_t w; memcpy(&w, v.im.b.data() + c.start + c.off[(pi + (uint32_t)k) % c.n] + 4, 4); o.push_back(valueText(w)); } return o; }
template <class T, class E> void expectThrow(FC::Value<T> &v, const char *what, const char *msg) { try { v.getValue(); violation("wrong-result", "%s gave a value", what); } catch (E &e) { FaultMask fm(false); string want = msg ? msg : E().what(); SIM_CHECK(!want.empty() && want == e.what(), "wrong-exception", "%s threw '%s'", what, e.what()); } }
void useResults(TResults &r, int ver, Rng g) {
	Ver &v = C->v[(size_t)ver]; auto names = expectProps(v); SIM_CHECK(r.getAvailableProperties() == (int)names.size(), "wrong-data", "results of version %d have %d properties instead of %zu", ver, r.getAvailableProperties(), names.size());
	vector<string> got; if (guarded("getProperties", [&] { got = r.getProperties(); })) SIM_CHECK(got == names, "wrong-data", "the properties of results of version %d are others", ver);
	for (int t = 0; t < 2; t++) {
		int i = (int)g.below(names.size() + 1) - (g.chance(1, 8) ? 2 : 0); bool known = i >= 0 && i < (int)names.size(); string n = known ? names[(size_t)i] : "Nonesuch"; auto want = known ? expectValues(v, n) : vector<string>(); if (!known && i >= 0) i = (int)names.size();
		bool has = known; guarded("containsProperty", [&] { has = r.containsProperty(n); }); SIM_CHECK(has == known, "wrong-data", "containsProperty(%s) is %d", n.c_str(), !known); string pn; if (guarded("getPropertyName", [&] { pn = r.getPropertyName(i); })) SIM_CHECK(pn == (known ? n : ""), "wrong-data", "property %d of version %d is '%s' instead of '%s'", i, ver, pn.c_str(), n.c_str());
		string joined; for (size_t k = 0; k < want.size(); k++) joined += (k ? "|" : "") + want[k]; bool byName = g.chance(1, 2) || !known; string vn = n; if (byName && g.chance(1, 2)) for (auto &ch : vn) ch = (char)toupper(ch);
		const char *none = known && C->p->get("lazy") ? nullptr : NOVAL; // the results say there are values and then have none
		switch (g.below(5)) {
		case 0: { FC::Value<string> x; if (!guarded("getValueAsString", [&] { x = byName ? r.getValueAsString(vn) : r.getValueAsString(i); })) break; if (!known) expectThrow<string, FC::InvalidPropertyException>(x, "unknown property", none); else if (want.empty()) expectThrow<string, FC::NoValuesAvailableException>(x, "property without values", none); else SIM_CHECK(x.hasValue() && x.getValue() == joined, "wrong-data", "'%s' of version %d is '%s' instead of '%s'", n.c_str(), ver, x.getValue().c_str(), joined.c_str()); break; }
		case 1: { FC::Value<int> x; if (!guarded("getValueAsInteger", [&] { x = byName ? r.getValueAsInteger(vn.c_str()) : r.getValueAsInteger(i); })) break; if (!known) expectThrow<int, FC::InvalidPropertyException>(x, "unknown property", none); else if (want.empty()) expectThrow<int, FC::NoValuesAvailableException>(x, "property without values", none); else if (want.size() > 1) expectThrow<int, FC::TooManyValuesException>(x, "property of several values", nullptr); else SIM_CHECK(x.getValue() == atoi(want[0].c_str()), "wrong-data", "'%s' of version %d is %d instead of %s", n.c_str(), ver, x.getValue(), want[0].c_str()); break; }
		case 2: { FC::Value<bool> x; if (!guarded("getValueAsBool", [&] { x = byName ? r.getValueAsBool(&vn) : r.getValueAsBool(i); })) break; if (!known) expectThrow<bool, FC::InvalidPropertyException>(x, "unknown property", none); else if (want.empty()) expectThrow<bool, FC::NoValuesAvailableException>(x, "property without values", none); else if (want.size() > 1) expectThrow<bool, FC::TooManyValuesException>(x, "property of several values", nullptr); else SIM_CHECK(x.getValue() == (want[0] == "True"), "wrong-data", "'%s' of version %d is %d for %s", n.c_str(), ver, x.getValue(), want[0].c_str()); break; }
		case 3: { FC::Value<double> x; if (!guarded("getValueAsDouble", [&] { x = byName ? r.getValueAsDouble(vn) : r.getValueAsDouble(i); })) break; if (!known) expectThrow<double, FC::InvalidPropertyException>(x, "unknown property", none); else if (want.empty()) expectThrow<double, FC::NoValuesAvailableException>(x, "property without values", none); else if (want.size() > 1) expectThrow<double, FC::TooManyValuesException>(x, "property of several values", nullptr); else SIM_CHECK(x.getValue() == strtod(want[0].c_str(), nullptr), "wrong-data", "'%s' of version %d is %f for %s", n.c_str(), ver, x.getValue(), want[0].c_str()); break; }
		default: { FC::Value<vector<string>> x; if (!guarded("getValues", [&] { x = byName ? r.getValues(vn) : r.getValues(i); })) break; if (!known) expectThrow<vector<string>, FC::InvalidPropertyException>(x, "unknown property", none); else if (want.empty() && C->p->get("lazy")) SIM_CHECK(x.hasValue() && x.getValue().empty(), "wrong-data", "the values of '%s' are not an empty list", n.c_str()); else if (want.empty()) expectThrow<vector<string>, FC::NoValuesAvailableException>(x, "property without values", none); else SIM_CHECK(x.getValue() == want, "wrong-data", "the values of '%s' of version %d are others", n.c_str(), ver); }
		}
	}
}
void useProps(TProps &c, int ver, Rng g) {
	Ver &v = C->v[(size_t)ver]; SIM_CHECK(c.getSize() == v.nProp, "wrong-data", "a collection of version %d has %u properties instead of %u", ver, c.getSize(), v.nProp); uint32_t i = (uint32_t)g.below(v.nProp); unique_ptr<FC::PropertyMetaData> q; bool key = g.chance(1, 3);
	if (!guarded("metadata", [&] { q.reset(key ? c.getByKey(v.props[i]) : c.getByIndex(i)); })) return; string n = v.props[i]; unique_ptr<FC::PropertyMetaData> copy; guarded("copying metadata", [&] { copy.reset(new FC::PropertyMetaData(q.get())); }); FaultMask fm(false); SIM_CHECK(q, "wrong-data", "property %u of a collection of version %d is missing", i, ver); uint32_t nev; { auto &k = v.im.c[1]; memcpy(&nev, v.im.b.data() + k.start + k.off[i] + 4, 4); } string bad = samePm(*q, n, i, nev); SIM_CHECK(bad.empty(), "wrong-data", "the %s of property %u of a collection of version %d is not that of '%s'", bad.c_str(), i, ver, n.c_str()); if (copy) { bad = samePm(*copy, n, i, nev); SIM_CHECK(bad.empty() && *copy == *q, "wrong-data", "a copied property differs: %s", bad.c_str()); }
	if (g.chance(1, 3)) { FaultMask fm(true); string pn = "a property with a long name " + n, vn = "a long value of it " + std::to_string(i); unique_ptr<FC::ValueMetaData> x, y; unique_ptr<FC::ComponentMetaData> cm; unique_ptr<FC::ProfileMetaData> pm; if (guarded("entities", [&] { x.reset(new FC::ValueMetaData(FC::ValueMetaDataKey(pn, vn), "about " + vn, "url of " + vn)); y.reset(new FC::ValueMetaData(x.get())); FC::ComponentMetaData c0((unsigned char)i, pn, i + 7); cm.reset(new FC::ComponentMetaData(&c0)); FC::ProfileMetaData p0(i + 9, (unsigned char)i); pm.reset(new FC::ProfileMetaData(&p0)); })) { FaultMask f2(false); SIM_CHECK(*y == *x && y->getName() == vn && y->getKey().getPropertyName() == pn && y->getDescription() == "about " + vn && y->getUrl() == "url of " + vn, "wrong-data", "a copied value differs"); SIM_CHECK(cm->getName() == pn && cm->getComponentId() == i && cm->getComponentIdAsInt() == (int)i && cm->getDefaultProfileId() == i + 7 && pm->getProfileId() == i + 9 && pm->getComponentId() == i, "wrong-data", "a copied component or profile differs"); } }
	if (!key) { fiftyoneDegreesStatusCode got = FIFTYONE_DEGREES_STATUS_SUCCESS; string w; try { unique_ptr<FC::PropertyMetaData> z(c.getByIndex(v.nProp + i)); violation("wrong-result", "a property past the end was returned"); } catch (FC::FatalException &e) { got = e.getCode(); w = e.what(); } SIM_CHECK(got == FIFTYONE_DEGREES_STATUS_COLLECTION_INDEX_OUT_OF_RANGE && w.find(msgOf(got, nullptr)) != string::npos, "wrong-exception", "a property past the end raised code %d, '%s'", (int)got, w.c_str()); }
}
void codes(Rng g) {
	auto sc = (fiftyoneDegreesStatusCode)g.range(1, FIFTYONE_DEGREES_STATUS_TEMP_FILE_ERROR); const char *f = g.pick({"a.dat", "/data/x.dat"}); Ex e; e.v.file = "f.c"; e.v.func = "fn"; e.v.line = 7; e.v.status = sc; uint64_t f0 = faultsFiredBy(tid()); int kind = (int)g.below(3);
	try { if (kind == 0) throw FC::StatusCodeException(sc); if (kind == 1) throw FC::StatusCodeException(sc, f); throw FC::FatalException(e.p); }
	catch (FC::StatusCodeException &x) { bool fl = faultsFiredBy(tid()) != f0; SIM_CHECK(x.getCode() == sc, "wrong-exception", "an exception for code %d carries %d", (int)sc, (int)x.getCode()); string w = x.what(); if (!fl) SIM_CHECK(kind == 2 ? w.find(msgOf(sc, nullptr)) != string::npos && w.find("f.c") != string::npos && w.find("fn") != string::npos : w == msgOf(sc, kind ? f : nullptr), "wrong-exception", "an exception for code %d says '%s'", (int)sc, w.c_str()); }
	catch (std::bad_alloc &) { SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "bad_alloc"); }
}
// a configuration, its readers and copies of what it says
void conf(Rng g, FC::RequiredPropertiesConfig *shared, const vector<string> &sharedWant, bool faults) {
	auto check = [&](FC::RequiredPropertiesConfig &q, const vector<string> &want, const char *what) { vector<string> got; switch (g.below(4)) { case 0: if (guarded("getProperties", [&] { got = q.getProperties(); })) SIM_CHECK(got == want, "config-changed", "%s lists %zu properties instead of %zu", what, got.size(), want.size()); break; case 1: SIM_CHECK(q.getCount() == (int)want.size(), "config-changed", "%s counts %d properties instead of %zu", what, q.getCount(), want.size()); break; case 2: { size_t i = g.below(want.size()); SIM_CHECK(q.containsProperty(want[i].c_str()), "config-changed", "%s does not contain '%s'", what, want[i].c_str()); break; } default: { bool in = false; size_t i = g.below(want.size()); if (guarded("containsProperty", [&] { in = q.containsProperty(want[i]); })) SIM_CHECK(in, "config-changed", "%s does not contain '%s'", what, want[i].c_str()); } SIM_CHECK(!q.containsProperty("Nonesuch"), "config-changed", "%s contains an unknown property", what); } };
	auto others = [&](FC::RequiredPropertiesConfig &q, const vector<string> &want) { string n = want[g.below(want.size())], up = n; for (auto &ch : up) ch = (char)(g.chance(1, 2) ? toupper(ch) : tolower(ch)); SIM_CHECK(q.containsProperty(up.c_str()), "config-changed", "a configuration of '%s' does not contain '%s'", n.c_str(), up.c_str()); string x = n; switch (g.below(5)) { case 0: x += "x"; break; case 1: x.pop_back(); break; case 2: x[g.below(x.size())] = '~'; break; case 3: x = x.substr(1); break; default: x = ""; } bool in = false; for (auto &w : want) in |= !strcasecmp(w.c_str(), x.c_str()); SIM_CHECK(q.containsProperty(x.c_str()) == in, "config-changed", "a configuration of %zu properties, one of them '%s', %s '%s'", want.size(), n.c_str(), in ? "does not contain" : "contains", x.c_str()); };
	if (shared) { others(*shared, sharedWant); for (int i = 0; i < 3; i++) check(*shared, sharedWant, "a shared configuration"); return; }
	vector<string> w; int n = (int)g.range(1, g.chance(1, 6) ? 24 : 4); bool gaps = g.chance(1, 4); string s; for (int i = 0; i < n; i++) { w.push_back(g.chance(1, 4) ? string(1, (char)('A' + g.below(4))) : "Prop" + std::to_string(g.below(20))); s += (i ? "," : ""); if (gaps) s += string(g.below(3), ','); s += w.back(); } if (gaps) s += string(g.below(3), ','); bool arr = g.chance(1, 2), ptr = g.chance(1, 2); unique_ptr<FC::RequiredPropertiesConfig> q;
	if (guarded("RequiredPropertiesConfig", [&] { q.reset(arr ? ptr ? new FC::RequiredPropertiesConfig(const_cast<const vector<string> *>(&w)) : new FC::RequiredPropertiesConfig(&w) : ptr ? new FC::RequiredPropertiesConfig(&s) : new FC::RequiredPropertiesConfig(s)); })) { others(*q, w); for (int i = 0; i < 4; i++) check(*q, w, arr ? "a configuration from a list" : "a configuration from a string"); auto c = q->getConfig(); SIM_CHECK(arr ? c->count == n && w[0] == c->array[0] : s == c->string, "config-changed", "the configuration holds other properties than it was given"); }
	fiftyoneDegreesConfigBase cb; memset(&cb, 0, sizeof cb); { FC::ConfigBase cf(&cb); bool up = false, tmp = false, re = false; auto flags = [&] { SIM_CHECK(cb.usesUpperPrefixedHeaders == up && cb.useTempFile == tmp && cb.reuseTempFile == re && cf.getUseUpperPrefixHeaders() == up && cf.getUseTempFile() == tmp && cf.getReuseTempFile() == re && cf.getConcurrency() == 0 && !cb.freeData && !cb.allInMemory, "config-changed", "a configuration says other things than were set"); }; for (int k = (int)g.below(6); k > 0; k--) { bool b = g.chance(1, 2); switch (g.below(3)) { case 0: cf.setUseUpperPrefixHeaders(up = b); break; case 1: cf.setUseTempFile(tmp = b); break; default: cf.setReuseTempFile(re = b); } flags(); }
		for (int k = 0; k < 2; k++) { vector<string> dirs; int d = (int)g.below(4); for (int i = 0; i < d; i++) dirs.push_back("/tmp" + string(g.below(40), (char)(97 + i))); if (guarded("setTempDirectories", [&] { cf.setTempDirectories(dirs); })) { FaultMask fm(false); SIM_CHECK(cb.tempDirCount == d && cf.getTempDirectories() == dirs, "config-changed", "%d temporary directories instead of %d", cb.tempDirCount, d); for (int i = 0; i < d; i++) SIM_CHECK(dirs[(size_t)i] == cb.tempDirs[i], "config-changed", "temporary directory %d is '%s'", i, cb.tempDirs[i]); } else { SIM_CHECK(cb.tempDirCount == 0 || cb.tempDirs, "config-changed", "after a failed call there are %d temporary directories without names", cb.tempDirCount); for (int i = 0; i < cb.tempDirCount; i++) SIM_CHECK(sim_strlen(cb.tempDirs[i]) >= 4, "config-changed", "after a failed call temporary directory %d is '%s'", i, cb.tempDirs[i]); } } } SIM_CHECK(!cb.tempDirs && !cb.tempDirCount, "config-changed", "temporary directories are left after the configuration is gone");
}
// configurations of collections, dates and addresses say what they were given
// what says nothing yet says so, and the reasons for no value lead to the exceptions that are documented for them
void emptyThings(Rng g) {
	using IP = FiftyoneDegrees::IpIntelligence::IpAddress; unsigned char zero[16] = {0}; unsigned char raw[16]; for (auto &b : raw) b = (unsigned char)g.below(256);
	switch (g.below(7)) {
	case 4: { FC::RequiredPropertiesConfig q; vector<string> l; if (!guarded("getProperties", [&] { l = q.getProperties(); })) break; SIM_CHECK(!q.getCount() && l.empty() && !q.containsProperty("") && !q.containsProperty("Prop1"), "config-changed", "a configuration of no properties has some"); break; }
	case 0: { FC::Date d; SIM_CHECK(!d.getYear() && !d.getMonth() && !d.getDay(), "config-changed", "a date of nothing says %d-%d-%d", d.getYear(), d.getMonth(), d.getDay()); break; }
	case 1: { unique_ptr<IP> a; if (!guarded("IpAddress", [&] { a.reset(g.chance(1, 2) ? new IP() : new IP(raw, FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID)); })) break; SIM_CHECK(a->getType() == FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID && !memcmp(a->getIpAddress(), zero, 16), "config-changed", "an address of nothing says something"); break; }
	case 2: { unique_ptr<FC::ComponentMetaData> c; unique_ptr<FC::ProfileMetaData> q; if (!guarded("metadata", [&] { c.reset(new FC::ComponentMetaData()); q.reset(new FC::ProfileMetaData()); })) break; FaultMask fm(false); SIM_CHECK(c->getComponentId() == 255 && c->getName() == "invalid" && c->getDefaultProfileId() == 0 && q->getProfileId() == 0 && q->getComponentId() == 255, "wrong-data", "a component or profile of nothing is not the invalid one"); break; }
	case 3: { unique_ptr<FC::PropertyMetaData> q; unique_ptr<FC::ValueMetaData> v; unique_ptr<FC::ValueMetaDataKey> k; if (!guarded("metadata", [&] { q.reset(new FC::PropertyMetaData()); v.reset(new FC::ValueMetaData()); k.reset(new FC::ValueMetaDataKey()); })) break; FaultMask fm(false); string bad = "invalid"; SIM_CHECK(q->getName() == bad && q->getType() == bad && q->getCategory() == bad && q->getUrl() == bad && q->getDescription() == bad && q->getDefaultValue() == bad && q->getDisplayOrder() == 255 && q->getComponentId() == 255 && !q->getAvailable() && !q->getIsMandatory() && !q->getIsList() && !q->getIsObsolete() && !q->getShow() && !q->getShowValues() && q->getEvidenceProperties().empty() && q->getDataFilesWherePresent().empty(), "wrong-data", "a property of nothing is not the invalid one"); SIM_CHECK(v->getName() == bad && v->getDescription() == bad && v->getUrl() == bad && v->getKey().getPropertyName() == bad && k->getValueName() == bad && k->getPropertyName() == bad, "wrong-data", "a value of nothing is not the invalid one"); break; }
	default: {
		static const fiftyoneDegreesResultsNoValueReason rs[] = {FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_DIFFERENCE, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_RESULT_FOR_PROPERTY, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_RESULTS, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NULL_PROFILE};
		FaultMask fm(false); FC::Value<int> v; bool set = g.chance(7, 8); auto why = rs[g.below(7)]; const char *msg = g.chance(1, 2) ? "for a reason" : nullptr; if (set) v.setNoValueReason(why, msg); else { why = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN; msg = nullptr; } SIM_CHECK(!v.hasValue() && v.getNoValueReason() == why && v.getNoValueMessage() == msg, "wrong-result", "a value of nothing gives another reason");
		FC::Value<int> w = v; if (why == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY) expectThrow<int, FC::InvalidPropertyException>(w, "a property that is not there", msg); else if (why == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES) expectThrow<int, FC::TooManyValuesException>(w, "too many values", nullptr); else expectThrow<int, FC::NoValuesAvailableException>(w, "no value", why == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NULL_PROFILE ? nullptr : msg);
		int x = (int)g.next(); w.setValue(x); SIM_CHECK(w.hasValue() && w.getValue() == x && *w == x && !v.hasValue(), "wrong-result", "a value of %d is another", x); }
	}
	{ FaultMask fm(false); static const char *ns[] = {"a", "b", "ab", "ba"}; std::map<FC::ValueMetaDataKey, int> m; std::map<std::pair<string, string>, int> w; for (int i = 0; i < 12; i++) { string a = ns[g.below(4)], b = ns[g.below(4)]; m[FC::ValueMetaDataKey(a, b)] = w[{a, b}] = i; } for (auto &x : m) for (auto &y : m) { auto a = x.first, b = y.first; bool eq = a.getPropertyName() == b.getPropertyName() && a.getValueName() == b.getValueName(); SIM_CHECK((a == b) == eq && !((a < b) && (b < a)) && ((a < b) || (b < a)) == !eq, "wrong-data", "the keys %s %s and %s %s of values compare wrongly", a.getPropertyName().c_str(), a.getValueName().c_str(), b.getPropertyName().c_str(), b.getValueName().c_str()); } SIM_CHECK(m.size() == w.size(), "wrong-data", "%zu keys of values are told apart instead of %zu", m.size(), w.size()); for (auto &x : w) { auto it = m.find(FC::ValueMetaDataKey(x.first.first, x.first.second)); SIM_CHECK(it != m.end() && it->second == x.second && it->first.getPropertyName() == x.first.first && it->first.getValueName() == x.first.second, "wrong-data", "the key %s %s of a value is not found", x.first.first.c_str(), x.first.second.c_str()); } }
	probe("empty_things");
}
void smallThings(Rng g) {
	emptyThings(g);
	fiftyoneDegreesCollectionConfig cc = {1, 2, 3}; FC::CollectionConfig q(&cc); uint32_t l = 1, cap = 2; uint16_t con = 3;
	for (int k = (int)g.range(1, 5); k > 0; k--) { uint32_t x = (uint32_t)g.next(); if (g.chance(1, 3)) x &= 255; switch (g.below(3)) { case 0: q.setLoaded(l = x); break; case 1: q.setCapacity(cap = x); break; default: q.setConcurrency(con = (uint16_t)x); } SIM_CHECK(cc.loaded == l && cc.capacity == cap && cc.concurrency == con && q.getLoaded() == l && q.getCapacity() == cap && q.getConcurrency() == con && q.getConfig() == &cc, "config-changed", "the configuration of a collection says other things than were set"); }
	fiftyoneDegreesDate d; memset(&d, 0, sizeof d); d.year = (int16_t)g.range(1, 30000); d.month = (unsigned char)g.range(1, 12); d.day = (unsigned char)g.range(1, 31); FC::Date x(&d), y(x); SIM_CHECK(y.getYear() == d.year && y.getMonth() == d.month && y.getDay() == d.day, "config-changed", "a date says %d-%d-%d instead of %d-%d-%d", y.getYear(), y.getMonth(), y.getDay(), d.year, d.month, d.day);
	unsigned char raw[16], out[20]; for (auto &b : raw) b = (unsigned char)g.below(256); bool v4 = g.chance(1, 2), text = g.chance(1, 2); uint32_t len = v4 ? 4 : 16, size = (uint32_t)g.below(20); memset(out, 0xEE, sizeof out); using IP = FiftyoneDegrees::IpIntelligence::IpAddress; unique_ptr<IP> a; char s[64];
	if (v4) snprintf(s, sizeof s, "%d.%d.%d.%d", raw[0], raw[1], raw[2], raw[3]); else { int n = 0; for (int i = 0; i < 8; i++) n += snprintf(s + n, sizeof s - (size_t)n, "%s%x", i ? ":" : "", raw[2 * i] * 256 + raw[2 * i + 1]); }
	char *own; { NOP; own = (char *)heapData(s, strlen(s) + 1); } bool ok = guarded("IpAddress", [&] { a.reset(text ? new IP(own) : new IP(raw, v4 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6)); }); { NOP; heapFree(own); } if (!ok) return; SIM_CHECK(a->getType() == (v4 ? FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4 : FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6) && !memcmp(a->getIpAddress(), raw, len), "config-changed", "an address made from %s is another", s);
	a->getCopyOfIpAddress(out, size); uint32_t n = size < len ? size : len; SIM_CHECK(!memcmp(out, raw, n), "config-changed", "the copy of the address %s in %u bytes is another", s, size); for (uint32_t i = n; i < sizeof out; i++) SIM_CHECK(out[i] == 0xEE, "out-of-bounds", "the copy of the address %s in %u bytes wrote byte %u", s, size, i); probe(v4 ? "address4" : "address6");
}
struct Picky : FC::EvidenceBase { bool all = true; int only = 0; protected: bool isRelevant(fiftyoneDegreesEvidencePrefix p) override { return all || (int)p == only; } };
void evid(Rng g) {
	static const int prefixEnums[] = {FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_SERVER}; Picky e; if (g.chance(1, 3)) { e.all = false; e.only = prefixEnums[g.below(4)]; } std::map<string, string> m; int n = (int)g.range(1, 6); vector<string> ks; static const char *pf[] = {"header.", "query.", "cookie.", "server.", "other.", ""};
	for (int i = 0; i < n; i++) { string k = pf[g.below(6)] + string(1, (char)('a' + g.below(4))); e[k] = m[k] = std::to_string(i); }
	int steps = (int)g.range(3, 8); for (int t = 0; t < steps; t++) {
		uint64_t f0 = faultsFiredBy(tid()); auto a = e.get(); if (!a) SIM_CHECK(faultsFiredBy(tid()) != f0, "spurious-failure", "EvidenceBase::get failed although nothing was wrong"); else { std::vector<std::pair<int, std::pair<string, string>>> want; for (auto &x : m) for (int i = 0; i < 4; i++) { string q = pf[i]; if (x.first.size() > q.size() && x.first.compare(0, q.size(), q) == 0) { if (e.all || e.only == prefixEnums[i]) want.push_back({prefixEnums[i], {x.first.substr(q.size()), x.second}}); } } SIM_CHECK(a->count == want.size(), "wrong-result", "%u pieces of evidence instead of %zu", a->count, want.size()); for (size_t i = 0; i < want.size(); i++) SIM_CHECK((int)a->items[i].prefix == want[i].first && want[i].second.first == a->items[i].field && want[i].second.second == (const char *)a->items[i].originalValue, "wrong-result", "evidence %zu differs", i); }
		int times = (int)g.range(1, 3); while (times--) switch (g.below(5)) { // changes between two reads
		case 0: e.clear(); m.clear(); break;
		case 1: if (!m.empty()) { int i = (int)g.below(m.size()); e.erase(std::next(e.begin(), i)); m.erase(std::next(m.begin(), i)); } break;
		case 2: { int i = (int)g.below(m.size() + 1), j = (int)g.range(i, (int64_t)m.size()); e.erase(std::next(e.begin(), i), std::next(e.begin(), j)); m.erase(std::next(m.begin(), i), std::next(m.begin(), j)); break; }
		default: { FaultMask fm(false); string k = pf[g.below(6)] + string(1, (char)('a' + g.below(4))); e[k] = m[k] = std::to_string(t); } }
	}
}
void run(const Plan &p) {
	Ctx c{}; C = &c; D = &c; c.p = &p; c.T = (int)p.th.size() - 1; Rng r((uint64_t)p.get("img")); int nv = (int)p.get("versions"); for (int i = 0; i < nv; i++) c.v.push_back(mkVer(r, i, 5, 1)); c.kinds(p); c.cmp = -1;
	memset(&c.cfg, 0, sizeof c.cfg); c.cfg.allInMemory = p.get("mem"); c.cfg.usesUpperPrefixedHeaders = c.upper = p.get("upper"); if (p.get("temp")) { static const char *dirs[] = {"/tmp1"}; fs::mkdirs("/tmp1"); c.cfg.useTempFile = true; c.cfg.tempDirs = dirs; c.cfg.tempDirCount = 1; }
	for (int i = 0; i < nv; i++) { char f[32]; snprintf(f, sizeof f, "/data/v%d.dat", i); fs::put(f, c.v[(size_t)i].im.b); } fs::put(MASTER, c.v[0].im.b); bool clean = !p.get("faulty");
	if (p.get("props")) { c.reqList = {"Beta", "gamma", "Alpha"}; c.required = "Beta,gamma,Alpha"; }
	NOVAL = p.get("nomsg") ? nullptr : NOTEXT;
	uint64_t mark = heapMark(); const char **ownDirs = c.cfg.tempDirs; fiftyoneDegreesConfigBase other; memset(&other, 0, sizeof other); other.usesUpperPrefixedHeaders = c.upper; { FC::ConfigBase cf(&other); unique_ptr<FC::RequiredPropertiesConfig> rq; TEngine *e = nullptr; Op so; so.id = 8000;
	spawn([&] { // an engine, made under faults until it can be
		opBegin(so); for (int k = 0;; k++) {
			uint64_t m = heapMark(); { FaultMask fm(k < 3); if (guarded("engine", [&] { if (!rq) rq.reset(c.required.empty() ? new FC::RequiredPropertiesConfig() : new FC::RequiredPropertiesConfig(c.required)); m = heapMark(); e = new TEngine(&cf, rq.get(), MASTER); }, false, MASTER)) break; }
			SIM_CHECK(k < 3, "spurious-failure", "an engine can't be made although nothing is wrong"); probe("engine_failed"); SIM_CHECK(c.metas == 0, "leak", "metadata of an engine that was not made is left"); for (auto &a : c.alive) SIM_CHECK(!a.first, "leak", "the data set of an engine that was not made is left"); SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open after an engine was not made", fs::openCount()); if (rq) leakCheck(m, "after an engine was not made");
		}
		opEnd(); });
	joinAll(); Ver &v0 = c.v[0];
	{ std::vector<string> want; auto add = [&](const string &s) { if (std::find(want.begin(), want.end(), s) == want.end()) want.push_back(s); }; string up = c.upper ? "HTTP_" : ""; std::vector<string> hs; for (auto &h : v0.heads) if (h.find('\x1F') == string::npos) hs.push_back(h); for (auto &h : v0.heads) if (h.find('\x1F') != string::npos) { hs.push_back(h.substr(0, h.find('\x1F'))); hs.push_back(h.substr(h.find('\x1F') + 1)); } for (auto &h : hs) { add("header." + up + h); add("query." + up + h); } for (auto &s : expectProps(v0)) { string px = p.get("plain") ? "" : "51D_"; add("cookie." + px + s); add("query." + px + s); } auto got = *e->getKeys(); std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end()); SIM_CHECK(got == want, "wrong-data", "the engine lists %zu evidence keys instead of %zu", got.size(), want.size()); }
	spawn([&] { Op uo; uo.id = 8001; opBegin(uo); { FaultMask fm(false); SIM_CHECK(e->getDataUpdateUrl() == "" && !e->getAutomaticUpdatesEnabled(), "config-changed", "a new engine has an update address"); SIM_CHECK(e->getIsThreadSafe() == fiftyoneDegreesThreadingGetIsThreadSafe(), "config-changed", "the engine's thread safety is not that of the library"); }
		string k = "KEY" + std::to_string(c.v[0].nProp), u = "https://example.com/a?b=" + k; bool key = p.get("arr"), url = p.get("props"), okK = false, okU = false; if (key) okK = guarded("setLicenseKey", [&] { e->setLicenseKey(k); }); if (url) okU = guarded("setDataUpdateUrl", [&] { e->setDataUpdateUrl(u); }); string got; bool on = false; if (guarded("getDataUpdateUrl", [&] { got = e->getDataUpdateUrl(); on = e->getAutomaticUpdatesEnabled(); })) { FaultMask f2(false); string want = okU ? u : okK ? "https://distributor.51degrees.com/api/v2/download?LicenceKeys=" + k + "&Type=t&Product=p" : ""; if (!faultsFired(FK_MALLOC)) SIM_CHECK(got == want && on == !want.empty(), "config-changed", "the update address is '%s' instead of '%s'", got.c_str(), want.c_str()); } opEnd(); });
	joinAll();
	vector<string> cw = {"One", "Two", "Three", "Four"}; unique_ptr<FC::RequiredPropertiesConfig> sh; { FaultMask fm(false); sh.reset(p.get("arr") ? new FC::RequiredPropertiesConfig(&cw) : new FC::RequiredPropertiesConfig("One,Two,Three,Four")); }
	auto body = [&](int t) {
		TResults *rs[3] = {0}; int rv[3] = {0}; TProps *cs[2] = {0}; int cv[2] = {0};
		auto withEngine = [&](auto fn) { if (c.gone) return; c.users++; fn(); c.users--; };
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); int s = (int)(op.a % 3), k = (int)(op.a % 2); Rng g((uint64_t)op.b); uint64_t before = heapMark();
			switch (op.code) {
			case PROCESS: if (!rs[s]) withEngine([&] { FC::EvidenceBase ev; ev["query.a"] = "b"; if (guarded("process", [&] { rs[s] = (TResults *)e->processBase(g.chance(1, 2) ? &ev : nullptr); })) { rv[s] = rs[s]->d->ver; eventf("results of version %d", rv[s]); } }); break;
			case USE: if (rs[s]) { useResults(*rs[s], rv[s], g); if (c.gone) probe("results_after_engine"); } break;
			case DEL: if (rs[s]) { auto q = rs[s]; rs[s] = nullptr; delete q; if (c.gone) probe("results_deleted_after_engine"); } break;
			case COLL: if (!cs[k]) withEngine([&] { if (guarded("getProperties", [&] { cs[k] = (TProps *)e->getMetaData()->getProperties(); })) cv[k] = cs[k]->h.d->ver; }); break;
			case COLLUSE: if (cs[k]) { useProps(*cs[k], cv[k], g); if (c.gone) probe("collection_after_engine"); } break;
			case COLLDEL: if (cs[k]) { auto q = cs[k]; cs[k] = nullptr; delete q; } break;
			case META: withEngine([&] { int v = 0; string x; uint32_t i = (uint32_t)g.below(40); if (guarded("metadata string", [&] { x = ((TMeta *)e->getMetaData())->text(i, v); })) { auto &q = c.v[(size_t)v].im; auto &co = q.c[0]; SIM_CHECK(x == (const char *)(q.b.data() + co.start + co.off[i % co.n] + 2), "wrong-data", "string %u of version %d is '%s'", i % co.n, v, x.c_str()); } }); break;
			case PRODUCT: withEngine([&] { int v = 0; string x; uint32_t i = g.chance(1, 2) ? 0 : (uint32_t)g.below(40); if (guarded("appendString", [&] { x = e->product(i, v); })) { auto &q = c.v[(size_t)v].im; auto &co = q.c[0]; SIM_CHECK(x == (const char *)(q.b.data() + co.start + co.off[i % co.n] + 2) || faultsFired(FK_MALLOC), "wrong-data", "appended string %u of version %d is '%s'", i % co.n, v, x.c_str()); if (x.empty()) probe("empty_string_appended"); } }); break;
			case RELOAD: withEngine([&] { char f[32]; snprintf(f, sizeof f, "/data/v%d.dat", (int)(op.b % nv)); if (guarded("refreshData", [&] { e->refreshData(f); }, false, f)) probe("reloaded"); }); break;
			case RBAD: withEngine([&] { char f[40]; snprintf(f, sizeof f, "/data/bad%d.dat", c.nbad++); int want = FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND; if (g.chance(1, 2)) { Bytes b = c.v[(size_t)(op.b % nv)].im.b; b.resize(b.size() / 2); fs::put(f, b); want = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA; } int code = -1; uint64_t f0 = faultsFiredBy(tid()); string w; try { e->refreshData(f); violation("accepted-bad", "an engine was reloaded from a bad file"); } catch (FC::StatusCodeException &x) { code = (int)x.getCode(); w = x.what(); } catch (std::bad_alloc &) {} if (faultsFiredBy(tid()) == f0) SIM_CHECK(code == want && w == msgOf((fiftyoneDegreesStatusCode)want, f), "wrong-exception", "reloading a bad file raised code %d instead of %d: '%s'", code, want, w.c_str()); }); break;
			case DROP: if (!c.gone) { c.gone = true; while (c.users) yieldPoint(); delete e; eventf("engine deleted"); SIM_CHECK(c.metas == 0, "leak", "the metadata of the engine is left"); probe("engine_deleted"); } break;
			case CODES: codes(g); if (c.T == 1) leakCheck(before, "after raising an exception"); break;
			case CONF: conf(g, op.a % 2 ? sh.get() : nullptr, cw, !clean); break;
			case EVID: guarded("evidence", [&] { evid(g); }); break;
			case SMALL: smallThings(g); if (c.T == 1) leakCheck(before, "after making small objects"); break;
			}
			uint64_t sg = (uint64_t)op.code; for (auto &a : c.alive) if (a.first) sg = mix(sg, (uint64_t)a.second); state(mix(sg, (uint64_t)c.gone)); opEnd();
		}
		Op fe; fe.id = 9000 + t; opBegin(fe); for (int s = 0; s < 3; s++) if (rs[s]) { useResults(*rs[s], rv[s], Rng(5)); auto q = rs[s]; rs[s] = nullptr; delete q; } for (int k = 0; k < 2; k++) if (cs[k]) { useProps(*cs[k], cv[k], Rng(6)); auto q = cs[k]; cs[k] = nullptr; delete q; }
	};
	for (int t = 1; t <= c.T; t++) spawn([&, t] { body(t); });
	joinAll(); faultsOff(); Op fo; fo.id = 9500; opBegin(fo); if (!c.gone) { TResults *q = (TResults *)e->processBase(nullptr); delete e; SIM_CHECK(c.metas == 0, "leak", "the metadata of the engine is left"); useResults(*q, q->d->ver, Rng(9)); delete q; }
	sh.reset(); rq.reset(); }
	for (auto &a : c.alive) SIM_CHECK(!a.first, "leak", "a data set is alive after the engine and all results are gone"); SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open at the end", fs::openCount()); (void)ownDirs; leakCheck(mark, "after the engine and all its objects were destroyed");
}
void genC(Plan &p, Rng &r, bool faults) {
	int T = (int)r.range(1, 3), nv = (int)r.range(1, 3); p.set("img", (int64_t)r.below(1u << 30)); p.set("versions", nv); p.set("mem", r.chance(1, 3)); p.set("temp", r.chance(1, 4)); p.set("upper", r.below(2)); p.set("props", r.chance(1, 3)); p.set("arr", r.chance(1, 3)); p.set("conc", (int64_t)r.below(4)); p.set("nomsg", r.chance(1, 4)); p.set("lazy", r.chance(1, 6)); p.set("plain", r.chance(1, 4)); p.set("cxx", 1); p.set("step_cap", 6000000); p.set("heap", r.pick({0, 1, 2})); p.set("bufsz", r.pick({0, 16, 64}));
	char k[16]; for (int i = 0; i < 4; i++) { snprintf(k, sizeof k, "kind%d", i); p.set(k, r.range(LOADED, STREAM)); } int only = (int)p.get("only"), reloads = 0; bool texts = faults && r.chance(1, 4), drop = r.chance(1, 2);
	for (int t = 1; t <= T; t++) {
		p.th.resize((size_t)t + 1); int n = (int)r.range(4, 40 / T);
		for (int i = 0; i < n; i++) { int code = r.pick({PROCESS, PROCESS, USE, USE, USE, DEL, COLL, COLLUSE, COLLUSE, COLLDEL, META, RELOAD, RBAD, PRODUCT, CODES, CONF, CONF, EVID}); if (texts && r.chance(1, 2)) code = META; if (only) code = r.pick({CONF, CONF, CONF, EVID, EVID, SMALL, CODES}); if ((code == RELOAD || code == RBAD) && ++reloads > 5) code = USE; p.add(t, code, (int64_t)r.below(6), (int64_t)r.below(1u << 20)); if (drop && t == T && i == n / 2 && !only) p.add(t, DROP); }
	}
	if (faults) { p.set("faulty", 1);
		if (r.chance(1, 2)) p.set(r.pick({"fn_open", "fn_seek", "fn_tell", "fn_read_eio", "fn_early_eof", "fn_malloc", "fn_malloc", "fn_malloc"}), r.range(1, 80)); else { p.enable(FK_MALLOC, r.pick({0, 30, 200})); p.enable(FK_OPEN, r.pick({0, 100, 500})); p.enable(FK_READ_EIO, r.pick({0, 50, 500})); p.enable(FK_SEEK, r.pick({0, 50, 500})); p.enable(FK_EARLY_EOF, r.pick({0, 100})); p.set("f_max", r.range(1, 6)); } }
}
void gen(Plan &p, Rng &r) { genC(p, r, false); }
void genF(Plan &p, Rng &r) { genC(p, r, true); oomOnly(p, r, 150); }
SIM_SCENARIO(cpp, gen, run, opn);
SIM_SCENARIO(cpp_fault, genF, run, opn);
}
