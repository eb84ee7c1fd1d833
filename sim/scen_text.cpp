// Streaming text and YAML readers (C12).
#include "scn.h"
namespace {
typedef std::vector<uint8_t> Bytes;
enum { TEXT = 1, YAML };
const char *opn(int c) { static const char *n[] = {"", "read text", "read yaml"}; return n[c]; }
typedef std::vector<std::pair<std::string, std::string>> Doc;
struct TextFile { std::string bytes; std::vector<std::string> lines; size_t longest = 0; };
struct YamlFile { std::string bytes; std::vector<Doc> docs; size_t pairs = 0, key = 0, value = 0; };
std::string nl(Rng &r, int style) { return style == 0 ? "\n" : style == 1 ? "\r\n" : style == 2 ? "\r" : r.pick({0, 1}) ? "\r\n" : "\n"; }
TextFile mkText(Rng &r, int big) {
	TextFile f; int n = (int)r.below(r.chance(1, 4) ? 40 : 8), style = (int)r.below(4); int maxLen = r.pick({1, 3, 20, 60}); if (big == 1) { n = (int)r.pick({130, 300, 33000, 66000}); maxLen = (int)r.range(2, 5); } if (big == 2) { n = (int)r.range(1, 4); maxLen = 70000; }
	if (r.chance(1, 8)) { int k = (int)r.range(1, 4); for (int i = 0; i < k; i++) f.bytes += nl(r, style); f.lines.push_back(""); } // the empty line at the start
	for (int i = 0; i < n; i++) {
		std::string l((size_t)r.range(1, maxLen), ' '); for (auto &c : l) c = (char)r.range(32, 126); f.lines.push_back(l); f.longest = std::max(f.longest, l.size()); f.bytes += l;
		if (i + 1 < n || r.chance(1, 2)) { int k = r.chance(1, 5) ? (int)r.range(2, 4) : 1; while (k--) f.bytes += nl(r, style); }
	}
	return f;
}
std::string word(Rng &r, const char *set, int lo, int hi) { std::string s((size_t)r.range(lo, hi), ' '); size_t n = strlen(set); for (auto &c : s) c = set[r.below(n)]; return s; }
YamlFile mkYaml(Rng &r, int big) {
	YamlFile f; int nd = (int)r.below(6), style = (int)(r.chance(1, 2) ? 0 : r.below(4)); bool dots = r.chance(1, 2); if (big == 1) nd = (int)r.pick({130, 300}); if (big == 3) nd = 33000 + (int)r.below(100); if (big == 2 || big == 4) nd = (int)r.range(1, 2);
	for (int d = 0; d < nd; d++) {
		if (d || r.chance(4, 5)) { f.bytes += "---"; f.bytes += nl(r, style); }
		Doc doc; int np = (int)r.below(6); if (big == 4) np = (int)r.pick({126, 130, 260, 300}); if (big == 3) np = 1;
		for (int i = 0; i < np; i++) {
			std::string k = word(r, r.chance(1, 2) ? "abcXYZ09." : "abX0.-'_/", 1, 12), v = word(r, "abc XYZ09.:-'\"/()", 0, big == 2 && r.chance(1, 2) ? 70000 : big == 3 ? 2 : r.chance(1, 5) ? 80 : 20), raw = v; if (k[0] == '\'' || !k.compare(0, 3, "---") || !k.compare(0, 3, "...")) k[0] = 'k';
			if (r.chance(1, 3)) raw = "'" + v + "'"; else if (!v.empty() && v[0] == '\'') { v[0] = raw[0] = 'q'; }
			if (!v.empty() && raw == v && r.chance(1, 1)) {} 
			f.bytes += k + ":" + (raw.empty() && r.chance(1, 2) ? "" : " ") + raw; doc.push_back({k, v}); f.key = std::max(f.key, k.size()); f.value = std::max(f.value, raw.size());
			bool last = d + 1 == nd && i + 1 == np && !dots; if (!last || r.chance(1, 2)) { int q = r.chance(1, 8) ? 2 : 1; while (q--) f.bytes += nl(r, style); }
		}
		f.pairs = std::max(f.pairs, doc.size()); if (!doc.empty()) f.docs.push_back(doc);
	}
	if (dots) { f.bytes += "..."; f.bytes += nl(r, style); if (r.chance(1, 3)) f.bytes += "---\nafter: end\n"; }
	return f;
}
struct Got { std::vector<std::string> lines; std::vector<Doc> docs; int t; bool inCall; };
void onLine(const char *l, void *s) { Got *g = (Got *)s; SIM_CHECK(g->inCall, "late-callback", "the callback was called after the reader returned"); g->lines.push_back(l); yieldPoint(); }
void onDoc(fiftyoneDegreesKeyValuePair *k, uint16_t n, void *s) { Got *g = (Got *)s; SIM_CHECK(g->inCall, "late-callback", "the callback was called after the reader returned"); Doc d; for (uint16_t i = 0; i < n; i++) { heapCheck(&k[i], sizeof *k, false, "pairs given to the callback"); d.push_back({k[i].key, k[i].value}); } g->docs.push_back(d); yieldPoint(); }
std::string show(const Doc &d) { std::string s = "{"; for (auto &x : d) s += x.first + ": " + x.second + "; "; return s + "}"; }
void run(const Plan &p) {
	int T = (int)p.th.size() - 1; Rng r((uint64_t)p.get("img")); std::vector<TextFile> tf; std::vector<YamlFile> yf; char path[64];
	for (int i = 0; i < 3; i++) { int big = i == 1 ? (int)p.get("big") : 0; tf.push_back(mkText(r, big)); yf.push_back(mkYaml(r, big)); snprintf(path, sizeof path, "/data/t%d.txt", i); fs::put(path, Bytes(tf[(size_t)i].bytes.begin(), tf[(size_t)i].bytes.end())); snprintf(path, sizeof path, "/data/y%d.yml", i); fs::put(path, Bytes(yf[(size_t)i].bytes.begin(), yf[(size_t)i].bytes.end())); }
	uint64_t mark = heapMark();
	auto body = [&](int t) {
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); size_t i = (size_t)op.a % 3; int limit = (int)op.b; Got g; g.t = t; g.inCall = true; char file[64]; uint64_t f0 = faultsFiredBy(tid()); int open0 = fs::openCount(); bool missing = op.d % 16 == 15; uint64_t m0 = heapMark();
			if (op.code == TEXT) {
				TextFile &f = tf[i]; bool tooSmall = op.d % 13 == 12 && f.longest > 1; size_t need = f.longest + 2, len = tooSmall ? 1 + (size_t)op.c % f.longest : need + ((size_t)op.c % 3 ? (size_t)op.c % (f.bytes.size() + 20) : 0); snprintf(file, sizeof file, "/data/%s%d.txt", missing ? "none" : "t", (int)i);
				if (op.d % 7 == 6 && !tooSmall) { len = std::max(need, f.bytes.size() + (size_t)op.c % 3); if (len > need) len--; if ((op.d / 7) % 2 && f.bytes.size() > need) for (size_t k = need; k < f.bytes.size(); k++) if (f.bytes[k] == '\n') { len = k + (size_t)op.c % 3; len = std::max(need, len); break; } }
				if (f.lines.size() > 5000 && len < f.bytes.size()) len = std::max(need, std::min(len, (size_t)600)); // each line moves what the buffer still holds
				char *buf = (char *)heapAlloc(len, 1, false); memset(buf, '\n', len);
				if (limit == -2) fiftyoneDegreesTextFileIterate(file, buf, (int)len, &g, onLine); else fiftyoneDegreesTextFileIterateWithLimit(file, buf, (int)len, limit, &g, onLine);
				g.inCall = false; bool faulted = faultsFiredBy(tid()) != f0; eventf("text file %d, buffer %zu, limit %d: %zu lines%s", (int)i, len, limit, g.lines.size(), faulted ? " (faulted)" : ""); heapFree(buf);
				size_t want = missing ? 0 : limit < 0 ? f.lines.size() : std::min(f.lines.size(), (size_t)limit);
				if (!tooSmall) {
					for (size_t k = 0; k < g.lines.size(); k++) { SIM_CHECK(k < want, "extra-line", "%zu lines delivered, expected %zu", g.lines.size(), want); SIM_CHECK(g.lines[k] == f.lines[k], "wrong-line", "line %zu is \"%s\" instead of \"%s\" (buffer of %zu bytes)", k, g.lines[k].c_str(), f.lines[k].c_str(), len); }
					SIM_CHECK(g.lines.size() == want || faulted, "lost-line", "%zu of %zu lines delivered (buffer of %zu bytes, file of %zu)", g.lines.size(), want, len, f.bytes.size());
					if (!missing && !faulted) probe("text_read");
				} else probe("line_longer_than_buffer");
				state(mix(len % 64, mix(f.bytes.size() % 64, g.lines.size())));
			} else {
				YamlFile &f = yf[i]; snprintf(file, sizeof file, "/data/%s%d.yml", missing ? "none" : "y", (int)i); size_t len = op.c % 4 == 0 ? 1 + (size_t)op.c % 5 : op.c % 4 == 1 ? f.bytes.size() + (size_t)op.c % 3 : 1 + (size_t)op.c % 200; if (!len) len = 1;
				bool small = op.d % 13 == 12 && f.pairs > 0; size_t n = small ? (size_t)op.c % f.pairs + 0 : f.pairs + 1 + (size_t)op.c % 2; if (!n) n = 1; bool narrow = op.d % 13 == 11; size_t kl = narrow ? 3 : f.key + 1 + (size_t)op.c % 2, vl = narrow ? 4 : f.value + 2;
				auto *kv = (fiftyoneDegreesKeyValuePair *)heapAlloc(n * sizeof(fiftyoneDegreesKeyValuePair), 8, false); for (size_t k = 0; k < n; k++) { kv[k].key = (char *)heapAlloc(kl, 1, false); kv[k].keyLength = kl; kv[k].value = (char *)heapAlloc(vl, 1, false); kv[k].valueLength = vl; memset(kv[k].key, 'Q', kl - 1); kv[k].key[kl - 1] = 0; memset(kv[k].value, '\'', vl - 1); kv[k].value[vl - 1] = 0; }
				char *buf = (char *)heapAlloc(len, 1, false); fiftyoneDegreesStatusCode st = limit == -2 ? fiftyoneDegreesYamlFileIterate(file, buf, len, kv, (uint16_t)n, &g, onDoc) : fiftyoneDegreesYamlFileIterateWithLimit(file, buf, len, kv, (uint16_t)n, limit, &g, onDoc);
				g.inCall = false; bool faulted = faultsFiredBy(tid()) != f0; eventf("yaml file %d, buffer %zu, %zu pairs, limit %d: %zu documents, status %d%s", (int)i, len, n, limit, g.docs.size(), (int)st, faulted ? " (faulted)" : "");
				heapFree(buf); for (size_t k = 0; k < n; k++) { heapFree(kv[k].key); heapFree(kv[k].value); } heapFree(kv);
				size_t want = limit < 0 ? f.docs.size() : std::min(f.docs.size(), (size_t)limit);
				if (missing) SIM_CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS && g.docs.empty(), "unreported", "reading a missing file gave status %d", (int)st);
				else if (!small && !narrow) {
					for (size_t k = 0; k < g.docs.size(); k++) { SIM_CHECK(k < want, "extra-document", "%zu documents delivered, expected %zu", g.docs.size(), want); SIM_CHECK(g.docs[k] == f.docs[k], "wrong-document", "document %zu is %s instead of %s (buffer of %zu bytes)", k, show(g.docs[k]).c_str(), show(f.docs[k]).c_str(), len); }
					if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { SIM_CHECK(g.docs.size() == want, faulted ? "unreported" : "lost-document", "%zu of %zu documents delivered with success%s", g.docs.size(), want, faulted ? " although the file could not be read" : ""); probe("yaml_read"); }
					else { SIM_CHECK(faulted, "spurious-failure", "status %d although nothing failed", (int)st); probe("yaml_failed"); }
				} else { for (auto &d : g.docs) SIM_CHECK(d.size() <= n, "overrun", "%zu pairs delivered of an array of %zu", d.size(), n); if (small) probe("more_pairs_than_array"); }
				state(mix(len % 64, mix(f.bytes.size() % 64, g.docs.size())));
			}
			if (T == 1) { SIM_CHECK(fs::openCount() == open0, "handle-leak", "%d streams open after the reader returned", fs::openCount()); leakCheck(m0, "reader"); }
			opEnd();
		}
	};
	for (int t = 1; t <= T; t++) spawn([&, t] { body(t); });
	joinAll(); SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open at the end", fs::openCount()); leakCheck(mark, "end");
}
void gen(Plan &p, Rng &r) {
	int T = r.chance(2, 3) ? 1 : (int)r.range(2, 3); p.set("img", (int64_t)r.below(1u << 30)); p.set("bufsz", r.pick({0, 1, 2, 7, 64, 4096})); p.set("f_read_short", r.pick({0, 0, 1000, 5000})); p.set("f_max", 1000); bool big = r.chance(1, 250); if (big) p.set("big", r.range(1, 4)); // more than 8 or 16 bits can count
 p.set("heap", r.pick({0, 1, 2})); p.set("step_cap", big ? 2000000000 : 10000000); if (big) T = 1;
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = (int)r.range(2, 8); for (int i = 0; i < n; i++) p.add(t, r.pick({TEXT, YAML}), (int64_t)r.below(3), big ? r.pick({-2, -1, -1, 1, 128, 129, 256, 257, 32768}) : r.pick({-2, -1, -1, 0, 1, 2, 3, 5}), (int64_t)r.below(big && r.chance(1, 2) ? 100000 : 1000), (int64_t)r.below(1000)); }
	if (r.chance(1, 2)) { if (r.chance(1, 2)) p.set(r.pick({"fn_read_eio", "fn_read_eio", "fn_open"}), r.range(1, 30)); else { p.enable(FK_READ_EIO, r.pick({20, 300, 2000})); p.enable(FK_OPEN, r.pick({0, 300})); } }
}
SIM_SCENARIO(text, gen, run, opn);
}
