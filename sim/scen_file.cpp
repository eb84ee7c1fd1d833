// Whole-file operations (C09), temporary file creation (C10), clean-up and reuse (C11).
#include "scn.h"
extern "C" { FILE *sim_fopen(const char *, const char *); size_t sim_fread(void *, size_t, size_t, FILE *); int sim_fclose(FILE *); }
namespace {
typedef std::vector<uint8_t> Bytes;
typedef fiftyoneDegreesStatusCode SC;
const SC OK = FIFTYONE_DEGREES_STATUS_SUCCESS;
Bytes rbytes(Rng &r, size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t)r.next(); return b; }
std::map<std::string, Bytes> snapshot() { std::map<std::string, Bytes> m; for (auto &f : fs::listAll()) fs::get(f, m[f]); return m; }
// ================================================================= C09
enum { COPY = 1, WRITE, READ, SIZE, DEL, MKDIR, GPATH };
const char *opnF(int c) { static const char *n[] = {"", "copy", "write", "read", "size", "delete", "mkdir", "find path"}; return n[c]; }
const char *SRC[] = {"/data/a", "/data/b", "/data/empty", "/data/missing", "/data", "/data/noread", "/data/big"};
void runOps(const Plan &p) {
	Rng r((uint64_t)p.get("img")); std::map<std::string, Bytes> src; int T = (int)p.th.size() - 1;
	fs::mkdirs("/out/dir"); fs::mkdirs("/ro"); fs::put("/ro/old", rbytes(r, 10)); fs::setWritable("/ro", false);
	src["/data/a"] = rbytes(r, (size_t)p.get("sizeA")); src["/data/b"] = rbytes(r, (size_t)p.get("sizeB")); src["/data/big"] = rbytes(r, (size_t)r.range(8000, 40000)); src["/data/empty"] = {}; src["/data/noread"] = rbytes(r, 30);
	for (auto &x : src) fs::put(x.first, x.second); fs::setReadable("/data/noread", false);
	fs::put("/work/sub/inner/x", {1}); fs::put("/work/home/x.dat", {2}); fs::put("/work/home/y.dat", {3}); fs::setCwd(0, p.get("cwd") ? "/work/sub/inner" : "/work");
	uint32_t mask = (uint32_t)p.get("mask", 022); fs::setUmask(0, mask); fs::setMode("/data/b", 0600);
	size_t used = 0; for (auto &x : snapshot()) used += x.second.size(); if (p.get("cap") >= 0) fs::setCapacity((int64_t)used + p.get("cap"));
	bool full = p.get("cap") >= 0; uint64_t mark = heapMark();
	auto body = [&](int t) {
		uint64_t n = 0;
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); const char *s = SRC[(size_t)op.a % 7]; bool exist = src.count(s) && strcmp(s, "/data/noread"); char dst[64];
			switch (op.b % 6) { case 0: case 1: case 2: snprintf(dst, sizeof dst, "/out/t%d_%d", t, (int)(op.c % 3)); break; case 3: snprintf(dst, sizeof dst, "/ro/t%d", t); break; case 4: snprintf(dst, sizeof dst, "/nodir/t%d", t); break; default: snprintf(dst, sizeof dst, "/out/dir"); }
			bool dstOk = op.b % 6 < 3; uint64_t f0 = faultsFiredBy(tid()); Bytes before, now; bool had = fs::get(dst, before); uint32_t mode0 = had ? fs::modeOf(dst) : 0666; int open0 = fs::openCount(); uint64_t m0 = heapMark(); n++;
			auto faulted = [&] { return faultsFiredBy(tid()) != f0; }; auto rm = faultsFired(FK_REMOVE);
			if (op.code == COPY) {
				SC st = fiftyoneDegreesFileCopy(s, dst); bool have = fs::get(dst, now); eventf("copy %s to %s: %d%s", s, dst, (int)st, faulted() ? " (faulted)" : "");
				if (st == OK) { SIM_CHECK(exist, "unreported", "copying %s succeeded although it can not be read", s); SIM_CHECK(have && now == src[s], "incomplete", "copy succeeded but the destination has %zu bytes%s instead of %zu", now.size(), have ? "" : " (missing)", src[s].size()); probe("copied"); }
				else {
					SIM_CHECK(faulted() || full || !exist || !dstOk, "spurious-failure", "copying %s to %s failed with %d", s, dst, (int)st);
					SIM_CHECK((have == had && now == before) || !have || faultsFired(FK_REMOVE) > rm, "partial-left", "a failed copy (%d) left %zu bytes at the destination", (int)st, now.size()); probe("copy_failed");
				}
			} else if (op.code == WRITE) {
				Rng q((uint64_t)op.d); Bytes d = rbytes(q, op.d % 5 == 0 ? 0 : (size_t)(op.d % 9000)); void *mem = heapData(d.data(), d.size());
				SC st = fiftyoneDegreesFileWrite(dst, mem, d.size()); heapFree(mem); bool have = fs::get(dst, now); eventf("write %zu to %s: %d%s", d.size(), dst, (int)st, faulted() ? " (faulted)" : "");
				if (st == OK) { SIM_CHECK(have && now == d, "incomplete", "write succeeded but the file has %zu bytes instead of %zu", now.size(), d.size()); probe("written"); }
				else SIM_CHECK(faulted() || full || !dstOk, "spurious-failure", "writing %zu bytes to %s failed with %d", d.size(), dst, (int)st);
			} else if (op.code == READ) {
				fiftyoneDegreesMemoryReader rd; memset(&rd, 0, sizeof rd); SC st = fiftyoneDegreesFileReadToByteArray(s, &rd); eventf("read %s: %d%s", s, (int)st, faulted() ? " (faulted)" : "");
				if (st == OK) {
					SIM_CHECK(exist, "unreported", "reading %s succeeded", s); Bytes &w = src[s]; SIM_CHECK(rd.length == (long)w.size(), "incomplete", "%ld bytes read of %zu", rd.length, w.size());
					SIM_CHECK(rd.startByte && rd.current == rd.startByte && rd.lastByte == rd.startByte + rd.length, "wrong-reader", "the reader does not span the %zu bytes read", w.size());
					heapCheck(rd.current, w.size(), false, "read bytes"); SIM_CHECK(w.empty() || !memcmp(rd.current, w.data(), w.size()), "wrong-data", "the bytes read are not those of %s", s); fiftyoneDegreesMemoryStandardFree(rd.startByte); probe("read");
				} else { SIM_CHECK(faulted() || !exist || src[s].empty(), "spurious-failure", "reading %s failed with %d", s, (int)st); probe("read_failed"); }
			} else if (op.code == SIZE) {
				long z = fiftyoneDegreesFileGetSize(s); eventf("size of %s: %ld", s, z);
				if (exist) SIM_CHECK(z == (long)src[s].size() || (z < 0 && faulted()), "wrong-size", "the size of %s is given as %ld", s, z); else if (strcmp(s, "/data")) SIM_CHECK(z < 0, "unreported", "the size of %s is given as %ld", s, z);
			} else if (op.code == DEL) {
				SC st = fiftyoneDegreesFileDelete(dst); bool have = fs::exists(dst); eventf("delete %s: %d", dst, (int)st);
				if (st == OK) SIM_CHECK(!have, "unreported", "deleting %s succeeded but it exists", dst); else SIM_CHECK(faulted() || !had || !dstOk, "spurious-failure", "deleting %s failed with %d", dst, (int)st);
				if (op.b % 6 == 5 && st == OK) fs::mkdirs("/out/dir");
			} else if (op.code == MKDIR) {
				char d[64]; snprintf(d, sizeof d, "/out/d%d_%d", t, (int)op.c % 3); if (op.b % 6 == 3) snprintf(d, sizeof d, "/ro/d%d", t); bool was = fs::exists(d); SC st = fiftyoneDegreesFileCreateDirectory(d); eventf("mkdir %s: %d", d, (int)st);
				if (st == OK) SIM_CHECK(!was && fs::exists(d), "unreported", "creating %s succeeded although it %s", d, was ? "existed" : "does not exist");
				else { SIM_CHECK(faulted() || was || op.b % 6 == 3, "spurious-failure", "creating %s failed with %d", d, (int)st); if (was && !faulted()) SIM_CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_EXISTS_ERROR, "wrong-status", "status %d for a directory that exists", (int)st); }
			} else {
				size_t len = op.d % 4 == 0 ? (size_t)op.d % 20 : 300; char *out = (char *)heapAlloc(len + 1, 1, false); const char *nm = op.a % 2 ? "x.dat" : "y.dat"; if (op.a % 5 == 4) nm = "none"; std::string folder = "home", leaf = nm; bool huge = op.c % 9 == 0; // a folder reached by many separators: names as long as they can be, and longer
				if (huge) { len = op.d % 3 ? 5000 : 300; heapFree(out); out = (char *)heapAlloc(len + 1, 1, false); size_t l = (size_t)(op.c / 9 % 2 ? 3900 : 4070) + (size_t)op.d % 40; folder += std::string(l, '/'); }
				SC st = fiftyoneDegreesFileGetPath(folder.c_str(), nm, out, len); eventf("path of %s: %d", nm, (int)st);
				if (st == OK) { SIM_CHECK(memchr(out, 0, len) && strlen(out) < len, "overrun", "path longer than the destination"); SIM_CHECK(fs::exists(out) && strstr(out, nm), "wrong-path", "the path found is %.300s", out); const char *q = fiftyoneDegreesFileGetFileName(out); SIM_CHECK(leaf == q, "wrong-name", "the file name of %.300s is %.300s", out, q); SIM_CHECK(leaf == fiftyoneDegreesFileGetFileName(nm), "wrong-name", "the file name of %s is another", nm); std::string bs = std::string(op.c % 2 ? "C:\\data\\" : "/a/b\\") + nm; SIM_CHECK(leaf == fiftyoneDegreesFileGetFileName(bs.c_str()), "wrong-name", "the file name of %s is another", bs.c_str()); if (huge) probe("long_path_found"); }
				else SIM_CHECK(faulted() || op.a % 5 == 4 || (st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY && (len < 20 || huge)), "spurious-failure", "looking for %s failed with %d", nm, (int)st);
				heapFree(out);
			}
			if ((op.code == COPY || op.code == WRITE) && fs::get(dst, now)) SIM_CHECK(fs::modeOf(dst) == mode0, "wrong-mode", "%s has mode %03o, not %03o", dst, fs::modeOf(dst), mode0);
			if (T == 1) { SIM_CHECK(fs::openCount() == open0, "handle-leak", "%d streams open after %s, %d before", fs::openCount(), opnF(op.code), open0); leakCheck(m0, opnF(op.code)); }
			state(mix(mix((uint64_t)op.code, (uint64_t)(op.a % 7)), mix((uint64_t)(op.b % 6), mix(faultsFiredBy(tid()) - f0, (uint64_t)fs::exists(dst)))));
			for (auto &x : src) { fs::get(x.first, now); SIM_CHECK(now == x.second, "source-changed", "%s changed during %s", x.first.c_str(), opnF(op.code)); }
			opEnd();
		}
	};
	for (int t = 1; t <= T; t++) spawn([&, t] { body(t); });
	joinAll(); faultsOff(); Bytes o; fs::get("/ro/old", o); SIM_CHECK(o.size() == 10, "other-changed", "an unrelated file changed");
	SIM_CHECK(fs::openCount() == 0, "handle-leak", "%d streams open at the end", fs::openCount()); leakCheck(mark, "end");
	SIM_CHECK(fs::umaskOf(0) == mask, "umask-changed", "the file mode creation mask of the process was %03o and is now %03o", mask, fs::umaskOf(0));
}
void ioFaults(Plan &p, Rng &r) {
	if (p.get("oom_only")) { oomOnly(p, r, 12); return; } if (r.chance(1, 4)) return;
	if (r.chance(1, 2)) { p.set(r.pick({"fn_open", "fn_read_eio", "fn_early_eof", "fn_seek", "fn_tell", "fn_write_enospc", "fn_flush_close", "fn_remove", "fn_malloc", "fn_opendir", "fn_readlink", "fn_mkdir"}), r.range(1, 25)); if (r.chance(1, 3)) p.set(r.pick({"fn_remove", "fn_flush_close", "fn_write_enospc"}), r.range(1, 6)); }
	else { p.enable(FK_OPEN, r.pick({0, 100, 800})); p.enable(FK_READ_EIO, r.pick({0, 100, 800})); p.enable(FK_EARLY_EOF, r.pick({0, 100, 800})); p.enable(FK_SEEK, r.pick({0, 200, 1000})); p.enable(FK_TELL, r.pick({0, 200, 1000})); p.enable(FK_WRITE_ENOSPC, r.pick({0, 300, 1000})); p.enable(FK_FLUSH_CLOSE, r.pick({0, 500, 2000})); p.enable(FK_REMOVE, r.pick({0, 0, 1000})); p.enable(FK_MALLOC, r.pick({0, 300})); p.enable(FK_MKDIR, r.pick({0, 2000})); p.enable(FK_OPENDIR, r.pick({0, 500})); p.enable(FK_READLINK, r.pick({0, 300})); p.set("f_max", r.range(1, 10)); }
}
void genOps(Plan &p, Rng &r) {
	int T = r.chance(1, 2) ? 1 : (int)r.range(2, 3); p.set("img", (int64_t)r.below(1u << 30)); p.set("sizeA", r.pick({1, 100, 8191, 8192, 8193, 16384, 20000})); p.set("sizeB", r.range(1, 300)); p.set("cwd", r.below(2)); p.set("mask", r.pick({022, 0, 077, 022})); p.set("cap", r.chance(1, 4) ? r.range(0, 30000) : -1);
	p.set("bufsz", r.pick({0, 1, 16, 64, 4096, 16384})); p.set("f_read_short", r.pick({0, 0, 1000, 5000})); p.set("heap", r.pick({0, 1, 2})); p.set("step_cap", 6000000);
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = (int)r.range(2, 14); for (int i = 0; i < n; i++) p.add(t, r.pick({COPY, COPY, COPY, COPY, WRITE, WRITE, READ, READ, READ, SIZE, DEL, MKDIR, GPATH}), r.pick({0, 0, 0, 1, 1, 2, 3, 4, 5, 6}), (int64_t)r.below(r.chance(1, 3) ? 6 : 3), (int64_t)r.below(3), (int64_t)r.below(100000)); }
	ioFaults(p, r); if (p.get("f_read_short")) p.set("f_max", 40);
}
SIM_SCENARIO(fileops, genOps, runOps, opnF);
// ================================================================= C10 and C11
enum { NEW = 1, OLD, OPEN, CLOSE, CLEAN, FIND };
const char *opnT(int c) { static const char *n[] = {"", "new temp file", "create temp file", "open temp file", "close temp file", "clean up", "find existing"}; return n[c]; }
const char *DIRS[] = {"/ro", "/missing", "/tmp1", "/tmp2/", "reltmp", "./reltmp", "/tmp3//x", "", "@deep", "@deep/"}; // @deep: a path close to the longest there can be
std::string dirOf(const std::string &n) { size_t s = n.rfind('/'); return s == 0 ? "/" : n.substr(0, s); }
std::string base(const std::string &n) { size_t s = n.rfind('/'); return s == std::string::npos ? n : n.substr(s + 1); }
struct Rm { std::string path; uint64_t at, since; int tid; Bytes data; uint64_t ino; };
struct Given { std::string path; uint64_t ino; uint64_t at; int tid; };
struct TCtx {
	const Plan *p; Bytes master; std::string mpath, mname, prefix, deep, deepSlash; std::vector<std::string> dir; std::vector<const char *> dirs; std::vector<Rm> rms; std::vector<Given> given; std::map<std::string, Bytes> decoy; std::map<int, uint64_t> scanning; long cmp; bool cleaning;
	std::map<uint64_t, Bytes> content; std::set<std::string> mine; int inFlight = 0, crashed = 0; std::string stable;
} *X;
void onRm(int, const std::string &path, bool, uint64_t ino) {
	TCtx *c = X; Bytes b; auto it = c->content.find(ino); if (it != c->content.end()) b = it->second; // filled just before the removal below
	c->rms.push_back({path, seq(), fs::openSince(ino), tid(), b, ino});
}
bool eligible(const std::string &path, const Bytes &b) {
	TCtx *c = X; if (path.size() >= FIFTYONE_DEGREES_FILE_MAX_PATH) return false; std::string n = base(path); if (n == c->mname || n.compare(0, c->prefix.size(), c->prefix) != 0) return false;
	if (b.size() != c->master.size()) return false; size_t k = c->cmp < 0 ? b.size() : std::min(b.size(), (size_t)c->cmp); return !memcmp(b.data(), c->master.data(), k);
}
int dirIndex(const std::string &path) { TCtx *c = X; std::string d = dirOf(fs::norm(proc(), path)); for (size_t i = 0; i < c->dir.size(); i++) if (c->dir[i] == d) return (int)i; return -1; }
void runTemp(const Plan &p) {
	TCtx c{}; X = &c; c.p = &p; Rng r((uint64_t)p.get("img")); c.master = rbytes(r, (size_t)p.get("size")); if (p.get("flat")) c.master.assign(c.master.size(), (uint8_t)p.get("flat")); c.cmp = (long)p.get("cmp"); c.cleaning = p.get("clean");
	static const char *M[] = {"/data/master.dat", "/data/v1.2/noext", "local.v4.dat", "/tmp1/master.dat"}; c.mpath = M[(size_t)p.get("master") % 4]; c.mname = base(c.mpath); size_t dot = c.mname.rfind('.'); c.prefix = dot == std::string::npos ? c.mname : c.mname.substr(0, dot);
	fs::mkdirs("/ro"); fs::mkdirs("/tmp1"); fs::mkdirs("/tmp2"); fs::mkdirs("/tmp3/x"); fs::mkdirs("/work/reltmp"); fs::mkdirs("/work"); fs::setWritable("/ro", false); fs::put(c.mpath, c.master);
	if (int64_t L = p.get("deep")) { while ((int64_t)c.deep.size() + 202 < L) c.deep += "/" + std::string(200, 'd'); c.deep += "/" + std::string((size_t)L - c.deep.size() - 1, 'e'); c.deepSlash = c.deep + "/"; fs::mkdirs(c.deep); } else c.deep = c.deepSlash = "/tmp1";
	int nd = (int)p.get("dirs"); char k[16]; for (int i = 0; i < nd; i++) { snprintf(k, sizeof k, "dir%d", i); const char *dn = DIRS[(size_t)p.get(k) % 10]; c.dirs.push_back(*dn != '@' ? dn : dn[5] ? c.deepSlash.c_str() : c.deep.c_str()); c.dir.push_back(fs::norm(0, c.dirs.back())); } if (!nd) c.dir.push_back("/work");
	// files that happen to be there
	static const char *ND[] = {"/tmp1", "/tmp2", "/work", "/work/reltmp", "/tmp3/x", "/ro", "/elsewhere"};
	int nx = (int)p.get("decoys"); if (c.cleaning) fs::mkdirs("/tmp1/" + c.prefix + "-dir");
	for (int i = 0; i < nx; i++) {
		Bytes b = c.master; std::string d = p.get("deep") && r.chance(1, 2) ? c.deep : ND[r.below(7)], n = c.prefix + "-77-X" + std::to_string(i); int kind = (int)r.below(10);
		if (kind == 0 && !b.empty()) b[r.below(b.size())] ^= 1; else if (kind == 1) b.push_back(1); else if (kind == 2 && !b.empty()) b.pop_back(); else if (kind == 3) n = "other" + std::to_string(i); else if (kind == 4) n = c.mname; else if (kind == 5) b.clear(); else if (kind == 6 && !b.empty()) b.back() ^= 0x80; else if (kind == 7) n = c.prefix.substr(0, c.prefix.size() - 1) + "-1-A" + std::to_string(i);
		if (kind == 9) for (size_t q = 1024; q < b.size(); q++) b[q] = b[q % 1024]; // what a comparison that goes on after a read error sees
		if (d == c.deep && p.get("deep") && r.chance(1, 2)) { size_t want = FIFTYONE_DEGREES_FILE_MAX_PATH - 3 + r.below(5), have = d.size() + 1 + n.size(); if (have < want && want - have + n.size() < 250) n += std::string(want - have, 'p'); }
		if (fs::exists(d + "/" + n)) continue; fs::put(d + "/" + n, b); c.decoy[fs::norm(0, d + "/" + n)] = b;
	}
	if (p.get("many")) for (int i = 0; i < 300; i++) { std::string f = c.dir.back() + "/" + c.prefix + "-99-M" + std::to_string(i); if (fs::exists(c.dir.back())) { fs::put(f, c.master); c.decoy[f] = c.master; } }
	size_t used = 0; for (auto &x : snapshot()) used += x.second.size(); if (p.get("cap") >= 0) fs::setCapacity((int64_t)used + p.get("cap")); bool full = p.get("cap") >= 0;
	clockConfig((uint64_t)p.get("gran", 1), false); int T = (int)p.th.size() - 1; uint64_t mark = heapMark(); int len = (int)p.get("len");
	fs::onRemove = onRm; std::vector<bool> ended((size_t)T + 2, false);
	FILE *hold = nullptr; if (c.cleaning && p.get("stable")) for (auto &x : c.decoy) if (eligible(x.first, x.second)) for (auto &d : c.dir) if (dirOf(x.first) == d && c.stable.empty()) { FaultMask fm(false); c.stable = x.first; hold = sim_fopen(x.first.c_str(), "rb"); }
	const char **dv = nd ? c.dirs.data() : p.get("noDirs") == 1 ? DIRS : nullptr; int nv = nd || p.get("noDirs") != 2 ? nd : 3; // no directory: none given, or given by one of the two
	auto usable = [&](size_t i) { const std::string &d = c.dir[i]; return d != "/ro" && (!p.get("deep") || d != c.deep) && fs::exists(d); };
	auto body = [&](int t) {
		std::vector<FILE *> open; 
		for (auto &op : p.th[(size_t)t]) {
			opBegin(op); uint64_t f0 = faultsFiredBy(tid()), start = seq(); auto faulted = [&] { return faultsFiredBy(tid()) != f0; };
			if (op.code == NEW || op.code == OLD) {
				int L = op.code == OLD ? FIFTYONE_DEGREES_FILE_MAX_PATH : len; char *out = (char *)heapAlloc((size_t)L, 1, false); memset(out, 0, (size_t)L); c.inFlight++;
				SC st = op.code == NEW ? fiftyoneDegreesFileNewTempFile(c.mpath.c_str(), dv, nv, out, (size_t)L) : fiftyoneDegreesFileCreateTempFile(c.mpath.c_str(), dv, nv, out); c.inFlight--;
				eventf("%s: %d %s%s", opnT(op.code), (int)st, st == OK ? out : "", faulted() ? " (faulted)" : "");
				if (st == OK) {
					SIM_CHECK(memchr(out, 0, (size_t)L), "overrun", "the path is not terminated"); int di = dirIndex(out); SIM_CHECK(di >= 0, "wrong-directory", "the temporary file is %s, in none of the directories given", out);
					int first = -1; for (size_t i = 0; i < c.dir.size() && first < 0; i++) if (usable(i)) first = (int)i;
					SIM_CHECK(faulted() || full || L < 200 || (p.get("deep") && c.dir[(size_t)di] == c.deep) || c.dir[(size_t)di] == c.dir[(size_t)std::max(first, 0)], "wrong-directory", "the temporary file is %s although %s accepts files", out, c.dir[(size_t)std::max(first, 0)].c_str());
					Bytes b; bool have = fs::get(fs::norm(proc(), out), b); bool gone = false; if (c.cleaning) for (auto &x : c.rms) if (x.path == fs::norm(proc(), out) && x.at >= start) gone = true;
					SIM_CHECK(have || (c.cleaning && gone), "missing", "%s does not exist", out); if (have && !gone) SIM_CHECK(fs::modeOf(fs::norm(proc(), out)) == 0666, "wrong-mode", "%s has mode %03o, not read and write for all", out, fs::modeOf(fs::norm(proc(), out))); if (have && !gone) SIM_CHECK(b == c.master, "incomplete", "the temporary file has %zu bytes, not the %zu of the master", b.size(), c.master.size());
					std::string n = fs::norm(proc(), out); if (op.code == NEW) SIM_CHECK(base(n).compare(0, c.prefix.size(), c.prefix) == 0, "wrong-name", "the name of %s does not derive from the master's", out); for (char ch : base(n)) SIM_CHECK(ch > 32 && ch < 127, "wrong-name", "the name of the temporary file has the character %d", (int)ch);
					if (!gone) for (auto &g : c.given) if (g.path == n && g.ino) { bool was = false; for (auto &x : c.rms) if (x.path == n && x.at >= g.at && x.ino == g.ino) was = true; SIM_CHECK(was, "shared", "%s was given to two callers", out); }
					SIM_CHECK(!c.decoy.count(n), "shared", "%s existed before", out); c.given.push_back({n, gone ? 0 : fs::inodeOf(n), start, tid()}); probe("temp_created");
				} else { bool can = false; for (size_t i = 0; i < c.dir.size(); i++) if (usable(i)) can = true; SIM_CHECK(faulted() || full || !can || L < 200, "spurious-failure", "%s failed with %d", opnT(op.code), (int)st); if (op.code == NEW && L) SIM_CHECK(!out[0], "path-after-failure", "a failed creation (%d) gives the path %s", (int)st, out); probe("temp_failed"); }
				heapFree(out);
			} else if (op.code == OPEN) {
				std::vector<std::string> all; for (auto &f : fs::listAll()) if (base(f).compare(0, c.prefix.size(), c.prefix) == 0) all.push_back(f);
				if (!all.empty() && open.size() < 4) { FaultMask fm(false); std::string f = all[(size_t)op.a % all.size()]; FILE *h = sim_fopen(f.c_str(), "rb"); if (h) { open.push_back(h); eventf("opened %s", f.c_str()); } }
			} else if (op.code == CLOSE) { if (!open.empty()) { sim_fclose(open.back()); open.pop_back(); } }
			else if (op.code == CLEAN) {
				size_t r0 = c.rms.size(); int n = fiftyoneDegreesFileDeleteUnusedTempFiles(c.mpath.c_str(), dv, nv, c.cmp); int mine = 0;
				for (size_t i = r0; i < c.rms.size(); i++) if (c.rms[i].tid == tid()) {
					Rm &x = c.rms[i]; mine++; SIM_CHECK(x.since > start, "in-use-deleted", "%s was deleted although it was open throughout the clean-up", x.path.c_str());
					int di = dirIndex(x.path); SIM_CHECK(di >= 0, "outside-deleted", "%s was deleted, which is in none of the directories given", x.path.c_str()); SIM_CHECK(base(x.path) != c.mname && x.path != fs::norm(0, c.mpath), "master-deleted", "%s was deleted", x.path.c_str());
					auto d = c.decoy.find(x.path); if (d != c.decoy.end()) SIM_CHECK(eligible(x.path, d->second), "other-deleted", "%s was deleted, which does not match the master", x.path.c_str());
					else SIM_CHECK(base(x.path).compare(0, c.prefix.size(), c.prefix) == 0, "other-deleted", "%s was deleted, whose name does not derive from the master's", x.path.c_str());
				}
				eventf("clean up: %d", n); SIM_CHECK(n == mine, "wrong-count", "%d files deleted but %d reported", mine, n); if (n) probe("cleaned");
			} else {
				char *out = (char *)heapAlloc(FIFTYONE_DEGREES_FILE_MAX_PATH, 1, false); out[0] = 0; bool found = fiftyoneDegreesFileGetExistingTempFile(c.mpath.c_str(), dv, nv, c.cmp, out); eventf("find: %s", found ? out : "none");
				if (found) {
					std::string n = fs::norm(proc(), out); Bytes b; int di = dirIndex(out); SIM_CHECK(di >= 0, "wrong-directory", "%s is in none of the directories given", out); SIM_CHECK(base(n) != c.mname && base(n).compare(0, c.prefix.size(), c.prefix) == 0, "wrong-name", "%s does not derive from the master's name", out);
					bool gone = false; for (auto &x : c.rms) if (x.path == n && x.at >= start) gone = true; if (!gone) { SIM_CHECK(fs::get(n, b), "missing", "%s does not exist", out); SIM_CHECK(eligible(n, b), "no-match", "%s does not match the master", out); }
					if (!c.stable.empty() && !faulted()) SIM_CHECK(di <= dirIndex(c.stable), "wrong-directory", "%s was found although %s is in an earlier directory", out, c.stable.c_str()); probe("found");
				} else if (!c.stable.empty()) SIM_CHECK(faulted(), "not-found", "%s was not found", c.stable.c_str());
				heapFree(out);
			}
			state(mix((uint64_t)op.code, mix(c.given.size(), mix(c.rms.size(), mix((uint64_t)fs::openCount(), faultsFiredBy(tid()) - f0))))); opEnd();
		}
		Op e; e.id = 9000 + t; opBegin(e); { FaultMask fm(false); for (auto h : open) sim_fclose(h); } ended[(size_t)t] = true;
	};
	std::vector<int> tids; for (int t = 1; t <= T; t++) { snprintf(k, sizeof k, "proc%d", t); tids.push_back(spawn([&, t] { body(t); }, (int)p.get(k))); }
	joinAll(); faultsOff(); Op fo; fo.id = 9500; opBegin(fo);
	for (int i = 0; i < 3; i++) SIM_CHECK(fs::umaskOf(i) == 022 || faultsFired(FK_CRASH), "umask-changed", "the file mode creation mask of process %d was 022 and is now %03o", i, fs::umaskOf(i));
	bool dead = faultsFired(FK_CRASH) > 0; Bytes m; SIM_CHECK(fs::get(c.mpath, m) && m == c.master, "master-changed", "the master file changed");
	auto removed = [&](const std::string &f) { for (auto &x : c.rms) if (x.path == f) return true; return false; };
	for (auto &d : c.decoy) { Bytes b; bool have = fs::get(d.first, b); SIM_CHECK(have ? b == d.second : removed(d.first) && c.cleaning, "other-changed", "%s, which was there before, has %s", d.first.c_str(), have ? "changed" : "gone"); }
	for (auto &g : c.given) { Bytes b; if (g.ino && fs::inodeOf(g.path) == g.ino && fs::get(g.path, b)) SIM_CHECK(b == c.master, "changed", "%s, given to a caller, now has %zu bytes", g.path.c_str(), b.size()); else SIM_CHECK(c.cleaning && removed(g.path), "missing", "%s, given to a caller, is gone", g.path.c_str()); }
	size_t extra = 0; std::string ex; for (auto &f : fs::listAll()) { if (c.decoy.count(f) || f == fs::norm(0, c.mpath)) continue; bool gv = false; for (auto &g : c.given) if (g.path == f) gv = true; if (!gv) { extra++; ex = f; } }
	SIM_CHECK(extra <= (size_t)faultsFired(FK_REMOVE) + (dead ? 4 : 0), "partial-left", "%zu files were left which nobody was given, such as %s", extra, ex.c_str());
	if (hold) sim_fclose(hold);
	int stillOpen = fs::openCount(); SIM_CHECK(stillOpen == 0, "handle-leak", "%d streams open at the end", stillOpen); if (!dead) leakCheck(mark, "end");
	if (int64_t hl = p.get("huge")) { // a name longer than any path
		std::string huge((size_t)hl, 'h'); size_t n0 = fs::listAll().size(); char *out = (char *)heapAlloc(FIFTYONE_DEGREES_FILE_MAX_PATH, 1, false); out[0] = 0;
		SC st = fiftyoneDegreesFileNewTempFile(huge.c_str(), dv, nv, out, FIFTYONE_DEGREES_FILE_MAX_PATH); SIM_CHECK(st != OK && !out[0], "unreported", "a temporary file for a name of %d bytes is %s", (int)hl, out);
		bool found = fiftyoneDegreesFileGetExistingTempFile(huge.c_str(), dv, nv, c.cmp, out); SIM_CHECK(!found, "no-match", "%s was found for a name of %d bytes", out, (int)hl);
		int n = fiftyoneDegreesFileDeleteUnusedTempFiles(huge.c_str(), dv, nv, c.cmp); SIM_CHECK(n == 0 && fs::listAll().size() == n0, "other-deleted", "files were deleted for a name of %d bytes", (int)hl); heapFree(out); probe("huge_name");
	}
	// quiet now: the clean-up finds everything that matches and is not in use
	if (c.cleaning) {
		fs::setCapacity(-1); auto files = snapshot(); int want = 0; int firstDir = -1; std::set<std::string> match; for (auto &f : files) { int di = dirIndex(f.first); if (di >= 0 && eligible(f.first, f.second)) { match.insert(f.first); if (c.dir[(size_t)di] != "/ro") want++; if (firstDir < 0 || di < firstDir) firstDir = di; } }
		char *out = (char *)heapAlloc(FIFTYONE_DEGREES_FILE_MAX_PATH, 1, false); bool found = fiftyoneDegreesFileGetExistingTempFile(c.mpath.c_str(), dv, nv, c.cmp, out);
		if (found) { SIM_CHECK(match.count(fs::norm(0, out)), "no-match", "%s is not a match", out); SIM_CHECK(dirIndex(out) == firstDir, "wrong-directory", "%s was found although directory %d has a match", out, firstDir); } else SIM_CHECK(match.empty(), "not-found", "%zu matching files were not found", match.size());
		heapFree(out); FILE *u = nullptr; std::string held; if (!match.empty() && p.get("holdLast")) { held = *match.begin(); u = sim_fopen(held.c_str(), "rb"); if (dirOf(held) != "/ro") want--; }
		int n = fiftyoneDegreesFileDeleteUnusedTempFiles(c.mpath.c_str(), dv, nv, c.cmp);
		for (auto &f : files) { bool have = fs::exists(f.first), gone = match.count(f.first) && f.first != held && dirOf(f.first) != "/ro"; SIM_CHECK(have || gone, "other-deleted", "%s was deleted", f.first.c_str()); SIM_CHECK(!have || !gone, "not-deleted", "%s matches and is not in use but was not deleted", f.first.c_str()); }
		SIM_CHECK(n == want, "wrong-count", "%d files were deleted but %d reported", want, n); if (u) sim_fclose(u); if (want) probe("final_cleaned"); if (want > 255) probe("cleaned_many");
	}
}
void genTempC(Plan &p, Rng &r, bool cleaning) {
	int P = (int)r.range(1, 3), T = (int)r.range(1, 4); p.set("img", (int64_t)r.below(1u << 30)); p.set("clean", cleaning); p.set("noDirs", r.below(3)); p.set("flat", r.chance(1, 3) ? r.range(1, 255) : 0); p.set("size", r.pick({0, 1, 2048, 100, 1023, 1024, 1025, 3000, 8192, 9000})); p.set("cmp", r.pick({-1, -1, 0, 1, 50, 1024, 1025, 2000, 5000, 100000})); p.set("master", r.below(cleaning ? 4 : 3)); p.set("decoys", cleaning ? r.range(0, 14) : r.range(0, 5));
	int nd = (int)r.below(4); p.set("dirs", nd); bool deep = r.chance(1, 12); char k[16]; for (int i = 0; i < nd; i++) { snprintf(k, sizeof k, "dir%d", i); p.set(k, (int64_t)r.below(8)); if (deep && r.chance(1, 2)) { p.set(k, r.pick({8, 8, 9})); p.set("deep", r.chance(1, 3) ? r.range(4075, 4094) : r.range(4040, 4094)); } }
	for (int t = 1; t <= T; t++) { snprintf(k, sizeof k, "proc%d", t); p.set(k, r.range(0, P - 1)); }
	p.set("gran", r.pick({1, 1, 1000, 20000, 100000})); p.set("len", r.chance(1, 8) ? r.range(0, 80) : 4096); p.set("cap", !cleaning && r.chance(1, 5) ? r.range(0, 20000) : -1); p.set("bufsz", r.pick({0, 16, 512, 4096})); p.set("stable", r.below(2)); p.set("holdLast", r.below(2)); if (r.chance(1, 40)) p.set("huge", r.range(4090, 4300)); if (cleaning && nd && !p.get("deep") && r.chance(1, 150)) { p.set("many", 1); p.set("size", 100); T = 1; } p.set("step_cap", p.get("deep") ? 200000000 : 20000000); p.set("heap", r.pick({0, 1}));
	for (int t = 1; t <= T; t++) { p.th.resize((size_t)t + 1); int n = (int)r.range(1, T == 1 ? 6 : 4); for (int i = 0; i < n; i++) p.add(t, cleaning ? r.pick({NEW, OPEN, OPEN, CLOSE, CLEAN, CLEAN, FIND, FIND}) : r.pick({NEW, NEW, NEW, OLD}), (int64_t)r.below(1000)); }
	if (cleaning && !p.get("oom_only") && r.chance(1, 6)) { if (r.chance(1, 2)) { p.set("fn_opendir", r.range(1, 30)); p.set("fn_readlink", r.range(1, 30)); } else { p.enable(FK_OPENDIR, r.pick({200, 1500})); p.enable(FK_READLINK, r.pick({200, 1500})); p.set("f_max", r.range(1, 20)); } } // use of the files can't be found out
	else if (r.chance(1, 2)) ioFaults(p, r);
	if (r.chance(1, 4)) { p.enable(FK_CLOCK_JUMP, 2000); if (!p.get("f_max")) p.set("f_max", 6); }
	if (r.chance(1, 8)) { if (r.chance(1, 2)) p.set("fn_clock_fail", r.range(1, 8)); else { p.enable(FK_CLOCK_FAIL, r.pick({1000, 10000})); if (!p.get("f_max")) p.set("f_max", r.range(1, 40)); } }
	if (P > 1 && r.chance(1, 3)) p.set("fn_crash", r.range(1, 150));
}
void genNew(Plan &p, Rng &r) { genTempC(p, r, false); }
void genClean(Plan &p, Rng &r) { genTempC(p, r, true); }
SIM_SCENARIO(tempnew, genNew, runTemp, opnT);
SIM_SCENARIO(tempclean, genClean, runTemp, opnT);
}
