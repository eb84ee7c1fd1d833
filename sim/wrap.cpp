// Stand-ins for libc, bound by objcopy --redefine-syms into the objects of the code under test.
#include "rt_int.h"
#include "fs.h"
#include <cstdlib>
#include <ctype.h>
#include <dirent.h>
#include <pthread.h>
#include <strings.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>
#include <memory>
#include <set>

namespace sim {
static inline void setpc(uintptr_t pc) { Fiber *f = G.cur; if (G.active && f && f->depth > 0 && f->depth <= 256) f->pcs[f->depth - 1] = pc; }
#define HERE setpc((uintptr_t)__builtin_return_address(0))

// ================================================================= file system
namespace fs {
struct Inode { uint64_t id; bool dir = false; Bytes data; std::map<std::string, std::shared_ptr<Inode>> ents; bool writable = true, readable = true; int nlink = 1; uint32_t mode = 0644; };
typedef std::shared_ptr<Inode> IP;
struct OFile { FILE *fp = nullptr; IP ino; int64_t pos = 0; bool rd = false, wr = false, app = false; int proc = 0; int fd = 0; std::string path; bool closed = false, wrote = false, dead = false; uint64_t openedAt = 0; char *buf = nullptr; int64_t writtenFrom = -1; };
struct Proc { std::string cwd = "/work"; uint32_t mask = 022; uint64_t rnd = 1; };
static IP root; static std::map<FILE *, OFile *> *files; static std::vector<OFile *> *allFiles; static std::map<int, Proc> *procs; static uint64_t nextIno; static int64_t capacity = -1; static int fdLimit = 1024; static uint64_t nread;
static std::set<FILE *> *closedFiles;
struct SDir { std::vector<std::string> names; size_t i = 0; struct dirent d; int proc = 0; };
static std::set<SDir *> *dirs;
void (*onOpen)(int, const std::string &, bool) = nullptr;
void (*onRemove)(int, const std::string &, bool, uint64_t) = nullptr;
static Proc &P(int p) { return (*procs)[p]; }
std::string norm(int p, const std::string &path) {
	std::string full = path.empty() || path[0] != '/' ? P(p).cwd + "/" + path : path;
	std::vector<std::string> parts; size_t i = 0;
	while (i < full.size()) {
		size_t j = full.find('/', i); if (j == std::string::npos) j = full.size();
		std::string c = full.substr(i, j - i); i = j + 1;
		if (c.empty() || c == ".") continue;
		if (c == "..") { if (!parts.empty()) parts.pop_back(); continue; }
		parts.push_back(c);
	}
	std::string r; for (auto &c : parts) r += "/" + c;
	return r.empty() ? "/" : r;
}
static IP lookup(const std::string &n, IP *parent = nullptr, std::string *leaf = nullptr) {
	IP cur = root; size_t i = 1; if (parent) *parent = nullptr;
	if (n == "/") return root;
	while (i <= n.size()) {
		size_t j = n.find('/', i); if (j == std::string::npos) j = n.size();
		std::string c = n.substr(i, j - i);
		if (!cur->dir) return nullptr;
		auto it = cur->ents.find(c);
		if (j == n.size()) { if (parent) { *parent = cur; *leaf = c; } return it == cur->ents.end() ? nullptr : it->second; }
		if (it == cur->ents.end()) return nullptr;
		cur = it->second; i = j + 1;
	}
	return nullptr;
}
static bool tooLong(const char *p) { if (strlen(p) < 4096) return false; probe("path_too_long"); errno = ENAMETOOLONG; return true; } // PATH_MAX
static IP mkInode(bool dir) { IP i = std::make_shared<Inode>(); i->id = ++nextIno; i->dir = dir; return i; }
void mkdirs(const std::string &path) {
	NoPreempt np; std::string n = norm(0, path); IP cur = root; size_t i = 1;
	while (i < n.size()) { size_t j = n.find('/', i); if (j == std::string::npos) j = n.size(); auto &e = cur->ents[n.substr(i, j - i)]; if (!e) e = mkInode(true); cur = e; i = j + 1; }
}
void put(const std::string &path, const Bytes &d) {
	NoPreempt np; std::string n = norm(0, path); size_t s = n.rfind('/'); mkdirs(s ? n.substr(0, s) : "/");
	IP par; std::string leaf; IP f = lookup(n, &par, &leaf);
	if (!f) { f = mkInode(false); par->ents[leaf] = f; }
	f->data = d;
}
void replace(const std::string &path, const Bytes &d) { NoPreempt np; std::string n = norm(0, path); size_t s = n.rfind('/'); mkdirs(s ? n.substr(0, s) : "/"); IP par; std::string leaf; lookup(n, &par, &leaf); IP f = mkInode(false); f->data = d; par->ents[leaf] = f; }
bool get(const std::string &path, Bytes &o) { NoPreempt np; IP f = lookup(norm(0, path)); if (!f || f->dir) return false; o = f->data; return true; }
bool exists(const std::string &path) { NoPreempt np; return (bool)lookup(norm(0, path)); }
void setWritable(const std::string &p, bool w) { NoPreempt np; IP f = lookup(norm(0, p)); if (f) f->writable = w; }
void setReadable(const std::string &p, bool w) { NoPreempt np; IP f = lookup(norm(0, p)); if (f) f->readable = w; }
void rm(const std::string &path) { NoPreempt np; IP par; std::string l; IP f = lookup(norm(0, path), &par, &l); if (f && par) par->ents.erase(l); }
std::vector<std::string> list(const std::string &d) { NoPreempt np; std::vector<std::string> r; IP f = lookup(norm(0, d)); if (f && f->dir) for (auto &e : f->ents) if (!e.second->dir) r.push_back(e.first); return r; }
static void walk(const std::string &p, const IP &d, std::vector<std::string> &r) { for (auto &e : d->ents) { std::string q = p + "/" + e.first; if (e.second->dir) walk(q, e.second, r); else r.push_back(q); } }
std::vector<std::string> listAll() { NoPreempt np; std::vector<std::string> r; walk("", root, r); return r; }
uint64_t openSince(uint64_t ino) { uint64_t t = (uint64_t)-1; for (auto o : *allFiles) if (!o->closed && !o->dead && o->ino->id == ino) t = std::min(t, o->openedAt); return t; }
bool streamOpen(FILE *f) { return files->count(f); }
int openCount(int p) { int n = 0; for (auto o : *allFiles) if (!o->closed && !o->dead && (p < 0 || o->proc == p)) n++; if (dirs) for (auto d : *dirs) if (procAlive(d->proc) && (p < 0 || d->proc == p)) n++; return n; }
int openCountOf(const std::string &path) { NoPreempt np; IP f = lookup(norm(0, path)); int n = 0; for (auto o : *allFiles) if (!o->closed && !o->dead && o->ino == f) n++; return n; }
uint64_t inodeOf(const std::string &path) { NoPreempt np; IP f = lookup(norm(0, path)); return f ? f->id : 0; }
void setCapacity(int64_t b) { capacity = b; }
void setCwd(int p, const std::string &path) { NoPreempt np; P(p).cwd = path; }
void setFdLimit(int n) { fdLimit = n; }
uint64_t bytesRead() { return nread; }
static int64_t used(const IP &d) { int64_t n = 0; for (auto &e : d->ents) n += e.second->dir ? used(e.second) : (int64_t)e.second->data.size(); return n; }
static bool procDeadNow(int p) { return !procAlive(p); }

// stream callbacks: run atomically inside one stdio call
static ssize_t ckRead(void *c, char *buf, size_t n) {
	NoPreempt np; OFile *o = (OFile *)c;
	int64_t sz = (int64_t)o->ino->data.size();
	if (o->pos >= sz) return 0;
	size_t m = (size_t)std::min<int64_t>((int64_t)n, sz - o->pos);
	G.cur->np--; // faults are decided here, preemption is not
	int64_t e = fault(FK_READ_EIO), s = -1, t = -1;
	if (e < 0) s = fault(FK_READ_SHORT, 1000);
	if (e < 0) t = fault(FK_EARLY_EOF);
	G.cur->np++;
	if (e >= 0) { errno = EIO; return -1; }
	if (t >= 0) return 0;
	if (s >= 0 && m > 1) m = 1 + (size_t)(s * (int64_t)(m - 1) / 1000);
	memcpy(buf, o->ino->data.data() + o->pos, m);
	o->pos += (int64_t)m; nread += m;
	return (ssize_t)m;
}
static ssize_t ckWrite(void *c, const char *buf, size_t n) {
	NoPreempt np; OFile *o = (OFile *)c;
	G.cur->np--;
	int64_t e = fault(FK_WRITE_ENOSPC, 1000);
	G.cur->np++;
	size_t m = n;
	if (e >= 0) m = (size_t)((int64_t)n * e / 1000);
	if (o->app) o->pos = (int64_t)o->ino->data.size();
	if (capacity >= 0) {
		int64_t u = used(root), grow = std::max<int64_t>(0, o->pos + (int64_t)m - (int64_t)o->ino->data.size());
		if (u + grow > capacity) { int64_t can = std::max<int64_t>(0, capacity - u); m = (size_t)std::max<int64_t>(0, (int64_t)m - (grow - can)); probe("disk_full"); }
	}
	if ((int64_t)o->ino->data.size() < o->pos + (int64_t)m) o->ino->data.resize((size_t)(o->pos + (int64_t)m));
	memcpy(o->ino->data.data() + o->pos, buf, m);
	if (o->writtenFrom < 0) o->writtenFrom = o->pos;
	o->pos += (int64_t)m; o->wrote = true;
	if (m < n) { errno = ENOSPC; if (m == 0) return 0; }
	return (ssize_t)m;
}
static int ckSeek(void *c, off64_t *off, int wh) {
	NoPreempt np; OFile *o = (OFile *)c;
	if (o->ino->dir && wh == SEEK_END) { errno = EINVAL; return -1; }
	int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (int64_t)o->ino->data.size();
	if (b + *off < 0) { errno = EINVAL; return -1; }
	o->pos = b + *off; *off = o->pos; return 0;
}
static int ckClose(void *c) { OFile *o = (OFile *)c; o->closed = true; return 0; }
static OFile *of(FILE *f, const char *call) {
	auto it = files->find(f);
	if (it != files->end()) return it->second;
	if (closedFiles->count(f)) violation("bad-stream", "%s on a closed stream", call);
	if (f == nullptr) violation("crash", "%s on a null stream", call);
	violation("bad-stream", "%s on a pointer that is not an open stream", call);
}
static void crashPoint() { if (G.cur && G.cur->proc != 0 && fault(FK_CRASH) >= 0) { probe("process_crashed"); crashProc(G.cur->proc); } }
static void io() { yp(K_IO); crashPoint(); }
}
using namespace fs;
void fsReset() {
	if (!files) { files = new std::map<FILE *, OFile *>; allFiles = new std::vector<OFile *>; procs = new std::map<int, Proc>; closedFiles = new std::set<FILE *>; }
	root = mkInode(true); P(0); IP w = mkInode(true); root->ents["work"] = w;
}
void fsEndOfRun() {}

// ================================================================= libc
extern "C" {
// ---- memory
void *sim_malloc(size_t n) { HERE; yp(K_MEM); if (fault(FK_MALLOC) >= 0) { errno = ENOMEM; return nullptr; } return heapAlloc(n, 16, true); }
void *sim_calloc(size_t a, size_t b) { HERE; yp(K_MEM); if (fault(FK_MALLOC) >= 0) { errno = ENOMEM; return nullptr; } void *p = heapAlloc(a * b, 16, true); if (p) memset(p, 0, a * b); return p; }
void *sim_aligned_alloc(size_t al, size_t n) { HERE; yp(K_MEM); if (fault(FK_MALLOC) >= 0) { errno = ENOMEM; return nullptr; } return heapAlloc(n, al, true); }
int sim_posix_memalign(void **o, size_t al, size_t n) { HERE; yp(K_MEM); if (fault(FK_MALLOC) >= 0) return ENOMEM; *o = heapAlloc(n, al, true); return *o ? 0 : ENOMEM; }
void *sim_memalign(size_t al, size_t n) { HERE; return sim_aligned_alloc(al, n); }
void sim_free(void *p) { HERE; yp(K_MEM); heapFree(p); }
void *sim_realloc(void *p, size_t n) {
	HERE; yp(K_MEM);
	if (!p) return sim_malloc(n);
	if (fault(FK_MALLOC) >= 0) { errno = ENOMEM; return nullptr; }
	size_t o = heapSizeOf(p); heapCheck(p, o ? 1 : 0, false, "realloc");
	void *q = heapAlloc(n, 16, true); if (q) { memcpy(q, p, std::min(o, n)); heapFree(p); } return q;
}
// ---- strings (bounds of heap blocks are checked)
static size_t ckStr(const char *s, size_t max = (size_t)-1) {
	if (!s) violation("crash", "string function on a null pointer");
	if (!heapOwns(s)) return strnlen(s, max);
	size_t i = 0; for (; i < max; i++) { heapCheck(s + i, 1, false, "string"); if (!s[i]) return i; } return i;
}
size_t sim_strlen(const char *s) { HERE; return ckStr(s); }
size_t sim_strnlen(const char *s, size_t n) { HERE; return ckStr(s, n); }
int sim_strcmp(const char *a, const char *b) { HERE; ckStr(a); ckStr(b); return strcmp(a, b); }
static void ckStr2(const char *a, const char *b, size_t n) { // strncmp stops at the first difference
	if (!heapOwns(a) && !heapOwns(b)) return;
	for (size_t i = 0; i < n; i++) { heapCheck(a + i, 1, false, "string"); heapCheck(b + i, 1, false, "string"); if (a[i] != b[i] || !a[i]) { if (tolower((unsigned char)a[i]) != tolower((unsigned char)b[i]) || !a[i]) return; } }
}
int sim_strncmp(const char *a, const char *b, size_t n) { HERE; ckStr2(a, b, n); return strncmp(a, b, n); }
int sim_strcasecmp(const char *a, const char *b) { HERE; ckStr(a); ckStr(b); return strcasecmp(a, b); }
int sim_strncasecmp(const char *a, const char *b, size_t n) { HERE; ckStr2(a, b, n); return strncasecmp(a, b, n); }
int sim_memcmp(const void *a, const void *b, size_t n) { HERE; heapCheck(a, n, false, "memcmp"); heapCheck(b, n, false, "memcmp"); return memcmp(a, b, n); }
int sim_bcmp(const void *a, const void *b, size_t n) { HERE; return sim_memcmp(a, b, n); }
void *sim_memchr(const void *a, int c, size_t n) { HERE; const char *p = (const char *)a; for (size_t i = 0; i < n; i++) { heapCheck(p + i, 1, false, "memchr"); if ((unsigned char)p[i] == (unsigned char)c) return (void *)(p + i); } return nullptr; }
size_t sim_strspn(const char *s, const char *a) { HERE; ckStr(s); ckStr(a); return strspn(s, a); }
size_t sim_strcspn(const char *s, const char *a) { HERE; ckStr(s); ckStr(a); return strcspn(s, a); }
char *sim_strpbrk(const char *s, const char *a) { HERE; ckStr(s); ckStr(a); return (char *)strpbrk(s, a); }
char *sim_strchr(const char *s, int c) { HERE; ckStr(s); return (char *)strchr(s, c); }
char *sim_strrchr(const char *s, int c) { HERE; ckStr(s); return (char *)strrchr(s, c); }
char *sim_strstr(const char *a, const char *b) { HERE; ckStr(a); ckStr(b); return (char *)strstr(a, b); }
char *sim_strcpy(char *d, const char *s) { HERE; size_t n = ckStr(s); heapCheck(d, n + 1, true, "strcpy"); return strcpy(d, s); }
char *sim_strncpy(char *d, const char *s, size_t n) { HERE; ckStr(s, n); heapCheck(d, n, true, "strncpy"); return strncpy(d, s, n); }
char *sim_strcat(char *d, const char *s) { HERE; size_t a = ckStr(d), n = ckStr(s); heapCheck(d + a, n + 1, true, "strcat"); return strcat(d, s); }
char *sim_strncat(char *d, const char *s, size_t m) { HERE; size_t a = ckStr(d), n = ckStr(s, m); heapCheck(d + a, n + 1, true, "strncat"); return strncat(d, s, m); }
char *sim_strdup(const char *s) { HERE; size_t n = ckStr(s); char *p = (char *)sim_malloc(n + 1); if (p) memcpy(p, s, n + 1); return p; }
char *sim_strtok(char *s, const char *d) { HERE; if (s) { size_t n = ckStr(s); heapCheck(s, n, true, "strtok"); } return strtok(s, d); }
long sim_strtol(const char *s, char **e, int b) { HERE; ckStr(s); return strtol(s, e, b); }
long sim___isoc23_strtol(const char *s, char **e, int b) { HERE; ckStr(s); return strtol(s, e, b); }
double sim_strtod(const char *s, char **e) { HERE; ckStr(s); return strtod(s, e); }
void *sim_memcpy(void *d, const void *s, size_t n) { HERE; heapCheck(s, n, false, "memcpy"); heapCheck(d, n, true, "memcpy"); return memmove(d, s, n); }
void *sim_memmove(void *d, const void *s, size_t n) { HERE; return sim_memcpy(d, s, n); }
void *sim_memset(void *d, int c, size_t n) { HERE; heapCheck(d, n, true, "memset"); return memset(d, c, n); }
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
	HERE; if (!d && n) violation("crash", "snprintf to a null pointer");
	va_list a2; va_copy(a2, ap); char tmp[8192]; int r = vsnprintf(tmp, sizeof tmp, f, a2); va_end(a2);
	if (n && r >= 0) { size_t w = std::min((size_t)r, n - 1); w = std::min(w, sizeof tmp - 1); heapCheck(d, w + 1, true, "snprintf"); memcpy(d, tmp, w); d[w] = 0; }
	return r;
}
int sim_snprintf(char *d, size_t n, const char *f, ...) { HERE; va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_sprintf(char *d, const char *f, ...) { HERE; va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, 8192, f, ap); va_end(ap); return r; }
void sim_qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) { HERE; heapCheck(b, n * w, true, "qsort"); // insertion sort: no hidden libc state
	char t[512]; if (w > sizeof t) { qsort(b, n, w, cmp); return; } char *p = (char *)b;
	for (size_t i = 1; i < n; i++) { memcpy(t, p + i * w, w); size_t j = i; while (j > 0 && cmp(p + (j - 1) * w, t) > 0) { memcpy(p + j * w, p + (j - 1) * w, w); j--; } memcpy(p + j * w, t, w); } }
// ---- process, clock, random
pid_t sim_getpid() { HERE; return 4000 + proc(); }
int sim_clock_gettime(int, struct timespec *ts) {
	HERE; yp(K_IO); if (fault(FK_CLOCK_FAIL) >= 0) { errno = EPERM; return -1; }
	int64_t j = fault(FK_CLOCK_JUMP, 2000); if (j >= 0) clockAdvance((j & 1) ? (uint64_t)-(int64_t)(j * 20011) : (uint64_t)j * 1000003ull * 1000ull); // forwards, or back by a little
	uint64_t t = clockNs(); ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull); return 0;
}
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(0, ts); return b; }
time_t sim_time(time_t *o) { HERE; time_t t = (time_t)(clockNs() / 1000000000ull); if (o) *o = t; return t; }
int sim_gettimeofday(struct timeval *tv, void *) { HERE; uint64_t t = clockNs(); tv->tv_sec = (time_t)(t / 1000000000ull); tv->tv_usec = (long)(t % 1000000000ull / 1000); return 0; }
clock_t sim_clock() { return (clock_t)(clockNs() / 1000); }
void sim_srand(unsigned s) { HERE; yp(K_MEM); P(proc()).rnd = s; }
int sim_rand() { HERE; yp(K_MEM); uint64_t &r = P(proc()).rnd; r = r * 6364136223846793005ull + 1442695040888963407ull; return (int)((r >> 33) & 0x7fffffff); }
int sim_rand_r(unsigned *s) { HERE; *s = *s * 1103515245u + 12345u; return (int)((*s >> 1) & 0x7fffffff); }
long sim_random() { return sim_rand(); }
int sim_usleep(unsigned us) { HERE; clockAdvance((uint64_t)us * 1000); yp(K_EXPL); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { HERE; clockAdvance((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec); yp(K_EXPL); return 0; }
unsigned sim_sleep(unsigned s) { HERE; clockAdvance((uint64_t)s * 1000000000ull); yp(K_EXPL); return 0; }
int sim_sched_yield() { HERE; yp(K_EXPL); return 0; }
char *sim_getenv(const char *) { return nullptr; }
// ---- threads
static Mtx *M(void *m, const char *op) {
	heapCheck(m, sizeof(pthread_mutex_t), true, op);
	Mtx *x = (Mtx *)m;
	if (x->magic == MTX_DEAD) violation("mutex", "%s on a destroyed mutex", op);
	if (x->magic != MTX_MAGIC) {
		bool z = true; for (size_t i = 0; i < sizeof(pthread_mutex_t); i++) if (((char *)m)[i]) z = false;
		if (!z) violation("mutex", "%s on an uninitialised mutex", op);
		x->magic = MTX_MAGIC; x->owner = -1; // PTHREAD_MUTEX_INITIALIZER
	}
	return x;
}
int sim_pthread_mutex_init(void *m, const void *) { HERE; yp(K_SYNC); heapCheck(m, sizeof(pthread_mutex_t), true, "mutex init"); Mtx *x = (Mtx *)m;
	if (x->magic == MTX_MAGIC && x->owner >= 0 && !heapOwns(m)) violation("mutex", "initialisation of a mutex that is locked");
	memset(m, 0, sizeof(pthread_mutex_t)); x->magic = MTX_MAGIC; x->owner = -1; return 0; }
int sim_pthread_mutex_destroy(void *m) { HERE; yp(K_SYNC); Mtx *x = M(m, "destroy"); if (x->owner >= 0) violation("mutex", "destruction of a locked mutex"); x->magic = MTX_DEAD; return 0; }
int sim_pthread_mutex_lock(void *m) {
	HERE; yp(K_SYNC); Mtx *x = M(m, "lock");
	if (x->owner == G.cur->id) violation("deadlock", "thread locks a mutex it already holds");
	while (x->owner >= 0) { blockOn(m, "mutex"); x = M(m, "lock"); }
	x->owner = G.cur->id; return 0;
}
int sim_pthread_mutex_trylock(void *m) { HERE; yp(K_SYNC); Mtx *x = M(m, "trylock"); if (x->owner >= 0) return EBUSY; x->owner = G.cur->id; return 0; }
int sim_pthread_mutex_unlock(void *m) {
	HERE; yp(K_SYNC); Mtx *x = M(m, "unlock");
	if (x->owner != G.cur->id) violation("mutex", "unlock of a mutex the thread does not hold");
	x->owner = -1; wakeAll(m); yp(K_SYNC); return 0;
}
int sim_pthread_cond_init(void *c, const void *) { HERE; yp(K_SYNC); if (fault(FK_MALLOC) >= 0) return EAGAIN; heapCheck(c, sizeof(pthread_cond_t), true, "cond init"); memset(c, 0, sizeof(pthread_cond_t)); ((Cnd *)c)->magic = CND_MAGIC; return 0; }
static void C(void *c, const char *op) { heapCheck(c, sizeof(pthread_cond_t), true, op); if (((Cnd *)c)->magic == CND_DEAD) violation("cond", "%s on a destroyed condition variable", op); }
int sim_pthread_cond_destroy(void *c) { HERE; yp(K_SYNC); C(c, "destroy"); ((Cnd *)c)->magic = CND_DEAD; return 0; }
static int condWait(void *c, void *m) {
	yp(K_SYNC); C(c, "wait"); Mtx *x = M(m, "cond wait");
	if (x->owner != G.cur->id) violation("mutex", "condition wait without holding the mutex");
	x->owner = -1; wakeAll(m);
	if (fault(FK_SPURIOUS_WAKE) >= 0) { yp(K_SYNC); yp(K_EXPL); }
	else blockOn(c, "cond");
	while (x->owner >= 0) { blockOn(m, "mutex"); M(m, "lock"); }
	x->owner = G.cur->id; return 0;
}
int sim_pthread_cond_wait(void *c, void *m) { HERE; return condWait(c, m); }
int sim_pthread_cond_timedwait(void *c, void *m, const struct timespec *) { HERE; return condWait(c, m); }
int sim_pthread_cond_signal(void *c) { HERE; yp(K_SYNC); C(c, "signal"); wakeOne(c); return 0; }
int sim_pthread_cond_broadcast(void *c) { HERE; yp(K_SYNC); C(c, "broadcast"); wakeAll(c); return 0; }
unsigned long sim_pthread_self() { return (unsigned long)tid() + 1; }
int sim_pthread_create(unsigned long *t, const void *, void *(*fn)(void *), void *arg) { HERE; int id = spawn([=] { fn(arg); }, proc()); *t = (unsigned long)id + 1; yp(K_SYNC); return 0; }
int sim_pthread_join(unsigned long t, void **) { HERE; int id = (int)t - 1; while (!done(id)) blockOn(G.f[id], "join"); return 0; }
void sim_pthread_exit(void *) { violation("exit", "pthread_exit"); }
int sim_pthread_once(int *c, void (*fn)()) { HERE; yp(K_SYNC); if (*c == 0) { *c = 1; fn(); *c = 2; wakeAll(c); } else while (*c == 1) blockOn(c, "once"); return 0; }
// ---- streams
FILE *sim_fopen(const char *path, const char *mode) {
	HERE; ckStr(path); ckStr(mode); io();
	int64_t e = fault(FK_OPEN, 4);
	if (e >= 0) { errno = e == 0 ? EMFILE : e == 1 ? EACCES : e == 2 ? EIO : ENFILE; return nullptr; }
	NoPreempt np; int p = proc(); std::string n = norm(p, path);
	if (!*path) { errno = ENOENT; return nullptr; }
	bool r = strchr(mode, 'r'), w = strchr(mode, 'w'), a = strchr(mode, 'a'), plus = strchr(mode, '+'), x = strchr(mode, 'x');
	if (openCount(p) >= fdLimit) { errno = EMFILE; probe("fd_limit"); return nullptr; }
	if (tooLong(path)) return nullptr;
	IP par; std::string leaf; IP f = lookup(n, &par, &leaf);
	if (f && x) { errno = EEXIST; return nullptr; }
	if (f && f->dir) { if (w || a || plus) { errno = EISDIR; return nullptr; } }
	if (!f) {
		if (r) { errno = ENOENT; return nullptr; }
		if (!par || !par->dir) { errno = ENOENT; return nullptr; }
		if (leaf.size() > 255) { errno = ENAMETOOLONG; return nullptr; }
		if (!par->writable) { errno = EACCES; return nullptr; }
		f = mkInode(false); f->mode = 0666 & ~P(p).mask; par->ents[leaf] = f;
	} else {
		if ((w || a || plus) && !f->writable) { errno = EACCES; return nullptr; }
		if ((r || plus) && !f->readable) { errno = EACCES; return nullptr; }
	}
	if (w) f->data.clear();
	OFile *o = new OFile; o->ino = f; o->rd = r || plus; o->wr = w || a || plus; o->app = a; o->proc = p; o->path = n;
	std::set<int> fds; for (auto q : *allFiles) if (!q->closed && !q->dead && q->proc == p) fds.insert(q->fd);
	int fd = 3; while (fds.count(fd)) fd++; o->fd = fd;
	cookie_io_functions_t io_ = {ckRead, ckWrite, ckSeek, ckClose};
	char mm[8]; int mi = 0; mm[mi++] = r ? 'r' : a ? 'a' : 'w'; if (plus) mm[mi++] = '+'; mm[mi] = 0;
	FILE *fp = fopencookie(o, mm, io_);
	if (!fp) harnessError("fopencookie");
	int64_t bs = G.plan ? G.plan->get("bufsz", 0) : 0;
	if (bs > 0) { o->buf = (char *)::malloc((size_t)bs); setvbuf(fp, o->buf, _IOFBF, (size_t)bs); }
	o->openedAt = seq(); o->fp = fp; (*files)[fp] = o; allFiles->push_back(o); closedFiles->erase(fp);
	if (onOpen) onOpen(p, n, o->wr);
	return fp;
}
int sim_fclose(FILE *f) {
	HERE; io(); if (!f) violation("crash", "fclose of a null stream");
	if (f == stderr || f == stdout) return 0;
	OFile *o = of(f, "fclose");
	int64_t e = (o->wr) ? fault(FK_FLUSH_CLOSE, 1000) : -1;
	files->erase(f); closedFiles->insert(f);
	int r = fclose(f);
	o->closed = true;
	if (e >= 0 && o->wrote && o->writtenFrom >= 0) { // data lost at close, reported by its return value
		int64_t n = (int64_t)o->ino->data.size() - o->writtenFrom; if (n > 0) o->ino->data.resize((size_t)(o->writtenFrom + n * e / 1000));
		errno = EIO; r = EOF;
	}
	yp(K_IO); return r;
}
size_t sim_fread(void *b, size_t s, size_t n, FILE *f) { HERE; io(); OFile *o = of(f, "fread"); if (n && s) { if (!b) violation("crash", "fread to a null pointer"); heapCheck(b, s * n, true, "fread"); }
	if (o->ino->dir) { errno = EISDIR; return 0; }
	size_t r = fread(b, s, n, f); yp(K_IO); return r; }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { HERE; if (f == stderr || f == stdout) return n; io(); of(f, "fwrite"); if (n && s) heapCheck(b, s * n, false, "fwrite"); size_t r = fwrite(b, s, n, f); yp(K_IO); return r; }
int sim_fseek(FILE *f, long o, int w) { HERE; io(); of(f, "fseek"); if (fault(FK_SEEK) >= 0) { errno = EIO; return -1; } int r = fseek(f, o, w); yp(K_IO); return r; }
int sim_fseeko(FILE *f, off_t o, int w) { HERE; return sim_fseek(f, (long)o, w); }
long sim_ftell(FILE *f) { HERE; io(); of(f, "ftell"); if (fault(FK_TELL) >= 0) { errno = EIO; return -1; } return ftell(f); }
off_t sim_ftello(FILE *f) { HERE; return sim_ftell(f); }
void sim_rewind(FILE *f) { HERE; io(); of(f, "rewind"); rewind(f); }
int sim_feof(FILE *f) { HERE; of(f, "feof"); return feof(f); }
int sim_ferror(FILE *f) { HERE; of(f, "ferror"); return ferror(f); }
void sim_clearerr(FILE *f) { HERE; of(f, "clearerr"); clearerr(f); }
int sim_fflush(FILE *f) { HERE; if (!f || f == stderr || f == stdout) return 0; io(); of(f, "fflush"); return fflush(f); }
int sim_fgetc(FILE *f) { HERE; io(); of(f, "fgetc"); return fgetc(f); }
int sim_getc(FILE *f) { HERE; return sim_fgetc(f); }
char *sim_fgets(char *b, int n, FILE *f) { HERE; io(); of(f, "fgets"); heapCheck(b, (size_t)n, true, "fgets"); return fgets(b, n, f); }
int sim_fputs(const char *s, FILE *f) { HERE; ckStr(s); if (f == stderr || f == stdout) return 0; io(); of(f, "fputs"); return fputs(s, f); }
int sim_fputc(int c, FILE *f) { HERE; if (f == stderr || f == stdout) return c; io(); of(f, "fputc"); return fputc(c, f); }
int sim_fprintf(FILE *f, const char *fmt, ...) { HERE; if (f == stderr || f == stdout) return 0; io(); of(f, "fprintf"); va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
int sim_printf(const char *, ...) { return 0; }
int sim_puts(const char *) { return 0; }
int sim_setvbuf(FILE *f, char *, int, size_t) { of(f, "setvbuf"); return 0; }
int sim_fileno(FILE *f) { return of(f, "fileno")->fd; }
int sim_fsync(int) { io(); return 0; }
// ---- directories
static int doUnlink(const char *path, bool rmdirToo) {
	ckStr(path); io();
	int64_t e = fault(FK_REMOVE, 3); if (e >= 0) { errno = e == 0 ? EBUSY : e == 1 ? EACCES : EIO; return -1; }
	if (tooLong(path)) return -1;
	NoPreempt np; IP par; std::string l, n = norm(proc(), path); IP f = lookup(n, &par, &l);
	if (!*path || !f || !par) { errno = ENOENT; return -1; }
	if (!par->writable) { errno = EACCES; return -1; }
	if (f->dir) { if (!rmdirToo) { errno = EISDIR; return -1; } if (!f->ents.empty()) { errno = ENOTEMPTY; return -1; } }
	bool use = false; for (auto o : *allFiles) if (!o->closed && !o->dead && o->ino == f) use = true;
	par->ents.erase(l);
	for (auto o : *allFiles) if (!o->closed && o->ino == f) o->path += " (deleted)";
	if (onRemove) onRemove(proc(), n, use, f->id);
	return 0;
}
int sim_remove(const char *p) { HERE; return doUnlink(p, true); }
int sim_unlink(const char *p) { HERE; return doUnlink(p, false); }
int sim_rmdir(const char *p) { HERE; return doUnlink(p, true); }
int sim_rename(const char *a, const char *b) {
	HERE; ckStr(a); ckStr(b); io();
	NoPreempt np; IP pa, pb; std::string la, lb; IP f = lookup(norm(proc(), a), &pa, &la); lookup(norm(proc(), b), &pb, &lb);
	if (!f || !pa || !pb) { errno = ENOENT; return -1; }
	if (!pa->writable || !pb->writable) { errno = EACCES; return -1; }
	pa->ents.erase(la); pb->ents[lb] = f;
	for (auto o : *allFiles) if (!o->closed && o->ino == f) o->path = norm(proc(), b);
	return 0;
}
int sim_mkdir(const char *p, mode_t) {
	HERE; ckStr(p); io(); int64_t e = fault(FK_MKDIR, 3); if (e >= 0) { errno = e == 0 ? EACCES : e == 1 ? ENOSPC : EIO; return -1; }
	if (tooLong(p)) return -1; NoPreempt np; IP par; std::string l; IP f = lookup(norm(proc(), p), &par, &l);
	if (f) { errno = EEXIST; return -1; } if (!par || !par->dir) { errno = ENOENT; return -1; } if (!par->writable) { errno = EACCES; return -1; }
	par->ents[l] = mkInode(true); return 0;
}
static SDir *D(DIR *d, const char *call) {
	if (!d) violation("crash", "%s of a null directory stream", call); // glibc dereferences it (closedir excepted)
	if (!dirs || !dirs->count((SDir *)d)) violation("bad-stream", "%s of a directory stream that is not open", call); return (SDir *)d; }
DIR *sim_opendir(const char *path) {
	HERE; ckStr(path); io(); int64_t e = fault(FK_OPENDIR, 3);
	if (e >= 0) { errno = e == 0 ? EMFILE : e == 1 ? ENOMEM : strncmp(path, "/proc", 5) ? EACCES : ENFILE; return nullptr; }
	NoPreempt np; if (!*path) { errno = ENOENT; return nullptr; } if (tooLong(path)) return nullptr;
	std::string n = norm(proc(), path); if (openCount(proc()) >= fdLimit) { errno = EMFILE; probe("fd_limit"); return nullptr; } SDir *d = new SDir; d->proc = proc(); d->names = {".", ".."};
	int pid, used; if (n == "/proc/self/fd") n = "/proc/" + std::to_string(4000 + proc()) + "/fd";
	if (n == "/proc/1/fd" || n == "/proc/2/fd" || n == "/proc/cpuinfo/fd") { delete d; errno = n[6] == '1' ? EACCES : n[6] == '2' ? EPERM : ENOTDIR; return nullptr; } // processes of another user, one hidden; a file
	if (n == "/proc") { for (auto n : {"1", "2", "cpuinfo", "self"}) d->names.push_back(n); std::set<int> ps; for (auto f : G.f) ps.insert(f->proc); for (int p : ps) if (procAlive(p)) d->names.push_back(std::to_string(4000 + p)); }
	else if (sscanf(n.c_str(), "/proc/%d/fd%n", &pid, &used) == 1 && used == (int)n.size()) {
		if (!procAlive(pid - 4000)) { delete d; errno = ENOENT; return nullptr; }
		for (auto o : *allFiles) if (!o->closed && !o->dead && o->proc == pid - 4000) d->names.push_back(std::to_string(o->fd));
	} else if (n.compare(0, 5, "/proc") == 0) { delete d; errno = ENOENT; return nullptr; }
	else { IP f = lookup(n); if (!f) { delete d; errno = ENOENT; return nullptr; } if (!f->dir) { delete d; errno = ENOTDIR; return nullptr; } if (!f->readable) { delete d; errno = EACCES; return nullptr; }
		for (auto &x : f->ents) d->names.push_back(x.first);
		// directory order is the file system's choice
		for (size_t i = d->names.size(); i > 3; i--) std::swap(d->names[i - 1], d->names[2 + G.hrng.below(i - 2)]); }
	if (!dirs) dirs = new std::set<SDir *>; dirs->insert(d); return (DIR *)d;
}
struct dirent *sim_readdir(DIR *p) { HERE; yp(K_IO); NoPreempt np; SDir *d = D(p, "readdir"); if (d->i >= d->names.size()) return nullptr; memset(&d->d, 0, sizeof d->d); strncpy(d->d.d_name, d->names[d->i++].c_str(), sizeof d->d.d_name - 1); return &d->d; }
int sim_closedir(DIR *p) { HERE; NoPreempt np; if (!p) { errno = EINVAL; return -1; } SDir *d = D(p, "closedir"); dirs->erase(d); delete d; return 0; }
static OFile *procFd(const std::string &n) { int pid, fd, used = 0; if (sscanf(n.c_str(), "/proc/%d/fd/%d%n", &pid, &fd, &used) != 2 || used != (int)n.size()) return nullptr; for (auto o : *allFiles) if (!o->closed && !o->dead && o->proc == pid - 4000 && o->fd == fd) return o; return nullptr; }
ssize_t sim_readlink(const char *p, char *b, size_t n) {
	HERE; ckStr(p); io(); if (fault(FK_READLINK) >= 0) { errno = EACCES; return -1; }
	NoPreempt np; OFile *o = procFd(norm(proc(), p)); if (!o) { errno = ENOENT; return -1; }
	size_t m = std::min(n, o->path.size()); heapCheck(b, m, true, "readlink"); memcpy(b, o->path.data(), m); return (ssize_t)m;
}
static int doStat(const char *p, struct stat *st) {
	io(); int64_t e = fault(FK_READLINK, 2); if (e >= 0) { errno = e ? EIO : ENOMEM; return -1; }
	if (tooLong(p)) return -1;
	NoPreempt np; std::string n = norm(proc(), p); if (n.compare(0, 11, "/proc/self/") == 0) n = "/proc/" + std::to_string(4000 + proc()) + n.substr(10); IP f; if (OFile *o = procFd(n)) f = o->ino; else if (*p) f = lookup(n);
	if (!f) { errno = ENOENT; return -1; }
	memset(st, 0, sizeof *st); st->st_ino = f->id; st->st_dev = 1; st->st_size = (off_t)f->data.size(); st->st_mode = f->dir ? (S_IFDIR | 0755) : (S_IFREG | f->mode); st->st_nlink = 1; return 0;
}
int sim_stat(const char *p, struct stat *st) { HERE; ckStr(p); return doStat(p, st); }
int sim_lstat(const char *p, struct stat *st) { HERE; ckStr(p); return doStat(p, st); }
int sim_fstat(int fd, struct stat *st) { HERE; NoPreempt np; for (auto o : *allFiles) if (!o->closed && o->proc == proc() && o->fd == fd) { memset(st, 0, sizeof *st); st->st_ino = o->ino->id; st->st_dev = 1; st->st_size = (off_t)o->ino->data.size(); st->st_mode = S_IFREG | o->ino->mode; return 0; } errno = EBADF; return -1; }
int sim_access(const char *p, int) { HERE; ckStr(p); io(); NoPreempt np; if (tooLong(p)) return -1; if (lookup(norm(proc(), p))) return 0; errno = ENOENT; return -1; }
char *sim_realpath(const char *p, char *o) { HERE; ckStr(p); io(); NoPreempt np; std::string n = norm(proc(), p); if (!*p || !lookup(n)) { errno = ENOENT; return nullptr; } if (!o) { G.cur->np--; o = (char *)sim_malloc(n.size() + 1); G.cur->np++; if (!o) return nullptr; } heapCheck(o, n.size() + 1, true, "realpath"); strcpy(o, n.c_str()); return o; }
int sim_fchmod(int fd, mode_t m) { HERE; io(); NoPreempt np; for (auto o : *allFiles) if (!o->closed && !o->dead && o->proc == proc() && o->fd == fd) { o->ino->mode = m & 07777; return 0; } errno = EBADF; return -1; }
int sim_chmod(const char *p, mode_t m) { HERE; ckStr(p); io(); NoPreempt np; if (IP f = lookup(norm(proc(), p))) { f->mode = m & 07777; return 0; } errno = ENOENT; return -1; }
mode_t sim_umask(mode_t m) { HERE; yp(K_IO); NoPreempt np; mode_t o = P(proc()).mask; P(proc()).mask = m; return o; }
char *sim_getcwd(char *b, size_t n) { HERE; io(); NoPreempt np; std::string &c = P(proc()).cwd; if (c.size() + 1 > n) { errno = ERANGE; return nullptr; } heapCheck(b, c.size() + 1, true, "getcwd"); strcpy(b, c.c_str()); return b; }
int sim_chdir(const char *p) { HERE; NoPreempt np; P(proc()).cwd = norm(proc(), p); return 0; }
}
namespace fs {
uint32_t umaskOf(int p) { return P(p).mask; }
void setUmask(int p, uint32_t m) { P(p).mask = m; }
void setMode(const std::string &p, uint32_t m) { NoPreempt np; IP f = lookup(norm(0, p)); if (f) f->mode = m; }
uint32_t modeOf(const std::string &p) { NoPreempt np; IP f = lookup(norm(0, p)); return f ? f->mode : 0; }
void crashFiles(int p) { for (auto o : *allFiles) if (o->proc == p && !o->closed) { o->dead = true; files->erase(o->fp); } }
}
struct InitCrash { InitCrash() { onProcCrash = [](int p) { fs::crashFiles(p); }; } } initCrash;
}
