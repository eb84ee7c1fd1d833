// Shared by the scenarios: the library's headers plus small helpers.
#pragma once
#include "rt.h"
#include "fs.h"
#include <dirent.h>
#include <sys/stat.h>
#include <time.h>
#include <limits.h>
#include <stdlib.h>
#include <stdbool.h>
#include <assert.h>
#include <unistd.h>
#include <ctype.h>
#include <float.h>
#include <math.h>
#include <inttypes.h>
#include <set>
#include <algorithm>
extern "C" {
#include "exceptions.h"
#include "cache.h"
#include "collection.h"
#include "component.h"
#include "config.h"
#include "data.h"
#include "dataset.h"
#include "date.h"
#include "evidence.h"
#include "file.h"
#include "headers.h"
#include "list.h"
#include "memory.h"
#include "pool.h"
#include "properties.h"
#include "resource.h"
#include "results.h"
#include "status.h"
#include "string.h"
#include "property.h"
#include "value.h"
#include "overrides.h"
#include "tree.h"
#include "profile.h"
#include "ip.h"
#include "float.h"
#include "coordinate.h"
#include "pseudoheader.h"
#include "process.h"
#include "textfile.h"
#include "yamlfile.h"
#include "threading.h"
}
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY // there is nothing to read items from a file with, collections are loaded
#define fiftyoneDegreesStringRead nullptr
#define fiftyoneDegreesCollectionReadFileFixed nullptr
#define fiftyoneDegreesProfileReadFromFile nullptr
#define fiftyoneDegreesComponentReadFromFile nullptr
#endif
static inline void relItem(fiftyoneDegreesCollection *c, fiftyoneDegreesCollectionItem *i) { if (c->release) c->release(i); /* in a memory only build there is nothing to release */ }
using namespace sim;
struct Ex { // an exception structure as a caller of the library would have it
	fiftyoneDegreesException v; fiftyoneDegreesException *p;
	Ex() { v.file = nullptr; v.func = nullptr; v.line = -1; v.status = FIFTYONE_DEGREES_STATUS_NOT_SET; p = &v; }
	bool ok() const { return v.status == FIFTYONE_DEGREES_STATUS_NOT_SET; }
	int st() const { return (int)v.status; }
	void clear() { v.status = FIFTYONE_DEGREES_STATUS_NOT_SET; }
};
// with the parameter oom_only, a plan whose only faults are failing allocations
static inline void oomOnly(Plan &p, Rng &r, int64_t maxNth) {
	if (!p.get("oom_only")) return;
	for (auto &k : p.p) if (k.first.compare(0, 2, "f_") == 0 || k.first.compare(0, 3, "fn_") == 0) k.second = 0;
	p.set("f_max", 1 << 30); if (r.chance(1, 2)) p.set("fn_malloc", r.range(1, maxNth)); else { p.enable(FK_MALLOC, r.pick({20, 100, 500, 2000})); if (r.chance(1, 2)) p.set("f_max", r.range(1, 4)); }
}
#define NOP sim::NoPreempt np_guard
// Runs library code from harness code that is inside a NoPreempt region is a mistake: keep regions small.
