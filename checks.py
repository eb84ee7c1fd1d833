"""Which scenarios decide which property, with how many seeded runs in the quick tier."""
SCEN_FILES = {
    "cache": "scen_cache.cpp", "cache_fail": "scen_cache.cpp",
    "resource": "scen_resource.cpp", "resource_oom": "scen_resource.cpp",
    "coll": "scen_coll.cpp", "coll_fault": "scen_coll.cpp", "coll_trunc": "scen_coll.cpp",
    "dataset": "scen_dataset.cpp", "dataset_fault": "scen_dataset.cpp",
    "fileops": "scen_file.cpp", "tempnew": "scen_file.cpp", "tempclean": "scen_file.cpp",
    "text": "scen_text.cpp",
    "list": "scen_list.cpp",
    "oom": "scen_oom.cpp", "request": "scen_request.cpp",
    "cpp": "scen_cpp.cpp", "cpp_fault": "scen_cpp.cpp",
    "query": "scen_query.cpp", "query_fault": "scen_query.cpp",
    "memtrack": "scen_mem.cpp", "signals": "scen_mem.cpp",
    "pool": "scen_pool.cpp", "filepool": "scen_pool.cpp",
}
MEM = "assert|crash|use-after-free|out-of-bounds|double-free|bad-free|leak|stack-overflow|exit|hang|no-progress|deadlock|mutex|cond|bad-stream"
LRU = "refused|not-lru|counters|reload|over-capacity|capacity|capacity-lost"
FAIL = "failure-unreported|spurious-failure|capacity-lost"
def R(scen, variant, n, ignore=None, what="", **params): return dict(scen=scen, variant=variant, n=n, ignore=ignore, what=what, params=params)
CACHE = ["cache.c", "tree.c", "data.c", "threading.h mutexes"]
COLL = ["collection.c", "cache.c", "pool.c", "file.c", "data.c", "memory.c", "string.c", "tree.c"]
CHECKS = {
    "C01": dict(runs=[R("cache", "dbg", 60000, LRU), R("cache", "rel", 60000, LRU), R("cache_fail", "rel", 30000, LRU + "|" + FAIL), R("cache", "nothr", 10000, LRU, strategy=4)], real=CACHE, stub=["loader callback (harness)", "libc (simulator)"]),
    "C02": dict(runs=[R("cache", "dbg", 60000, "nothing"), R("cache", "rel", 60000, "nothing"), R("cache_fail", "rel", 30000), R("cache", "nothr", 10000, "nothing", strategy=4)], real=CACHE, stub=["loader callback (harness)", "libc (simulator)"]),
    "C03": dict(runs=[R("cache_fail", "dbg", 60000), R("cache_fail", "rel", 60000), R("cache_fail", "nothr", 10000, strategy=4)], real=CACHE, stub=["loader callback (harness)", "libc (simulator)"]),
    "C04": dict(runs=[R("pool", "dbg", 60000), R("pool", "rel", 100000), R("filepool", "dbg", 20000), R("filepool", "rel", 20000), R("pool", "nothr", 10000, strategy=4), R("filepool", "nothr", 5000, strategy=4)], real=["pool.c", "file.c pools"], stub=["resource create/free callbacks (harness)", "libc and disk (simulator)"]),
    "C05": dict(runs=[R("resource", "dbg", 60000), R("resource", "rel", 80000), R("resource_oom", "rel", 20000), R("resource", "nothr", 10000, strategy=4)], real=["resource.c"], stub=["resources and their free method (harness)", "libc (simulator)"]),
    "C06": dict(runs=[R("dataset", "dbg", 15000), R("dataset", "rel", 20000), R("dataset_fault", "dbg", 15000, no_oom=1), R("dataset_fault", "rel", 30000), R("dataset_fault", "nothr", 5000, strategy=4), R("dataset_fault", "mem", 5000)], real=["dataset.c", "resource.c", "file.c", "properties.c", "headers.c"] + COLL, stub=["the concrete data set type, written as dataset.h documents (harness)", "libc and disk (simulator)"]),
    "C07": dict(runs=[R("coll", "dbg", 40000), R("coll", "rel", 60000), R("coll", "nothr", 8000, strategy=4), R("coll", "mem", 8000)], real=COLL, stub=["libc and disk (simulator)"]),
    "C08": dict(runs=[R("coll_fault", "dbg", 40000, no_oom=1), R("coll_fault", "rel", 80000), R("coll_fault", "nothr", 8000, strategy=4), R("coll_fault", "mem", 8000)], real=COLL, stub=["libc and disk (simulator)"]),
    "C09": dict(runs=[R("fileops", "dbg", 60000), R("fileops", "rel", 80000)], real=["file.c"], stub=["libc and disk (simulator)"]),
    "C10": dict(runs=[R("tempnew", "dbg", 100000), R("tempnew", "rel", 150000)], real=["file.c", "process.c"], stub=["libc, disk, clock and processes (simulator)"]),
    "C11": dict(runs=[R("tempclean", "dbg", 40000), R("tempclean", "rel", 60000)], real=["file.c", "process.c"], stub=["libc, disk, clock and processes (simulator)"]),
    "C12": dict(runs=[R("text", "dbg", 60000), R("text", "rel", 100000)], real=["textfile.c", "yamlfile.c", "file.c"], stub=["callbacks (harness)", "libc and disk (simulator)"]),
    "C13": dict(runs=[R("oom", "rel", 150000)] + [R(s, "rel", n, oom_only=1) for s, n in (("dataset_fault", 15000), ("coll_fault", 25000), ("query_fault", 15000), ("list", 15000), ("fileops", 15000), ("tempnew", 10000), ("pool", 15000), ("filepool", 10000), ("cache_fail", 20000), ("resource_oom", 15000))], real=["evidence.c", "headers.c", "list.c", "overrides.c", "properties.c", "status.c", "exceptionsc.c", "ip.c", "threading.c", "cache.c", "pool.c", "resource.c", "dataset.c", "profile.c", "property.c", "value.c", "component.c"] + COLL, stub=["callbacks and collections behind names (harness)", "libc and disk (simulator)"]),
    "C14": dict(runs=[R("memtrack", "dbg", 60000), R("memtrack", "rel", 100000), R("memtrack", "nothr", 10000, strategy=4)], real=["memory.c", "tree.c", "threading.h mutexes"], stub=["libc (simulator)"]),
    "C15": dict(runs=[R("signals", "dbg", 80000), R("signals", "rel", 100000)], real=["threading.c"], stub=["pthread mutexes and condition variables (simulator)"]),
    "C16": dict(runs=[R("query", "dbg", 30000), R("query", "rel", 40000), R("query_fault", "dbg", 20000, no_oom=1), R("query_fault", "rel", 40000), R("query_fault", "nothr", 6000, strategy=4), R("query", "mem", 6000)], real=["profile.c", "property.c", "value.c", "component.c", "list.c"] + COLL, stub=["callbacks (harness)", "libc and disk (simulator)"]),
    "C17": dict(runs=[R("list", "dbg", 40000, no_oom=1), R("list", "rel", 60000), R("list", "nothr", 6000, strategy=4), R("list", "mem", 6000)], real=["list.c"] + COLL, stub=["libc and disk (simulator)"]),
    "C18": dict(runs=[R("cpp", "rel", 30000), R("cpp", "dbg", 20000), R("cpp_fault", "rel", 40000), R("cpp_fault", "nothr", 4000, strategy=4), R("cpp_fault", "mem", 5000)], real=["EngineBase.cpp", "ResultsBase.cpp", "MetaData.cpp", "Exceptions.cpp", "EvidenceBase.cpp", "ConfigBase.cpp", "RequiredPropertiesConfig.cpp", "PropertyMetaData.cpp", "EntityMetaDataBuilder.hpp", "Value.hpp", "dataset.c", "resource.c", "properties.c", "headers.c", "overrides.c"] + COLL, stub=["the concrete engine, results and metadata classes (harness)", "libc and disk (simulator)"]),
    "C26": dict(runs=[R("request", "rel", 60000), R("request", "dbg", 40000, no_oom=1)], real=["evidence.c", "pseudoheader.c", "headers.c", "overrides.c", "properties.c", "ip.c", "string.c", "data.c"], stub=["the collections behind names (harness)", "libc (simulator)"]),
    "C25": dict(runs=[R("cpp", "rel", 60000, only=1), R("cpp", "dbg", 30000, only=1), R("cpp_fault", "rel", 60000, only=1)], real=["RequiredPropertiesConfig.cpp", "ConfigBase.cpp", "EvidenceBase.cpp", "evidence.c", "Exceptions.cpp"], stub=["libc (simulator)"]),
    "C19": dict(runs=[R("coll_trunc", "dbg", 40000), R("coll_trunc", "rel", 60000), R("coll_trunc", "mem", 8000)], real=COLL, stub=["libc and disk (simulator)"]),
}
