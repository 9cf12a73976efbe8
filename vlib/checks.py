"""What is checked for each property."""
import concurrent.futures as cf
from vlib import *

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def par(*fs):
    """Run independent parts of a check side by side."""
    with cf.ThreadPoolExecutor(len(fs)) as ex:
        for r in [ex.submit(f) for f in fs]:
            r.result()


@check
def C01(c):
    x = build_exe("c01", "c01_mpsc.cpp")
    c.model("MPSC", "MPSC.cfg")
    c.explore(x, "small", "MPSCTrace", mode="dfs", preempt=c.scale(3, 5), runs=c.scale(4000, 60000), nseeds=8)
    for s, n in (("small", 6000), ("three", 6000), ("nodef", 2000), ("wrap", 3000)):
        c.explore(x, s, "MPSCTrace", runs=c.scale(n, n * 20))


WORKER = ["kio/core/worker.cpp", "kio/net/net.cpp"]


@check
def C02(c):
    x = build_exe("c02", "c02_handover.cpp", WORKER)
    par(lambda: c.model("WakeLoop", "WakeLoop.cfg"), lambda: c.model("WakeLoop", "WakeLoopV.cfg"),
        lambda: c.model("WakeLoop", "WakeLoopM1.cfg", expect_violation=True), lambda: c.model("WakeLoop", "WakeLoopM2.cfg", expect_violation=True))
    c.explore(x, "mini", "HandoverTrace", mode="dfs", preempt=c.scale(2, 3), runs=c.scale(1500, 30000), nseeds=8)
    for s, n in (("one", 4000), ("two", 4000), ("tight", 1500)):
        c.explore(x, s, "HandoverTrace", runs=c.scale(n, n * 20))


@check
def C03(c):
    x = build_exe("c03", "c03_ops.cpp", WORKER)
    par(*[lambda m=m: c.model("OpsImpl", f"OpsImpl_{m}.cfg", expect_violation=m in ("sqefirst", "early", "late")) for m in ("none", "none2", "sqefirst", "early", "late")])
    c.explore(x, "mini", "OpsTrace", mode="dfs", preempt=2, runs=c.scale(800, 30000), nseeds=16)
    for s, n in (("plenty", 1600), ("slots", 2400), ("ring", 1600), ("grow", 1600)):
        c.explore(x, s, "OpsTrace", runs=c.scale(n, n * 20))


@check
def C04(c):
    x = build_exe("c04", "c04_exact.cpp", WORKER)
    par(*[lambda m=m: c.model("XferMC", f"XferMC_{m}.cfg") for m in ("r", "s")])
    for s, n, b in (("small", 3000, 800), ("send", 1000, 400), ("nopipe", 40, 40), ("huge", 1200, 400), ("mix", 1000, 400)):
        c.explore(x, s, "XferTrace", runs=c.scale(n, n * 20), batch=b)


@check
def C05(c):
    x = build_exe("c05", "c05_request.cpp", WORKER)
    for s, n, b in (("single", 3000, 800), ("seq", 3000, 800), ("many", 1500, 400)):
        c.explore(x, s, "RequestTrace", runs=c.scale(n, n * 20), batch=b)


@check
def C06(c):
    x = build_exe("c06", "c06_life.cpp", WORKER + ["kio/core/worker_pool.cpp"])
    par(*[lambda m=m: c.model("LifeProto", f"LifeProto_{m}.cfg", expect_violation=m != "none") for m in ("none", "nosignal", "nowake", "early")])
    for s, n in (("one", 6000), ("pool", 5000)):
        c.explore(x, s, "LifeTrace", runs=c.scale(n, n * 20))


@check
def C07(c):
    x = build_exe("c07", "c07_baton.cpp", WORKER)
    par(*[lambda m=m: c.model("BatonProto", f"BatonProto_{m}.cfg", expect_violation=m != "none") for m in ("none", "nocas", "leave", "blind")])
    c.explore(x, "timed", "BatonTrace", mode="dfs", preempt=2, runs=c.scale(800, 30000), nseeds=16)
    for s, n in (("one", 2000), ("timed", 3000), ("several", 1600), ("ring", 1000), ("slots", 1000)):
        c.explore(x, s, "BatonTrace", runs=c.scale(n, n * 20))


@check
def C08(c):
    x = build_exe("c08", "c08_event.cpp", WORKER)
    par(*[lambda m=m: c.model("EventProto", f"EventProto_{m}.cfg", expect_violation=m != "none") for m in ("none", "store", "push", "room1")])
    c.explore(x, "mini", "EventTrace", mode="dfs", preempt=2, runs=c.scale(1000, 30000), nseeds=16)
    for s, n in (("one", 2400), ("several", 2400), ("tight", 1200)):
        c.explore(x, s, "EventTrace", runs=c.scale(n, n * 20))


@check
def C09(c):
    x = build_exe("c09", "c09_any.cpp", WORKER)
    par(*[lambda m=m: c.model("AnyProto", f"AnyProto_{m}.cfg", expect_violation=m != "none") for m in ("none", "nothrow", "last", "early")])
    c.explore(x, "mini", "AnyTrace", mode="dfs", preempt=2, runs=c.scale(1000, 30000), nseeds=16)
    for s, n in (("one", 1200), ("two", 2400), ("throw", 2400)):
        c.explore(x, s, "AnyTrace", runs=c.scale(n, n * 20))


@check
def C10(c):
    x = build_exe("c10", "c10_coro.cpp")
    c.model("Coro", "Coro.cfg")
    for s, n in (("single", 1500), ("threads", 4000), ("detached", 2000), ("detached0", 800), ("chain", 8)):
        c.explore(x, s, "CoroTrace", runs=c.scale(n, n * 20 if n > 10 else n))


@check
def C11(c):
    x = build_exe("c11", "c11_logger.cpp")
    c.model("Logger", "Logger.cfg")
    for s, n in (("basic", 1600), ("full", 2000), ("flush", 2400), ("level", 1200), ("fmterr", 600), ("nofd", 300)):
        c.explore(x, s, "LoggerTrace", runs=c.scale(n, n * 20), batch=800)


@check
def C12(c):
    x = build_exe("c12", "c12_bytes.cpp")
    c.model("Bytes", "Bytes.cfg")
    for s, n, b in (("tiny", 3000, 300), ("mid", 1500, 200), ("large", 160, 20), ("huge", 800, 200), ("seq5", 3000, 400)):
        c.explore(x, s, "BytesTrace", runs=c.scale(n, n * 20), batch=b * 2)


def resp(c, parts):
    x = build_exe("c13", "c13_resp.cpp", ["kio/resp/parser.cpp"])
    par(lambda: c.model("RespMC", "RespMC.cfg"), lambda: c.model("RespMC", c.scale("RespMCLine4.cfg", "RespMCLine.cfg")))
    for s, n in parts:
        c.explore(x, s, "RespTrace", runs=c.scale(n, n * 20), batch=400)


@check
def C13(c):
    resp(c, (("valid", 1600), ("mixed", 800), ("junk", 400)))


@check
def C14(c):
    resp(c, (("mixed", 1600), ("junk", 800), ("default", 600)))


@check
def C15(c):
    x = build_exe("c15", "c15_fd.cpp", WORKER + ["kio/core/worker_pool.cpp", "kio/fs/fs.cpp"])
    par(*[lambda m=m: c.model("FdMC", f"FdMC_{m}.cfg", expect_violation=m != "none") for m in ("none", "leak")])
    for s, n, b in (("owners", 9000, 1500), ("sockets", 2000, 1000), ("workers", 4000, 800)):
        c.explore(x, s, "FdTrace", runs=c.scale(n, n * 20), batch=b)


@check
def C16(c):
    x = build_exe("c16", "c16_file.cpp", WORKER + ["kio/core/worker_pool.cpp", "kio/fs/fs.cpp"])
    for s, n, b in (("one", 3000, 800), ("many", 3000, 400)):
        c.explore(x, s, "FileMgrTrace", runs=c.scale(n, n * 20), batch=b)


@check
def C17(c):
    x = build_exe("c17", "c17_metrics.cpp", ["kio/metrics/serializer.cpp"])
    c.model("MetricsMC", "MetricsMC.cfg")
    for s, n in (("text", 2400), ("threads", 3000)):
        c.explore(x, s, "MetricsTrace", runs=c.scale(n, n * 20), batch=400)




@check
def C18(c):
    x = build_exe("c18", "c18_http.cpp", WORKER + ["kio/metrics/server.cpp", "kio/metrics/serializer.cpp"])
    for s, n, b in (("one", 2000, 800), ("many", 1500, 400), ("slots", 800, 400), ("big", 400, 400), ("stop", 1200, 400), ("life", 1200, 400)):
        c.explore(x, s, "HttpTrace", runs=c.scale(n, n * 20), batch=b)


KV = WORKER + ["kio/core/worker_pool.cpp"] + [f"bitcask/src/{f}.cpp" for f in ("partition", "compactor", "data_file", "entry", "fd_cache", "common", "bitcask", "hint_file")]
EXTERN = [VERIF + "/ksim/extern"]


def store():
    return build_exe("c19", "c19_kv.cpp", KV, incs=EXTERN)


def bitcask(c, cfg, *mutants, deep=()):
    if cfg:
        c.model("Bitcask", cfg + "_none.cfg", workers=NCPU)
    base = cfg if cfg in ("BitcaskReads", "BitcaskLazy", "BitcaskFault") else "Bitcask"
    par(*[lambda m=m: c.model("Bitcask", f"{base}_{m}.cfg", expect_violation=True, workers=2) for m in mutants])
    if c.tier == "thorough":
        for d in deep:
            c.model("Bitcask", d + "_none.cfg", workers=NCPU, timeout=14400, heap="20g")


@check
def C19(c):
    x = store()
    bitcask(c, "BitcaskReads", "noretry")
    for s, n in (("kv", 1400), ("compact", 1200), ("slow", 800), ("db", 800)):
        c.explore(x, s, "KVTrace", runs=c.scale(n, n * 20), batch=400)


@check
def C20(c):
    x = store()
    bitcask(c, "Bitcask", "noname", "nofsync", "unsorted", "noadvance", deep=("BitcaskTwice", "BitcaskDeep"))
    for s, n in (("crash", 400), ("power", 240), ("faults", 200), ("slowfault", 100), ("faultcrash", 200)):
        c.explore(x, s, "KVTrace", runs=c.scale(n, n * 20), batch=200, also=["DiskTrace"])


@check
def C21(c):
    x = store()
    bitcask(c, "BitcaskComp", "latedst", "descending", "droptomb", "blind", deep=("BitcaskDeep",))
    for s, n in (("compact", 400), ("crash", 240), ("faults", 240)):
        c.explore(x, s, "KVTrace", runs=c.scale(n, n * 20), batch=200, also=["DiskTrace"])


@check
def C25(c):
    x = store()
    for s, n in (("kv", 500), ("compact", 500), ("faults", 200), ("slowfault", 300), ("crash", 200)):
        c.explore(x, s, "DiskTrace", runs=c.scale(n, n * 20), batch=200)


@check
def C29(c):
    x = store()
    bitcask(c, "BitcaskLazy", "nosettle", "noname", "norecsync")
    bitcask(c, "BitcaskFault", "nofailsync")
    for s, n in (("lazypower", 400), ("powerfault", 160), ("slowpower", 240)):
        c.explore(x, s, "KVTrace", runs=c.scale(n, n * 20), batch=200, also=["DiskTrace"])


@check
def C22(c):
    x = build_exe("c22", "c22_damage.cpp", KV, incs=EXTERN)
    for s, n, sp in (("codec", 600, "CodecTrace"), ("codeclarge", 200, "CodecTrace"), ("damage", 3000, "DamageTrace"), ("hints", 3000, "DamageTrace")):
        c.explore(x, s, sp, runs=c.scale(n, n * 20), batch=400)


@check
def C24(c):
    x = build_exe("c24", "c24_cache.cpp", KV, incs=EXTERN)
    for s, n in (("seq", 600), ("several", 1200), ("faults", 800)):
        c.explore(x, s, "FdCacheTrace", runs=c.scale(n, n * 20), batch=400)


@check
def C23(c):
    x = build_exe("c23", "c23_topology.cpp", KV, incs=EXTERN)
    c.explore(x, "generator", "FileIdTrace", runs=c.scale(3000, 60000), batch=1500)
    c.explore(x, "topology", "TopologyTrace", runs=c.scale(2000, 40000), batch=400)
    c.explore(store(), "clock", "DiskTrace", runs=c.scale(400, 8000), batch=200, also=["KVTrace"])


TLS = ["kio/core/worker.cpp", "kio/net/net.cpp", "kio/tls/context.cpp", "kio/tls/stream.cpp", "kio/tls/listener.cpp"]


@check
def C26(c):
    x = build_exe("c26", "c26_tls.cpp", TLS)
    for s, n, sp in (("direct", 3000, "TlsTrace"), ("conn", 3000, "TlsTrace"), ("stop", 2000, "TlsTrace"), ("tiny", 2000, "TlsTrace"), ("silent", 400, "TlsTrace")):
        c.explore(x, s, sp, runs=c.scale(n, n * 20), batch=400)


@check
def C27(c):
    c.explore(build_exe("c26", "c26_tls.cpp", TLS), "contexts", "TlsCtxTrace", runs=c.scale(12000, 200000), batch=1500)


@check
def C28(c):
    x = build_exe("c28", "c28_net.cpp", ["kio/net/net.cpp"])
    par(*[lambda m=m: c.model("NetMC", f"NetMC_{m}.cfg", expect_violation=m != "none") for m in ("none", "leak", "open", "blocking")])
    c.explore(x, "net", "NetTrace", runs=c.scale(5000, 160000), batch=1000)


def setup():
    build_exe("c01", "c01_mpsc.cpp")
    return 0

