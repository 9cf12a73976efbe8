T = "TLA+ spec model-checked with TLC; recorded histories of the real code validated against it"
COMMON = ("Assumes the ksim runtime (deterministic scheduler, sequentially consistent interleavings plus vector-clock race detection, "
          "simulated io_uring) represents the kernel and threads faithfully; coverage of schedules is bounded as recorded in the evidence. ")
NOTES = {
    "C01": (T, "Abstract queue model-checked for its invariants; every explored interleaving of the real MPSCQueue (exhaustive within a "
               "preemption bound, plus random/PCT schedules) is validated against it by TLC. " + COMMON),
    "C02": (T, "Hand-over specification (post/run order, thread binding, no lost wake-up at quiescence) plus a model-checked wake-up protocol with two "
               "refuted mutants; the real Worker event loop runs under explored schedules. Drops with a full queue are allowed, as documented. " + COMMON),
    "C03": (T, "Operation life-cycle specification; a bookkeeping model (slots, rings, growth) refines it and three mutants are refuted; real "
               "Worker with tiny rings/pools and kernel completion order and grouping chosen by the scheduler. " + COMMON),
    "C04": (T, "Transfer specification model-checked (success means every byte once, in order); real exact transfers and sendfile against a "
               "kernel choosing short counts, errors and end of file, including lengths beyond 2 and 4 GiB (scaled units). " + COMMON),
    "C05": (T, "For every call kind the specification defines the one kernel request it must become, the result mapping with the documented "
               "category, and the counters; real calls with edge-case arguments, overlapping. " + COMMON),
    "C06": (T, "Life-cycle specification (ready, start-up callback, stop, shutdown, descriptors acquired and released, failures of thread, ring and "
               "eventfd creation) plus a model-checked stop/latch protocol with three refuted mutants; real Worker and IOPool under explored schedules and injected failures. " + COMMON),
    "C07": (T, "One-shot signal specification (wait, timed wait, truthfulness, nothing left behind); a model of the waiter word with three refuted mutants; "
               "real AsyncBaton under explored schedules with virtual time, tiny rings and slots. " + COMMON),
    "C08": (T, "Broadcast specification (waiters, raises, resets, resume exactly once); a model of the waiter stack with three refuted mutants; real AsyncEvent "
               "under explored schedules including full hand-over queues. " + COMMON),
    "C09": (T, "First-of-several specification (validity, first to complete, run-once, release); a model of the claim/signal/refcount protocol with three "
               "refuted mutants; real when_any over one or two workers with sleeping, hopping and throwing tasks. " + COMMON),
    "C10": (T, "Task/SyncWait/DetachedTask life cycle specification; real coroutines run under explored schedules, every start, completion, "
               "rethrow and frame destruction must be a specification step; frames, results and stack depth are accounted. " + COMMON),
    "C11": (T, "Logger specification (accept/reject/deliver/flush/stop); the real logger with fake eventfd and sink under explored schedules. " + COMMON),
    "C12": (T, "Every operation's reported state must be a step of the byte-FIFO specification; random and enumerated operation sequences, "
               "including sizes that overflow. Memory outside the buffer is detected byte by byte. " + COMMON),
    "C13": (T, "The framing function is a TLA+ definition, model-checked for prefix stability and round trip; the real parser's every answer on "
               "generated streams, fed three ways, must be the specification's. " + COMMON),
    "C14": (T, "As C13, with generated invalid and over-limit input; spellings RESP leaves open are accepted either way. " + COMMON),
    "C15": (T, "Descriptor-ownership specification (who owns each open descriptor, what each operation on an owner gives up, holds and returns), model-checked "
               "over all short programs; random programs over the four real owner types, socket set-up with a failure at every step, and workers, "
               "pools, transfers and files with injected failures, on a descriptor table that reuses numbers. " + COMMON),
    "C16": (T, "File-manager specification: path-to-worker binding, one kernel request per operation from the bound thread, faithful result; the real "
               "FileManager on real files in a scratch directory with injected errors, callers on plain threads and on workers. " + COMMON),
    "C17": (T, "The text format is parsed by a TLA+ definition (checked to invert a correct writer over an awkward alphabet); what the collectors "
               "reported must be what the scraped text reads back as, under concurrent registration and scraping. strtod is the oracle for number tokens. " + COMMON),
    "C18": (T, "Endpoint specification (what a request line calls for, one scrape per request, complete answers with the announced length, closing, stopping); "
               "the real MetricsServer with scheduler-chosen packet splits, failing accepts, collectors and clients, few operation slots, and every start/stop order. " + COMMON),
    "C19": (T, "A single map with linearisation points chosen by TLC; the real Partition and BitKV under explored schedules with concurrent clients, rotation, "
               "compaction and tiny files, on real files in a scratch directory. Bitcask is built with stand-ins for struct_pack and crc32c. " + COMMON),
    "C20": (T, "Map with crash (KV.tla) and file-level crash safety after every single file-system effect (Disk.tla: what recovery would yield from what exists, and, "
               "with synchronous writes, from every combination of durable names and contents); real crashes, loss of power, failing requests and crashes during recovery. " + COMMON),
    "C21": (T, "Compaction is invisible in the map specification and every file effect of it must keep recovery safe (Disk.tla); what was due must be gone and nothing else; "
               "forced and automatic compaction with concurrent clients, faults and crashes. " + COMMON),
    "C22": (T, "Codec specification (round trip, prefixes, adjacent-bit damage) and damage specification (which values each key may read as after given damage); real store files "
               "truncated, flipped, zero-filled or extended with garbage, data and hints, over two rounds. Checksum collisions are excluded by the fixed seeds. " + COMMON),
    "C23": (T, "Identifier generator specification under a scheduled clock, topology specification (which reopenings are accepted, nothing changed by a refusal, stable routing), and "
               "the store's own file creations checked by Disk.tla's freshness rule with a clock that stands still or goes back and files from the future. " + COMMON),
    "C24": (T, "Cache specification (entries in order of use, limit, in-use descriptors, exactly-once closing, counters); the real FdCache with concurrent users and failing opens and closes. " + COMMON),
    "C25": (T, "At quiescent points the reported statistics must equal those Disk.tla computes from the entries in the files, and the counters the calls made; also after recovery. " + COMMON),
    "C29": (T, "The same map and file-level specifications where acknowledged does not mean durable: after every single file-system effect, every combination of durable names and "
               "contents must recover to a value at least as new as the last successful sync or close; process crashes mixed with losses of power, failing writes and interrupted "
               "compactions. Failing flushes are excluded (nothing is known about the disk after one). The algorithm is model-checked with four refuted mutants. " + COMMON),
    "C27": (T, "Configuration specification (TlsCtx.tla: a context exists only with everything asked for in force, errors by kind, freed exactly once); the real TlsContext over "
               "stand-ins for OpenSSL's functions that refuse settings at random. " + COMMON),
    "C28": (T, "Address and socket specification (Net.tla), the steps of making a listening socket model-checked with three refuted mutants; the real functions over a stand-in "
               "name service, on a descriptor table, with a failure at every step. " + COMMON),
    "C26": (T, "Stream specification over an engine that answers done / wants to read / wants to write / failed (Tls.tla); the real TlsStream, TlsListener and "
               "TlsConnector over a scripted stand-in for OpenSSL's functions, under explored schedules, failing calls, stopping workers and few operation slots. OpenSSL itself is not verified. " + COMMON),
}
NA = {}
