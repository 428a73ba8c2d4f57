"""Which workloads decide which property, and how the binaries are built."""
UB = "-fsanitize=address,undefined"
VARIANTS = {
    "asan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", UB, "-fno-sanitize-recover=all"]},
    "tsan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-fsanitize=thread"]},
    "plain": {"cc": "clang", "cxx": "clang++", "flags": ["-O1"]},
}
WRAPT = ["-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=pthread_cond_wait"]
WRAPF = ["-Wl," + ",".join("--wrap=" + f for f in ("write", "pwrite", "pwrite64", "writev", "ftruncate", "ftruncate64"))]
WRAPR = ["-Wl," + ",".join("--wrap=" + f for f in ("read", "pread", "pread64", "readv"))]
BINARIES = {
    "readfault": {"variant": "asan", "src": ["readfault.cpp"], "ldflags": WRAPR},
    "engine": {"variant": "asan", "src": ["engine.cpp"]},
    "huge": {"variant": "plain", "src": ["huge.cpp"]},
    "corrupt": {"variant": "asan", "src": ["corrupt.cpp"]},
    "engine_plain": {"variant": "plain", "src": ["engine.cpp"]},
    "engine_mem": {"variant": "plain", "src": ["engine.cpp", "memtrack.cpp"], "flags": ["-DMON_MEM"],
                   "libflags": ["-D%s=mon_%s" % (f, f) for f in ("malloc", "calloc", "realloc", "free", "strdup")]},
    "format": {"variant": "asan", "src": ["format.cpp"]},
    "threads_tsan": {"variant": "tsan", "src": ["threads.cpp"], "ldflags": WRAPT},
    "threads_asan": {"variant": "asan", "src": ["threads.cpp"], "ldflags": WRAPT},
    "fault": {"variant": "asan", "src": ["fault.cpp"], "ldflags": WRAPF},
    "cxxfault": {"variant": "asan", "src": ["cxxfault.cpp"], "cxxlib": True,
                 "ldflags": ["-Wl," + ",".join("--wrap=" + f for f in ("read", "pread", "pread64", "readv", "write", "pwrite", "pwrite64", "writev"))]},
    "openchk": {"variant": "asan", "src": ["openchk.cpp"]},
    "space": {"variant": "asan", "src": ["space.cpp"]},
    "cxx": {"variant": "asan", "src": ["cxx.cpp"], "cxxlib": True},
    "cxx_plain": {"variant": "plain", "src": ["cxx.cpp"], "cxxlib": True},
    "cxxthreads": {"variant": "tsan", "src": ["cxxthreads.cpp"], "cxxlib": True},
}
HIST = ("Each case is one seeded history against the public C API with random page size, bucket count, cache size, hash function, key and value length "
        "distribution and operation mix; every observation is compared with a reference map. Distinct: by a digest over all operations and arguments; "
        "non-trivial: at least 3 pairs stored and at least 10 operations issued.")

CXX = ("Each case is one seeded history through the C++ classes with random class parameters, options, keys and objects; every observation is compared with a "
       "reference map. Distinct: by a digest over all operations and arguments; non-trivial: at least 3 pairs stored and at least 10 operations issued.")

VG = ["valgrind", "-q", "--error-exitcode=99", "--log-file={log}.%p", "--leak-check=no", "--num-callers=12"]


def J(profile, q, t, bin="engine", **k):
    d = {"bin": bin, "profile": profile, "n": (q, t)}
    d.update(k)
    return d


PLAN = {
    "C01": {"level": "exploration", "technique": 'reference-model monitor on randomized histories, ASan+UBSan build',
            "note": "Held on the sampled histories and configurations; trusts the reference map and the generator's reach.",
            "rule": HIST, "jobs": [J("hugemap", 1, 4, bin="huge", timeout=(240, 900), chunk=1, first=1), J("map", 1200, 40000), J("mix", 300, 6000), J("bulk", 24, 800), J("vast", 3, 120, chunk=1), J("churn", 16, 500, chunk=2)]},
    "C02": {"level": "exploration", "technique": 'multi-session histories, reopened contents compared with the model',
            "note": 'Held on the sampled session sequences, including a close after every store.',
            "rule": HIST, "jobs": [J("huge", 1, 6, bin="huge", timeout=(240, 900), chunk=1, first=1), J("reopen", 700, 20000), J("bulk", 40, 1500), J("vast", 6, 300, chunk=1), J("churn", 40, 1500, chunk=2), J("reopen1", 500, 12000), J("mix", 200, 4000)]},
    "C03": {"level": "exploration", "technique": 'cursor monitor: exactly-once delivery against the model',
            "note": 'Held on the sampled layouts and interleavings of cursors, lookups and buffers.',
            "rule": HIST, "jobs": [J("scan", 900, 20000), J("mix", 200, 4000), J("bulk", 16, 600), J("vast", 3, 120, chunk=1)]},
    "C04": {"level": "exploration", "technique": 'refused operations injected into monitored histories',
            "note": 'Held on the sampled refusals and positions, followed by sync/close/reopen and an independent file check.',
            "rule": HIST, "jobs": [J("refuse", 1000, 30000), J("mix", 200, 4000)]},
    "C05": {"level": "exploration", "technique": "AddressSanitizer, UBSan, LeakSanitizer and valgrind memcheck over randomized histories",
            "note": "Held on the sampled histories, with exactly sized heap buffers for every argument; uninitialised memory is judged by memcheck on a smaller sample, including bytes handed to write(2).",
            "rule": HIST, "jobs": [J("mix", 500, 15000, leaks=1), J("refuse", 200, 5000, leaks=1), J("scan", 150, 4000, leaks=1), J("ro", 100, 3000, leaks=1), J("meta", 150, 3000, leaks=1), J("bulk", 8, 200, leaks=1),
                                   J("mix", 160, 2000, bin="engine_plain", wrap=VG, chunk=5), J("meta", 60, 600, bin="engine_plain", wrap=VG, chunk=5), J("scan", 40, 600, bin="engine_plain", wrap=VG, chunk=5),
                                   J("typed", 100, 3000, bin="cxx", leaks=1), J("ens", 60, 2000, bin="cxx", leaks=1), J("merge", 40, 2000, bin="cxx", leaks=1),
                                   J("typed", 24, 400, bin="cxx_plain", wrap=VG, chunk=3), J("ens", 16, 300, bin="cxx_plain", wrap=VG, chunk=2), J("serial", 16, 300, bin="cxx_plain", wrap=VG, chunk=4)]},
    "C06": {"level": "exploration", "technique": 'file snapshots at sync compared with the model at sync',
            "note": 'Process death is modelled by the bytes the kernel holds at that moment; power loss is out of scope (the library never calls fsync).',
            "rule": HIST, "jobs": [J("sync", 600, 20000)]},
    "C07": {"level": "fault_enumeration", "technique": "seeded damage to closed files, complete read-back judged in a child process under ASan+UBSan",
            "note": "Every byte of some small files (five in quick) and random bytes, ranges, pages and lengths of larger ones; collisions of the 32-bit checksum are not searched for.",
            "rule": "Each case builds one random database file and damages it about 50 times (single bytes, ranges, pages swapped, duplicated, zeroed or brought back stale, truncation), reading everything after each damage; non-trivial: at least 3 pairs stored.",
            "jobs": [J("damage", 320, 12000, bin="corrupt", abort=0, chunk=5), J("bytes", 320, 12800, bin="corrupt", abort=0, chunk=4)]},
    "C08": {"level": "exploration", "technique": 'byte comparison of the file around read-only sessions',
            "note": 'Held on the sampled files and read-only sessions; contents, length and modification time are compared.',
            "rule": HIST, "jobs": [J("ro", 800, 20000)]},
    "C09": {"level": "exploration", "technique": "ThreadSanitizer and ASan with a value monitor and a progress monitor, delays injected at lock boundaries",
            "note": "Held on the schedules that occurred, with delays injected at the library's own lock, unlock and wait calls; no systematic schedule enumeration.",
            "rule": "Each case is one random database read by 2 to 8 threads (lookups, complete and partial cursors in both directions, metadata reads) through one handle, through private files, or through several read-only handles; or one random read-write history whose operations are handed in turn to 2 to 4 threads. Distinct: by the digest of the populating history and the thread parameters; non-trivial: at least 3 pairs stored.",
            "jobs": [J("shared", 700, 20000, bin="threads_tsan", timeout=120), J("private", 200, 5000, bin="threads_tsan", timeout=120), J("handles", 200, 5000, bin="threads_tsan", timeout=120),
                     J("shared", 500, 10000, bin="threads_asan", timeout=120, leaks=1), J("private", 100, 2000, bin="threads_asan", timeout=120, leaks=1),
                     J("turns", 240, 8000, timeout=120, leaks=1), J("own", 100, 3000, bin="cxxthreads", timeout=120), J("one", 150, 5000, bin="cxxthreads", timeout=120)]},
    "C10": {"level": "exploration", "technique": "differential runs over cache sizes; allocation monitor checked at every operation",
            "note": "Held on the sampled histories, each repeated under seven cache sizes; memory is the live allocations of the library's C code, compared with the configured size plus metadata pages plus 12.",
            "rule": HIST, "jobs": [J("cachediff", 150, 4000), J("mem", 500, 15000, bin="engine_mem")]},
    "C11": {"level": "exploration", "technique": 'independent offline parser over every closed or synced file',
            "note": 'Trusts the independent parser of the documented page format.',
            "rule": HIST, "jobs": [J("fsck", 700, 20000), J("fsck1", 400, 10000), J("bulk", 64, 2500), J("vast", 6, 200, chunk=1), J("churn", 64, 2500, chunk=2), J("sync", 150, 4000)]},
    "C12": {"level": "exploration", "technique": 'metadata reference model in monitored histories',
            "note": 'Held on the sampled lengths, slots and histories.',
            "rule": HIST + " The uinfo cases are short sessions of the three C++ store classes, mostly writing and reading user info of any bytes.", "jobs": [J("meta", 900, 20000), J("uinfo", 900, 20000, bin="cxx", leaks=1)]},
    "C13": {"level": "exploration", "technique": "golden files of the pinned release and independently converted files, read and extended under monitors",
            "note": "Golden files cover the layouts that the pinned release writes correctly; foreign byte order and version 5 come from an independent converter, not from other machines.",
            "rule": "Each case takes one golden file (or one freshly written random file) in one of four encodings (byte order, format version), reads everything, then stores into it over up to three sessions, parsing the file independently after every close. Distinct: by digest of operations; non-trivial: at least 3 pairs.",
            "jobs": [J("golden", 228, 3800, bin="format", args=["--golden", "{verif}/golden"]), J("foreign", 400, 12000, bin="format", args=["--golden", "{verif}/golden"])]},
    "C14": {"level": "exploration", "technique": "reference-map monitor over mixed typed, string-key and binary operations, ASan+UBSan+LSan build",
            "note": "Held on the sampled histories over four key/data class combinations, with an independently stated serialised form; sharing between copies, closed stores and unreadable stored bytes included.",
            "rule": CXX, "jobs": [J("typed", 900, 25000, bin="cxx", leaks=1), J("simple", 600, 15000, bin="cxx", leaks=1)]},
    "C15": {"level": "exploration", "technique": "reference monitor of element vectors and configuration records over ensemble histories, ASan+UBSan+LSan build",
            "note": "Held on the sampled ensembles (1 to 70 configurations, equal element sizes within a store) and histories; wrong element counts are tried in a child because the store exits.",
            "rule": CXX, "jobs": [J("ens", 700, 15000, bin="cxx", leaks=1)]},
    "C16": {"level": "exploration", "technique": "end-to-end monitor: merged and multi-file contents against the source stores, ASan+UBSan+LSan build",
            "note": "Held on the sampled collections of stores, memory limits (chunk sizes from one record to all) and element sizes.",
            "rule": CXX, "jobs": [J("merge", 800, 20000, bin="cxx", leaks=1), J("multi", 1500, 30000, bin="cxx", leaks=1)]},
    "C17": {"level": "exploration", "technique": "round-trip and rejection monitors against an independent serialiser, ASan+UBSan+LSan build",
            "note": "Held on the sampled objects and malformed inputs; the serialised bytes are compared with an independent statement of the format.",
            "rule": "Each case serialises and reads back two random objects of every class, feeds malformed variants, and compares byte-order, hash and checksum helpers with independent definitions. Distinct: by digest of the byte strings.",
            "jobs": [J("serial", 6000, 150000, bin="cxx", leaks=1)]},
    "C18": {"level": "fault_enumeration", "technique": "fault injection into the writes of histories, journal of reported results judged against the file afterwards (independent reader and library), ASan+UBSan build",
            "note": "Each short history is rerun with single write failures, short writes, bursts, a full disk from any point, a file size limit or failing truncation; in 'points' at (up to 40 evenly spread of) its writes one by one.",
            "rule": "Each case is one history (journalled in shared memory by the faulted process) with several injected failures; a run that reported only success must be complete, any other must not deliver bytes never stored. Distinct: by digest of history and fault plans; non-trivial: at least 5 calls and one write seen.",
            "jobs": [J("points", 120, 3000, bin="fault", chunk=4, abort=0), J("random", 320, 9000, bin="fault", chunk=10, abort=0), J("limit", 400, 8000, bin="fault", chunk=20, abort=0),
                     J("typed-write", 120, 3000, bin="cxxfault", chunk=5, abort=0), J("ens-write", 120, 3000, bin="cxxfault", chunk=5, abort=0), J("merge-write", 80, 2000, bin="cxxfault", chunk=5, abort=0)]},
    "C19": {"level": "exploration", "technique": "open attempts in a monitored child: folder snapshot before and after, descriptor and leak count, acceptance rule computed from the file's bytes, ASan+UBSan+LSan build",
            "note": "Held on the sampled file contents, flags and parameters.",
            "rule": "Each case makes 6 to 14 open attempts on variants of one generated database (or creates 10 new ones) and compares outcome and folder with what must follow. Distinct: by digest of the attempts and the generated database.",
            "jobs": [J("refuse", 500, 12000, bin="openchk", chunk=20, abort=0, leaks=1), J("create", 250, 6000, bin="openchk", chunk=10, abort=0), J("keep", 1200, 25000, bin="openchk", chunk=40, abort=0), J("metasize", 16, 500, bin="openchk", chunk=2, abort=0)]},
    "C20": {"level": "exploration", "technique": "differential monitor of file lengths between plans for the same stores, page accounting by an independent reader, ASan+UBSan build",
            "note": "The allowance for cutting stores into sessions or syncs is two pages per doubling of the buckets plus ten, in total.",
            "rule": "Each case makes the same stores in one session and under four other plans, or runs sessions that store nothing or only replace. Distinct: by a digest over all operations; non-trivial: more than 10 operations.",
            "jobs": [J("plans", 500, 12000, bin="space", chunk=10), J("noop", 1500, 30000, bin="space", chunk=30), J("churnspace", 40, 1500, chunk=2), J("bulkspace", 16, 600, chunk=1)]},
    "C21": {"level": "fault_enumeration", "technique": "read faults injected below the library, every answer judged against the model with knowledge of which calls were hit, ASan+UBSan build",
            "note": "Single failures, short reads, bursts, failures from a point on and random failures, at random reads of lookups, scans, metadata reads and stores. Each faulted run is a process of its own; ending it visibly while reads fail is allowed, an answer that hides the failure is not.",
            "rule": "Each case is one generated file with eleven runs of the same or related calls, one without and ten with injected faults. Distinct: by digest of history and fault plans; non-trivial: at least 3 pairs and one read seen.",
            "jobs": [J("read", 1000, 10000, bin="readfault", chunk=10, abort=0), J("store", 600, 8000, bin="readfault", chunk=10, abort=0),
                     J("typed-read", 80, 2000, bin="cxxfault", chunk=5, abort=0), J("ens-read", 100, 2500, bin="cxxfault", chunk=5, abort=0), J("ens-update", 120, 3000, bin="cxxfault", chunk=5, abort=0), J("multi-read", 100, 2500, bin="cxxfault", chunk=5, abort=0), J("merge-read", 60, 1500, bin="cxxfault", chunk=5, abort=0)]},
}
