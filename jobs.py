"""Workloads per property.  n = cases per worker (quick, thorough)."""

def J(flavor, prog, mode, n, **k):
    d = dict(flavor=flavor, prog=prog, mode=mode, n=list(n))
    d.update(k)
    return d


T = True
JOBS = {
    "C01": [J("asan", "core", "c01", (4000, 110000)), J("gasan", "core", "c01", (0, 30000))],
    "C02": [J("asan", "core", "c02", (2500, 60000)), J("asan", "file", "c02", (900, 24000), cli=T),
            J("asan_fcntl", "file", "c02", (200, 6000), cli=T), J("gasan", "core", "c02", (0, 20000)),
            J("plain", "core", "c02", (8, 150), valgrind=T, cpu_limit=400), J("plain", "file", "c02", (4, 60), valgrind=T, cli=T, cpu_limit=400)],
    "C03": [J("asan", "core", "c03", (2400, 60000)), J("plain", "core", "c03", (2400, 60000))],
    "C04": [J("asan", "core", "c04", (9000, 200000)), J("gasan", "core", "c04", (0, 50000))],
    "C05": [J("asan", "core", "c05", (20000, 500000)), J("plain", "core", "c05", (20000, 500000))],
    "C06": [J("asan", "core", "c06", (5000, 120000)), J("plain", "core", "c06", (5000, 120000))],
    "C07": [J("asan", "core", "c07", (17000, 400000))],
    "C08": [J("asan", "core", "c08", (6000, 150000))],
    "C09": [J("asan", "file", "c09", (4000, 90000)), J("plain_fcntl", "file", "c09", (6000, 150000))],
    "C10": [J("asan", "file", "c10", (420, 10000)), J("plain_fcntl", "file", "c10", (300, 8000))],
    "C11": [J("asan", "file", "c11", (2500, 60000), cli=T), J("plain", "file", "c11deep", (4, 24), stack=8 << 20), J("asan_fcntl", "file", "c11", (400, 8000), cli=T)],
    "C12": [J("asan", "file", "c12", (1800, 45000)), J("asan_fcntl", "file", "c12", (500, 15000))],
    "C13": [J("asan", "file", "c13", (3000, 70000)), J("plain_fcntl", "file", "c13", (3000, 70000))],
    "C14": [J("plain", "file", "c14", (200, 4500)), J("plain_fcntl", "file", "c14", (130, 3000))],
    "C17": [J("asan", "file", "c17", (1500, 35000)), J("plain_fcntl", "file", "c17", (1500, 35000))],
    "C18": [J("asan", "core", "c18", (1400, 35000), cli=T)],
    "C25": [J("asan", "file", "c25", (420, 10000))],
    "C27": [J("asan", "core", "c27", (50000, 800000))],
    "C28": [J("asan", "file", "c28", (400, 8000)), J("plain_fcntl", "file", "c28", (1400, 30000))],
}

HUGE = J("plain", "file", "huge", (0, 1), workers=1, cpu_limit=600)    # records of 4 GiB, about 17 GB of memory
for _p in ("C08", "C09", "C10"):
    JOBS[_p].append(HUGE)

INFO = {}


def I(p, level, rule, assumptions):
    INFO[p] = dict(level=level, rule=rule, assumptions=assumptions)


NOTRACE = "the generated workloads reach the behaviour; nothing is claimed about inputs not generated"
SANI = "ASan and UBSan of clang 18 (gcc 13 in thorough runs) report what they instrument"
FS = "files live on tmpfs and fsync is counted, not performed; what a real disk does with flushed data is not under test"

I("C01", "exploration", "random sequences of map operations on trees with colliding, empty, long and high-bit keys, each step compared with a nested-map model, with object identities tracked; nontrivial: the sequence changed the tree; distinct by final tree and operations", [NOTRACE, SANI])
I("C02", "exploration", "all workloads of the other properties with behavioural verdicts muted, under ASan+UBSan, an allocation ledger and a descriptor ledger emptied at the end of each case, valgrind memcheck on a sample; nontrivial: the case allocated and used trees or files", [NOTRACE, SANI, "uninitialised reads are seen by valgrind on a sample of cases only"])
I("C03", "exploration", "random pairs of overlapping trees merged, mutated and deleted in random order, against a deep-union model; nontrivial: both trees non-empty", [NOTRACE, SANI])
I("C04", "exploration", "random format strings (all supported conversions, widths, flags, key lengths around the 1023 limit) against snprintf and step-by-step descent; nontrivial: at least one conversion", [NOTRACE, SANI])
I("C05", "exploration", "typed set/get over boundary-biased and random values, through merge, pack and file; malformed text for getters; nontrivial: a value was stored or refused", [NOTRACE, SANI])
I("C06", "exploration", "trees with string and integer keys over the whole int range sorted both ways and listed; nontrivial: at least two keys", [NOTRACE, SANI])
I("C07", "exploration", "random trees (wide, deep, long keys, absent subtrees) packed into guarded buffers and unpacked; nontrivial: non-empty tree", [NOTRACE, SANI])
I("C08", "exploration", "bytes from the library decoded by an independent codec and bytes from that codec (any order, with and without checksum) read by the library; nontrivial: non-empty tree", [NOTRACE, SANI, "the codec in /verif/harness/vh.cpp follows the documented format"])
I("C09", "exploration", "random tree, previous file content and writer/reader combination; the file is decoded independently; nontrivial: non-empty tree or previous content", [NOTRACE, SANI, FS])
I("C10", "fault_enumeration", "for each written file every truncation point, and bit flips, bursts up to 32 bits and splices of two versions (all positions for small files, sampled for large ones); nontrivial: damaged bytes differ from the original; distinct by file", [NOTRACE, SANI, "a 32-bit checksum cannot catch damage beyond bursts; only the listed damage is judged"])
I("C11", "exploration", "random, structured-corrupt, re-checksummed and size-lying files through every reader and the print utility, each read twice with differently filled fresh memory; nontrivial: the file is not a valid file; distinct by content", [NOTRACE, SANI, "time bounds are CPU limits of 100 s per case"])
I("C12", "fault_enumeration", "each operation is run once fault-free to list its system calls, then with transient noise or one call failing for good, at once or after a partial transfer; nontrivial: a fault was injected; distinct by operation, call and tree", [NOTRACE, FS, "faults are injected at the libc boundary of the library's objects"])
I("C13", "fault_enumeration", "writes with and without injected transfer and fsync faults under a dirty-file monitor; nontrivial: the write reported success and was checked", [NOTRACE, FS])
I("C14", "fault_enumeration", "a child process writes and is killed before, after or inside each system call; another process then reads; old and new trees include twins of equal layout; nontrivial: the child was killed inside the operation; distinct by operation, kill point and trees", [NOTRACE, FS, "a kill ends the process, not the operating system"])
I("C17", "exploration", "all file-creating operations under every kind of umask; nontrivial: umask not 022 or file existed; distinct by operation and mask", [NOTRACE, FS])
I("C18", "exploration", "printed text parsed back independently for random trees, indents and modes; the CLI run on files; nontrivial: non-empty tree", [NOTRACE, SANI])
I("C25", "exploration", "rank-file sets written by the library or laid out independently, with decoys, earlier sets, long prefixes and damage, read back; nontrivial: every case; distinct by set and layout", [NOTRACE, SANI, FS])
I("C27", "exploration", "calls with absent trees, names and descriptors interleaved with live trees, also in parallel operations; nontrivial: every case; distinct by call and state", [NOTRACE, SANI])

I("C28", "fault_enumeration", "each operation (in memory, on files, and in parallel on the simulated MPI) is run once to count its allocations, then in child processes in which one allocation, or it and all later ones, is refused; outcome, trees, files, ledgers and the way the process ends are judged; nontrivial: an allocation was refused; distinct by operation, allocation and tree", [NOTRACE, SANI, FS, "allocations are refused at the libc boundary of the library's objects; those of libc itself and zlib are not"])

JOBS.update({
    "C15": [J("plain", "lock", "c15", (110, 3000), cores=2), J("plain_fcntl", "lock", "c15", (110, 3000), cores=2), J("asan", "lock", "c15", (25, 500), cores=2)],
    "C16": [J("plain", "lock", "c16", (90, 2500), cores=2), J("plain_fcntl", "lock", "c16", (90, 2500), cores=2), J("asan", "lock", "c16", (20, 400), cores=2)],
})
LOCKS = "flock() and fcntl() locks of the kernel work; timestamps from CLOCK_MONOTONIC are comparable between processes; schedules are those that random delays and short transfers provoke"
I("C15", "exploration", "2 to 6 processes run random locked operations on one file with injected delays, short transfers, signals and locks held for a while; the log of unique values is judged offline for atomic-register linearizability with updates; nontrivial: some read returned another process's value; distinct by completion order of operations", [LOCKS, FS])
I("C16", "exploration", "2 to 6 processes run locked read-modify-write updates (and locked readers) with delays, signals and locks held for a while; each update's starting set, the final file and exclusion between the two calls are judged offline; nontrivial: the file passed between processes; distinct by order of updating processes", [LOCKS, FS])

JOBS["C19"] = [J("tsan", "thr", "c19", (900, 25000), cores=2), J("plain", "thr", "c19", (900, 25000), cores=2), J("asan", "thr", "c19", (300, 8000), cores=2)]
I("C19", "exploration", "2 to 6 threads run random scripts on own trees and files or on one shared unmodified tree; ThreadSanitizer watches for races and each thread's results are compared with the same script run alone; nontrivial: every case; distinct by scripts", [NOTRACE, "ThreadSanitizer of clang 18 sees races on the executed accesses; schedules are those the kernel and random yields produce"])

# ---------------------------------------------------------------- MPI
SIM = "the simulated MPI of /verif/harness/mpisim follows the MPI standard; its schedules are sampled, not enumerated"
def sim(mode, n, flavor="asan", **k):
    return J(flavor, "sim", mode, n, stall=100, **k)
def real(mode, n, np, flavor="asan", **k):
    return J(flavor, "real", mode, n, np=np, cores=min(np, 8), workers=1, stall=100, **k)
def reals(mode, a, b, c=None):
    return [real(mode, a, 2), real(mode, b, 5), real(mode, c or b, 8, flavor="plain")]
JOBS["C20"] = [sim("c20", (800, 20000)), sim("c20", (800, 20000), "plain")] + reals("c20", (60, 1500), (40, 1000))
JOBS["C21"] = [sim("c21", (900, 25000)), sim("c21", (900, 25000), "plain")] + reals("c21", (60, 1500), (40, 1000))
JOBS["C22"] = [sim("c22", (180, 5000)), sim("c22", (400, 12000), "plain")] + reals("c22", (60, 1500), (30, 800))
JOBS["C20"] += [sim("c20big", (3, 20), "plain", workers=2, cpu_limit=600)]
JOBS["C21"] += [sim("c21big", (3, 20), "plain", workers=2, cpu_limit=600)]
JOBS["C22"] += [sim("c22big", (1, 4), "plain", workers=1, cpu_limit=600)]
JOBS["C23"] = [sim("c23", (160, 4000)), sim("c23", (300, 9000), "plain")] + reals("c23", (40, 1000), (20, 600))
JOBS["C23"] += [sim("c23big", (0, 1), "plain", workers=1, cpu_limit=600)]
JOBS["C24"] = [sim("c24", (80, 2000)), sim("c24", (160, 4500), "plain")] + reals("c24", (12, 300), (8, 200))
JOBS["C25"] += [sim("c25p", (200, 5000))] + reals("c25p", (20, 500), (12, 400))[1:]
JOBS["C26"] = [sim("c26", (200, 5000)), sim("c26", (600, 16000), "plain")] + reals("c26", (20, 500), (20, 600))[1:]
JOBS["C13"] += [sim("c13p", (40, 1200), "plain")] + [real("c13p", (8, 200), 4, "plain")]
JOBS["C17"] += [sim("c17p", (120, 3000), "plain")] + [real("c17p", (12, 300), 4, "plain")]
JOBS["C27"] += [sim("c27p", (300, 8000))] + reals("c27p", (20, 500), (12, 400))[1:]
JOBS["C28"] += [sim("c28p", (160, 4000), "plain")]
JOBS["C29"] = [sim("c29", (300, 8000)), sim("c29", (500, 14000), "plain")] + reals("c29", (40, 1000), (24, 600))
JOBS["C30"] = [J("asan", "file", "c30", (1500, 40000)), J("plain_fcntl", "file", "c30", (2500, 60000)), sim("c30p", (200, 5000), "plain")] + reals("c30p", (20, 500), (12, 300))[:2]
JOBS["C31"] = [J("asan", "file", "c31", (800, 24000), cpu_limit=40, stack=8 << 20), J("plain_fcntl", "file", "c31", (1500, 45000), cpu_limit=20, stack=8 << 20), sim("c31p", (250, 6000), cpu_limit=40), sim("c31p", (400, 12000), "plain", cpu_limit=20)] + reals("c31p", (20, 500), (12, 300))[:2]
JOBS["C32"] = [J("asan", "file", "c32", (1200, 30000)), J("plain_fcntl", "file", "c32", (3000, 70000))]
JOBS["C33"] = [J("asan", "file", "c33", (2500, 60000)), J("plain_fcntl", "file", "c33", (5000, 120000)), sim("c33p", (150, 4000)), sim("c33p", (250, 7000), "plain")] + reals("c33p", (20, 500), (12, 300))[:2]
JOBS["C02"] += [sim("c02p", (120, 4000)), J("plain", "sim", "c02p", (2, 30), valgrind=T, cpu_limit=400, stall=300)]
MPIA = [NOTRACE, SANI, SIM, "real runs use the installed Open MPI over shared memory with synchronous sends and random pauses"]
I("C20", "exploration", "random programs of sends, receives and send-receive rounds over two overlapping communicators on a simulated MPI with seeded adversarial scheduling and buffering, and on Open MPI with 2, 5 and 8 processes; every tree is compared with what was sent and leftovers and deadlocks are reported; nontrivial: every case; distinct by program and by schedule", MPIA)
I("C21", "exploration", "random programs of broadcasts with random roots over two overlapping communicators, simulated and real MPI, trees compared on every process; nontrivial: every case; distinct by program and by schedule", MPIA)
I("C22", "exploration", "default, leftward and rightward exchanges with random sparse and dense patterns on communicators of up to 70 processes (any size, any rank order), messages queued in pieces, compared with the pattern; nontrivial: every case; distinct by pattern and by schedule", MPIA)
I("C23", "exploration", "gather, independent decoding of every file of the set, scatter, on simulated and real MPI; small segments give several files and map levels; earlier sets, long and odd prefixes, transient faults, groups working side by side; nontrivial: every case; distinct by data and by schedule", MPIA + [FS])
I("C24", "fault_enumeration", "gathers with a missing directory, a directory in place of a file, or system calls failing on one process; scatters of sets with a file missing, empty, cut, flipped, replaced by garbage, by a directory, by a file of a set of another size or level, or with failing reads; return values of all processes compared; nontrivial: every case; distinct by case and by schedule", MPIA + [FS])
I("C26", "exploration", "adversarial size distributions around segment boundaries; every file of the set is decoded independently and its share summed; nontrivial: every case; distinct by sizes and by schedule", MPIA + [FS])
I("C29", "exploration", "random programs mixing sends, sendrecvs, broadcasts, exchanges, gathers and scatters over three sets of overlapping communicators without barriers, while the application has messages of its own in flight on the same communicators; every result and every application message is compared; nontrivial: every case; distinct by program and by schedule", MPIA + [FS, "the application keeps to tags above 999 and the library to its own"])
I("C30", "exploration", "every file operation, with and without injected faults, on paths spelled in all ways, among files of nearby names; the directory tree (names, kinds, permissions, contents, times), the process (directory, environment, signals, descriptors, locale, mask, timers) and what it prints are compared before and after; nontrivial: every case; distinct by operation, path and tree", MPIA + [FS])
I("C31", "exploration", "sets whose records are well formed and checksummed but contradict each other (odd, missing or repeated level, ranks, rank, file and offset values, wrong or missing files, circles, chains of thousands of maps, maps shared so that paths multiply) through the single-process and the parallel reader; outcome, trees, descriptors and CPU time judged; nontrivial: every case; distinct by contradiction and entries", MPIA + [FS, "time bounds are CPU limits of 20 to 40 s per case"])
I("C32", "exploration", "one to six records written and read through one descriptor (file at any offset, appending file, pipe, socket, blocking or not, with short and interrupted transfers), bytes of the application between them, by the library or an independent writer, ending cleanly, cut or damaged; bytes, positions, flags, return values and trees compared; nontrivial: every case; distinct by kind and trees", [NOTRACE, SANI, FS])
I("C33", "exploration", "elements, key texts and subtrees of a tree are held while random operations (setting, removing, merging, sorting, files, rank-file sets, messages, exchanges) run on the tree; after each, those not removed are compared by address and content, under ASan; nontrivial: every case; distinct by tree and operations", MPIA + [FS])
