H = "heclib/heclib_c/src/"
MEMFS = "the operating system is replaced by an in-memory file system at link time; the library itself is the real code built from the working tree"
PROPS = [
dict(id="C13", title="Processes that share a file behave as if their calls ran one at a time",
 statement="""If several processes have the same file open for writing (multi-user access or the default access, in any mixture) and store, delete, undelete, rename and copy records, store time series over
 overlapping times, or read, then for every schedule: every call succeeds or reports what some order of the calls (consistent with the order in which they really ran) explains, the file ends with exactly the
 records and values of that order, each listed once, and it is structurally sound (no overlapping space, correct record count). A store that spans several records of a series takes effect as one call. A read of a
 record that nobody is changing at the time is exact. No call waits for ever or is refused because another process holds a lock for a moment, and a process with multi-user access holds no
 lock on the file between its calls. The same holds while other processes open and close the file.""",
 over=["schedules", "programs"], quant="all schedules with up to 2 (3) preemptions at the reads, writes and lock operations of 2 processes with 1–2 calls each and up to 1 (2) of 3 processes, over eleven calls on three records and ten on series",
 why="The tests run in one process. The lost update between looking at a record and locking the file, the header that is not read again, the lock given up too early need two processes and one particular switch.",
 files=[H+"Internal/zlockActive.c", H+"Internal/zlockPassive.c", H+"Internal/zcheckMultiUser.c", H+"Internal/zcheckInternal.c", H+"Internal/zwriteInternal.c", H+"Internal/zdeleteInternal.c", H+"Public/zrename.c", H+"Internal/ztsStoreReg7.c", H+"Internal/ztsStoreIrreg7.c", H+"Internal/zcloseInternal.c"],
 mech=[("file lock, levels and header refresh", H+"Internal/zlockActive.c"), ("advisory locks of writers", H+"Internal/zlockPassive.c"), ("leaving single-user mode", H+"Internal/zcheckMultiUser.c"), ("last pathname cache", H+"Internal/zcheckInternal.c")],
 technique="stateless exploration of the real code in real processes under a controlled scheduler: all preemption-bounded schedules, with a linearizability check against a map", level="model_checking",
 note="POSIX record locks are simulated; a single read or write of the operating system is atomic. Reads of a record while it is being changed are not constrained, nor is the creation of one file by two processes. A process with default access that keeps the file open and idle may make others wait (by design). " + MEMFS + "."),
]
