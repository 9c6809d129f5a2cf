H = "heclib/heclib_c/src/"
PROPS = [
dict(id="C21", title="What an operation takes from the process it gives back",
 statement="""Repeated any number of times, no operation makes the process grow. Once a file is closed, the memory allocated and the file descriptors opened since it was opened are given back; and on a file that stays open, an operation
 done again and again, with what it delivered freed by the function provided for it, takes no more memory and no more file descriptors than before. It holds for every operation on files and records (opening, storing and
 retrieving of every kind of record with whatever is attached to it, whole or in part, catalogues, renames, deletions, undeletions, aliases, copies, duplications, squeezes, closing) and for the public interface, whether it succeeds,
 is refused (invalid arguments, names, read-only handles, other record types, files that are no DSS files or cannot be opened), finds nothing, or fails because a read or a write failed at any point.""",
 over=["programs","configurations","fault_sequences"], quant="3584 operations × 4 access modes × 3 reclaim levels, and each again and again on one handle; 181 × 181 of the public interface; 17 ways of opening × 5 access modes × 3 hash sizes, and × one of the first 30 I/Os failing in 3 ways; 11 squeezes and file copies × one of the first 400 (1200) I/Os failing; 536 × 536 pairs (thorough × 4 access modes × 3 levels); every operation × one of its first 60 (200) reads and writes failing in 3 ways",
 why="A test process lives for seconds and nobody looks at what it leaves behind. Services keep files open for months; a few bytes lost where a retrieval finds nothing, or a descriptor where an opening fails, end them. Most of the paths are exits taken only when one certain read fails.",
 files=[H+"Internal/zopenInternal.c", H+"Internal/zcloseInternal.c", H+"Public/zstructFree.c", H+"Internal/ztsRetrieveReg7.c", H+"Internal/ztsRetrieveIrreg7.c", H+"Public/zpdRetrieve.c", H+"Public/zpdStore.c", H+"Internal/zcatalogInternal.c", H+"Internal/zcopyRecordInternal.c", "heclib/hecdss/hecdss.c"],
 mech=[("what a handle holds", H+"Internal/zopenInternal.c, zcloseInternal.c"), ("what a struct holds, and the flags that say so", H+"Public/zstructFree.c"), ("buffers given back on every exit", H+"Internal/ztsRetrieveReg7.c, ztsRetrieveIrreg7.c, zcatalogInternal.c")],
 technique="exhaustive enumeration of operations, operation pairs and I/O failure points on the real code over an in-memory file system with a fault injector; every allocation of the process is counted, each scenario is repeated and must reach a fixed point", level="model_checking",
 note="A scenario fails when each of three repetitions after the first leaves more than the one before, so buffers the library keeps for reuse are allowed. Failures of memory allocation itself are not part of it."),
]
