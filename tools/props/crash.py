H = "heclib/heclib_c/src/"
MEMFS = "the operating system is replaced by an in-memory file system at link time; the library itself is the real code built from the working tree"
PROPS = [
dict(id="C11", title="A process that dies in any call loses nothing else and leaves a usable file",
 statement="""If a process dies inside a call that changes a file (store of any kind, delete, undelete, rename, copy within the file, squeeze, creation), between any two of the writes the call issues or
 within one of them (cut at a sector boundary), with or without space reclaiming, then the file opens again; every record the call was not about reads exactly as before and is listed exactly once; nothing
 is listed that never existed; and the record being created, deleted, undeleted, or moved because it grew either is as before the call or complete (a record overwritten in place may hold a mixture), and is
 readable if it is listed. A record whose rename was interrupted between two writes is complete under its old or its new name. Afterwards repeating the call, squeezing, storing into, deleting and renaming
 other records work and keep all of this true. A squeeze that dies leaves either the file or its temporary copy (..._squ.dss) complete. A creation that dies leaves a file that works, or is refused.""",
 over=["crash_points", "histories"], quant="every write boundary and every 512-byte sector of every write of the last call of all histories up to 3 (4) operations, followed by every continuation; all kinds of typed records and series over earlier ones; all cut points of squeezes and creations",
 why="No test interrupts a call. Which of the several places (data, directory bin, bin table, free-space table, header) is written first decides what survives, and a wrong order is invisible to anything that runs to the end.",
 files=[H+"Internal/zwriteInternal.c", H+"Internal/zwriteNew.c", H+"Internal/zbinUpdate.c", H+"Internal/zbinNew.c", H+"Internal/zdeleteInternal.c", H+"Public/zrename.c", H+"Internal/zgetFileSpace.c", H+"Internal/zreleaseFileSpace.c", H+"Internal/zreclaimRead.c", H+"Public/zsqueeze7.c", H+"Internal/zpermCreate.c"],
 mech=[("order of record, header and directory writes", H+"Internal/zwriteInternal.c"), ("directory entry", H+"Internal/zbinUpdate.c"), ("squeeze and copy back", H+"Public/zsqueeze7.c"), ("creation", H+"Internal/zpermCreate.c")],
 technique="exhaustive crash-point and torn-write enumeration over the write journal of the real code, with every continuation, over all short histories", level="fault_enumeration",
 note="Writes reach the disk in the order issued (no reordering by the operating system); a torn write is cut at a 512-byte sector. Not claimed: the counts in the file header, and a rename cut inside a write. " + MEMFS + "."),
dict(id="C12", title="A failing disk never turns into wrong success, wrong data or a lost record",
 statement="""When a read or a write that a call issues fails, once or persistently (for the rest of the call, or until the file is closed), or transfers only a part of its bytes, then the call returns an error, or
 it has done its whole work: a store, delete, undelete, rename or copy within the file that reports success is complete after the file is reopened. After an error every record the call was not about reads
 exactly as before and is listed exactly once; nothing is listed that never existed; the record concerned is as before or complete (one overwritten in place may hold a mixture; a renamed one is complete
 under one of its names); the file opens, and a new record can be stored and read back without disturbing the others. A question (reading a record, checking its existence, type or check-sum, listing, retrieving
 text, arrays, locations, grids, TINs, files and series, opening, copying to another file) gets the right answer or an error, never a wrong answer. A squeeze in which a read, write, truncation, deletion or renaming fails,
 or which is cancelled at that moment, leaves every record in the file or, if it reports an error, in the file or the complete temporary copy (..._squ.dss); it reports success only if the file holds every record. No call hangs, and no file stays open.""",
 over=["fault_sequences", "histories"], quant="every read and write of the last call of all histories of 2 and 3 operations, failing in four ways; every operation of a squeeze after all histories of 1-2 operations, failing in four ways or cancelled; 22 kinds of questions in four arrangements; all typed stores over each other",
 why="No test makes a disk operation fail. A missing check of one status among hundreds of calls is invisible until the disk is full or unreadable, and then costs a record, or the file.",
 files=[H+"Internal/zwriteInternal.c", H+"Internal/zwriteNew.c", H+"Internal/zbinNew.c", H+"Internal/zgetFileSpace.c", H+"Internal/zreadInternal.c", H+"Internal/zreadInfo.c", H+"Internal/zcatalogInternal.c", H+"Public/zsqueeze7.c", H+"Public/zgetDataCRC.c", H+"System/writeBytes.c", H+"System/readBytes.c"],
 mech=[("statuses passed up by the store", H+"Internal/zwriteInternal.c"), ("directory bins", H+"Internal/zbinNew.c"), ("squeeze and copy back", H+"Public/zsqueeze7.c"), ("partial transfers", H+"System/writeBytes.c")],
 technique="exhaustive single-fault enumeration (every operation, four ways to fail, and cancellation) under a fault-injecting file system over all short histories of the real code", level="fault_enumeration",
 note="Positioning (lseek), locking and memory allocation do not fail. A question that has no way to report an error (number of records) is asked only for hangs and leaks. " + MEMFS + "."),
]
