H = "heclib/heclib_c/src/"
MEMFS = "the operating system is replaced by an in-memory file system at link time; the library itself is the real code built from the working tree"
PROPS = [
dict(id="C01", title="A DSS file is a durable map from case-insensitive pathnames to records",
 statement="""After any sequence of write, delete, undelete, rename, duplicate, close and reopen on a file, reading a pathname (in any letter case)
 returns exactly the latest record stored under it, every pathname without a live record reads as not found, and the catalog and the record
 count list each live record exactly once. This holds for every hash-table size, bin size, pathname length and for pathnames whose hash values
 collide. An undelete brings back the record that was last deleted under the name unless its slot has been reused since.""",
 over=["histories", "configurations"], quant="all operation sequences up to the stated depth over three to five pathnames and four record shapes, on files of eight layouts",
 why="""The repository's tests write fixed records in a fixed order and read each back once; the quantifier is over every interleaving of creates,
 overwrites, moves, deletes, undeletes and renames, including bin overflow, slot reuse and hash collisions, which they never combine.""",
 files=[H+"Internal/zwriteInternal.c", H+"Internal/zcheckInternal.c", H+"Internal/zwriteNew.c", H+"Internal/zwriteExisting.c", H+"Internal/zbinNew.c", H+"Internal/zdeleteInternal.c"],
 mech=[("pathname hash table and bins", H+"Internal/zcheckInternal.c:zcheckInternal"), ("in-place rewrite or relocation", H+"Internal/zwriteExisting.c:zwriteExisting"), ("delete, undelete, rename status changes", H+"Public/zrename.c")],
 technique="stateless model checking of the real library: exhaustive enumeration of operation histories against a reference map model",
 note="""Every history within the bounds is executed on the real code and compared with the model after each operation; nothing is claimed beyond the
 stated depth, pathnames and record sizes. """ + MEMFS + "."),
dict(id="C02", title="Every operation leaves the file structurally sound on disk",
 statement="""After any sequence of operations the file image is well formed: every live record is reachable through exactly one directory entry, no two
 parts of the file (headers, directory, record information, record data, free space) overlap or lie outside the file, the end-of-file
 marker and the record counts agree with what is there, and every chain ends. The library's own integrity checkers report no error on it.""",
 over=["histories", "configurations"], quant="all operation sequences up to the stated depth on files of eight layouts; the whole image is checked after every operation and after close",
 why="""Tests only read records back through the library; a damaged layout that still reads back (overlapping extents, a cut chain, a wrong count) is
 invisible to them and destroys data only later.""",
 files=[H+"Internal/zbinNew.c", H+"Internal/zbinUpdate.c", H+"Internal/zwriteExisting.c", H+"Internal/zgetFileSpace.c", H+"DssInterface/v6and7/zundelete.c"] ,
 mech=[("space allocation at end of file", H+"Internal/zgetFileSpace.c"), ("bin chaining and slot reuse", H+"Internal/zbinNew.c"), ("header and counters", H+"Internal/zwriteInternal.c")],
 observe=["bytes of the file", "zcheckLinks/zcheckPathnames/zcheckPathnameBins/zcheckHashTable"],
 technique="stateless model checking: exhaustive operation histories, with an independent structural reader of the file image as the state invariant",
 note="The invariant is evaluated by an independent reader in the harness on every reached file image within the bounds, and by the library's own checkers. " + MEMFS + "."),
dict(id="C03", title="Space reclamation never endangers a live record",
 statement="""With every space-reclamation setting, and with the setting changed part-way, any sequence of writes, expansions, deletes, undeletes, renames
 and copies leaves every live record intact and readable. Space listed as free never overlaps anything still in use, and a record
 that could be undeleted comes back whole or is reported as not recoverable, never with other content.""",
 over=["histories", "configurations"], quant="all operation sequences up to the stated depth, with record sizes on both sides of the smallest reusable size, four reclamation settings and free-space tables small enough to fill and chain",
 why="Tests exercise reclamation with one long fixed script; the hazard is a particular order of free and reuse, and reuse by a record of a particular size.",
 files=[H+"Internal/zgetFileSpace.c", H+"Internal/zreleaseFileSpace.c", H+"Internal/zreclaimRead.c", H+"Internal/zreclaimSet.c" , H+"DssInterface/v6and7/zundelete.c"],
 mech=[("free-space table", H+"Internal/zreclaimRead.c"), ("release and reuse of space", H+"Internal/zreleaseFileSpace.c")],
 technique="stateless model checking: exhaustive operation histories under each reclamation setting, checked against a reference map and a free-space overlap invariant",
 note="Every history within the bounds; contents, catalog and free-space map compared after every operation. " + MEMFS + "."),
dict(id="C04", title="Squeezing or copying a file keeps exactly the live records, unchanged",
 statement="""After any history of writes, deletes, undeletes and renames, squeezing the file (by name, on an open handle, in place or through a new file)
 or copying it record by record yields a file holding exactly the live records with the same spelling, type, headers, data, precision and
 write dates, nothing that was deleted or renamed away, no dead space, and a sound structure; the file and the handle stay usable, and no temporary file is
 left behind. A copy onto a file that already has records replaces only the same pathnames. Data that happens to look like a file marker or a record header changes nothing.""",
 over=["histories", "configurations"], quant="all operation sequences up to the stated depth, on files of several layouts, each ended by every way of squeezing or copying, with further operations on the result",
 why="""The tests squeeze one prepared file and count records. Whether a particular record survives depends on the order of deletes, renames and reuse before it, on the
 bin layout, and on the bytes of the data.""",
 files=[H+"DssInterface/v6and7/zsqueeze.c", H+"Public/zsqueeze7.c", H+"Public/zcopyFile.c", H+"Internal/zcopyRecordInternal.c", H+"Internal/copyFile.c"],
 mech=[("rebuild into a new file and replace the old one", H+"Public/zsqueeze7.c:zsqueeze7"), ("sequential scan for record information blocks", H+"Public/zcopyFile.c:zcopyFile"), ("record copy", H+"Internal/zcopyRecordInternal.c")],
 technique="stateless model checking: exhaustive operation histories followed by every squeeze or copy variant, against a reference map and an independent structural reader",
 note="Every history within the bounds and each way of squeezing; the result is compared record by record and with the independent reader. " + MEMFS + "."),
]
