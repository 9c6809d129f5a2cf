H = "heclib/heclib_c/src/"
PROPS = [
dict(id="C18", title="Reading changes nothing, and what is read depends on the file alone",
 statement="""Opening an existing file in any access mode, reading from it in any way (retrieving records of every kind whole or in part, raw records, series by window, trimmed or whole, their ranges and sizes; unsorted and sorted catalogues with
 filters, dates or checksums; collections; existence, type, size, dates, checksum and aliases of records; inquiries; checks of the file; copying a record or the file elsewhere) and closing it leaves the file byte for byte as it was, keeps
 no lock and leaves no descriptor open; only a sorted catalogue, on a handle that may write and has written or found no order stored, may leave that order in the file, which changes no record and no other result. What an operation that
 reads gives is the same whatever was read before it on the handle, whatever the access mode, and, between two writes, the same as a handle opened anew gives, with the file ending as without it. If another process changes the file
 and closes it, a handle opened before that gets from then on what a handle opened anew gets (inquiries into the file header other than the number of records excepted). A file that is not a version-7 file of
 this kind (not empty, and cut off within its first 32 bytes, its mark or version changed, a text, zeros, version 6) is refused by every access mode and by the public interface, stays byte for byte, and no other file is made.""",
 over=["inputs", "histories", "configurations"], quant="161 reads: all pairs × 2 (4) access modes; one to three times × 4 access modes; 72 writes × 161 reads × 3 (72) second writes; 72 changes by another process × 161 reads × 4 (161) reads before × 2 (3) access modes; 6 kinds of foreign files × up to 40 variants × 5 access modes × 2 interfaces",
 why="The tests read what they just wrote, once, in one order. That a read leaves no trace in the file or in the handle depends on which read it was, on what was read or written before, and on what others did to the file.",
 files=[H+"Internal/zcheckInternal.c", H+"Internal/zreadInfo.c", H+"Internal/zreadInternal.c", H+"Internal/zpermRead.c", H+"Internal/zopenInternal.c", H+"Internal/zcloseInternal.c", H+"Internal/zsetCatalogSortAddresses.c", H+"Public/zcopyFile.c", H+"Public/zinquire.c", H+"DssInterface/v6and7/zdataType.c", H+"Public/zaliasGetPrimary.c"],
 mech=[("what the handle remembers of the last lookup", H+"Internal/zcheckInternal.c zcheckInternal()"), ("reading the header anew", H+"Internal/zpermRead.c zpermRead()"), ("recognition of the file", H+"Internal/zopenInternal.c zopenInternal()"), ("stored order of the catalogue", H+"Internal/zsetCatalogSortAddresses.c")],
 technique="exhaustive enumeration of pairs of reads, of reads between writes and of reads after changes by another (simulated) process, on the real code over an in-memory file system; results compared with those of the read alone and of a fresh handle, files byte for byte", level="model_checking",
 note="Reads that run at the same time as a write of another process are C13. The number of a handle's own messages, its error state and the last-record inquiries (type, ndat, prec) are about the handle and not claimed."),
]
