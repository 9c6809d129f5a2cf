H = "heclib/heclib_c/src/"
PROPS = [
dict(id="C20", title="Files open in one process do not affect each other",
 statement="""A process may have any number of files open, in any access modes, and use them in any order. Every operation on one of them (opening, storing and reading of every kind of record, catalogues, renames, deletions, undeletions, aliases,
 copies, duplications, closing) returns, delivers and leaves in its file, byte for byte, what it does when the file is used alone: whatever is done between its operations with the other files, which may hold records of the same names with
 other contents, be open under another handle or access mode, be created, squeezed, copied from, closed and opened again, be no DSS files at all, have stores refused, or have their reads and writes fail; and using one
 file leaves no file descriptor of another open.""",
 over=["histories", "configurations", "fault_sequences"], quant="(operation on file 1, operation on another, operation on file 1): 8 (all) × 96 × 78; all 70 merges of two histories open–op–op–close × 7⁴ (9⁴) operations; 78 operations × 4 × 4 access modes × another operation before or after; 95 operations whose 1st…10th (40th) read or write fails × 78 operations on the other file; a file made anew before or after 95 operations × 78; 1–11 files at a time × 13 kinds × orders × table sizes × closings in between",
 why="The tests use one file at a time. The library keeps what it knows of a file in the handle, but also uses file-level variables, shared buffers and global settings; whether any of them leaks from one file to the next depends on which operation on another file came in between.",
 files=[H+"Internal/zinit.c", H+"Internal/zinitIfltab.c", H+"Internal/zcheckInternal.c", H+"Internal/zreadInfo.c", H+"Internal/zopenInternal.c", H+"Internal/zcloseInternal.c", H+"Internal/zget.c", H+"Internal/zput.c", H+"Internal/zlockActive.c", H+"Public/zbinaryStoreFromFile.c"],
 mech=[("the table of a handle", H+"Internal/zinitIfltab.c zinitIfltab()"), ("what the handle remembers of its last record", H+"Internal/zcheckInternal.c zcheckInternal()"), ("the memory of a handle", H+"Internal/zopenInternal.c zopenInternal(), zcloseInternal.c")],
 technique="exhaustive enumeration of interleaved operation sequences on two and more files, on the real code over an in-memory file system with a fault injector; results and bytes of each file compared with those of its own operations alone", level="model_checking",
 note="One thread: the library documents no thread safety. Settings that are global by design (message levels, progress and interruption) are not part of it. Operations on several handles of one file are C03 and C13."),
]
