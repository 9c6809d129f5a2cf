H = "heclib/heclib_c/src/"
PROPS = [
dict(id="C17", title="A refused operation leaves the file as it was, and a record keeps its type",
 statement="""An operation on a file that returns an error because of its arguments leaves no trace: whatever was done before and is done after, the file ends byte for byte as it would without the operation, no lock stays held, and the handle
 goes on working. Refused are: storing a record over one of another type (text, text table, arrays, regular or irregular series, paired data, grids, TIN, embedded file; by storing, copying or duplicating, merging or replacing), where
 single and double precision of the same kind are one type; deleting, renaming, duplicating, copying or aliasing a record that never was, was deleted or was renamed away (also onto an existing pathname); undeleting what is not deleted;
 an alias whose name is taken; storing part (curves or ordinates) of paired data that is absent or of another type; storing from a file that is absent; a regular series without values, without a valid start date or with an
 interval that is none; an irregular series without values, with an interval that is none, or whose times go back anywhere; paired data without ordinates, curves or data; a text without text or pathname; null structures;
 retrieving what is absent or of another type. On a handle opened for reading every operation that writes is refused; on a handle that was closed, never opened or whose opening failed every operation that reads or writes records is; the file
 stays byte for byte.""",
 over=["inputs", "histories", "configurations"], quant="13 kinds of records × 16 kinds of stores × 5 flags × 3 access modes; 282 operations × 3 access modes × 6 operations before × 8 after; all non-ascending sequences of 2…5 (6) times; all pairs of the 282; 212 operations × 4 retrievals on a handle opened for reading; 93 operations on handles never opened, closed, or whose opening failed in 10 ways",
 why="The tests look at the status of a handful of refusals. That nothing was written, that no lock was kept and that the next operation is unaffected depends on what was refused, on where in it, and on what came before and after.",
 files=[H+"Internal/zwriteInternal.c", H+"Internal/zwriteExisting.c", H+"Public/zpdStore.c", H+"Internal/zdeleteInternal.c", H+"Internal/ztsRegStoreBlock.c", H+"Internal/ztsIrregStoreBlock.c", H+"Internal/ztsStoreIrreg7.c", H+"Public/ztsStore.c", H+"Public/zaliasAdd.c", H+"Public/zrename.c", H+"Public/zduplicateRecord.c", H+"DssInterface/v6and7/zcopyRecord.c"],
 mech=[("type check", H+"Internal/zwriteExisting.c zwriteExisting()"), ("write access", H+"Internal/zwriteInternal.c zwriteInternal()"), ("type check of series", H+"Internal/ztsRegStoreBlock.c, ztsIrregStoreBlock.c"), ("type check of paired data", H+"Public/zpdStore.c"), ("refusals of delete and undelete", H+"Internal/zdeleteInternal.c")],
 technique="exhaustive enumeration of refused operations between other operations, alone and in pairs, on the real code over an in-memory file system; the final file compared byte for byte with that of the same run without them", level="model_checking",
 note="Refusals by the system (failed reads and writes, C12) and stores that span several blocks are not part of it. Arguments the library documents as unchecked (unfilled structures) are not offered."),
]
